"""Timeouts bound every execution and nothing else."""

import asyncio
from datetime import timedelta
from typing import Any

from sim.world import World
from sim.net import Latency

from .flow import Boom, FlowCheck

ATT = {"tm": 1, "tm_retry": 3, "tm_now": 2, "tm_exp": None, "tm_dep": 1, "plain": 1, "plain_retry": 2}
DELAY = {"tm_retry": 0.3, "tm_now": 0.0, "tm_exp": 2.0, "plain_retry": 0.2}
NEAR = 0.02


class Own(asyncio.TimeoutError):
    """A timeout error of the task's own (of a request it made, say)."""


def behaviour(script: dict[str, Any], att: int) -> dict[str, Any]:
    return script["do"][min(att, len(script["do"])) - 1]


def cut_at(base: float, b: dict[str, Any]) -> float | None:
    """How long after its start an attempt is to be cut, None if it ends before."""
    d = base
    for at, by in b["ext"]:
        if at >= d or at >= b["dur"]:
            break
        d += base if by is None else by
    return d if d <= b["dur"] else None


def close(base: float, b: dict[str, Any]) -> bool:
    """Ends, or extends, too near to the deadline to say which comes first."""
    d = base
    for at, by in b["ext"]:
        if abs(at - d) < NEAR:
            return True
        if at >= d or at >= b["dur"]:
            break
        d += base if by is None else by
    return abs(d - b["dur"]) < NEAR


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import CurrentExecution, Depends, ExponentialRetry, Retry, Timeout
    from docket.execution import Execution

    s = lambda x: timedelta(seconds=x)  # noqa: E731
    base = w.plan["base"]

    async def body(val: str, script: dict[str, Any], ex: Execution, t: Any) -> Any:
        w.sid = getattr(w, "sid", 0) + 1
        sid = w.sid
        att = ex.attempt
        b = behaviour(script, att)
        t0 = w.now()
        limit = None if t is None else t0 + base[ex.function_name]
        op = w.ops.get(val)
        w.event("start", node=node, key=val, att=att, sid=sid, redel=bool(ex.redelivered), left=None if t is None else t.remaining().total_seconds(),
                ok=bool(op and op["script"] == script and op["key"] == ex.key and op["fn"] == ex.function_name))

        def end(out: str) -> None:
            w.event("end", node=node, key=val, att=att, sid=sid, out=out, limit=limit, t0=t0)

        try:
            for at, by in b["ext"]:
                if at >= b["dur"]:
                    break
                await asyncio.sleep(max(0.0, t0 + at - w.now()))
                if t is None:
                    continue
                if by is None:
                    t.extend()
                    limit += base[ex.function_name]
                else:
                    t.extend(s(by))
                    limit += by
                w.event("extend", node=node, key=val, sid=sid, off=limit - w.now() - t.remaining().total_seconds())
            await asyncio.sleep(max(0.0, t0 + b["dur"] - w.now()))
        except asyncio.CancelledError:
            w.event("cut", node=node, key=val, att=att, sid=sid, limit=limit, t0=t0)
            if b.get("clean"):
                await asyncio.sleep(b["clean"])
            if b.get("deaf") == "returns":
                end("cut")
                return {"val": val, "deaf": True}
            end("cut")
            if b.get("deaf") == "raises":
                raise Boom(val, -att)
            raise
        end(b["end"])
        if b["end"] == "fail":
            raise Boom(val, att)
        if b["end"] == "own":
            raise Own(val)
        return {"val": val, "att": att}

    async def slow_dep() -> Any:
        # resolving the dependencies is not the body's time
        await asyncio.sleep(w.plan["dep"])
        yield "x"
        await asyncio.sleep(w.plan["dep"])

    async def tm(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), t: Timeout = Timeout(s(base["tm"]))) -> Any:
        return await body(val, script, ex, t)

    async def tm_retry(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), t: Timeout = Timeout(s(base["tm_retry"])), r: Retry = Retry(attempts=3, delay=s(0.3))) -> Any:
        return await body(val, script, ex, t)

    async def tm_now(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), t: Timeout = Timeout(s(base["tm_now"])), r: Retry = Retry(attempts=2)) -> Any:
        return await body(val, script, ex, t)

    async def tm_exp(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), t: Timeout = Timeout(s(base["tm_exp"])),
                     r: Retry = ExponentialRetry(attempts=None, minimum_delay=s(0.1), maximum_delay=s(2))) -> Any:
        return await body(val, script, ex, t)

    async def tm_dep(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), d: Any = Depends(__import__("contextlib").asynccontextmanager(slow_dep)), t: Timeout = Timeout(s(base["tm_dep"]))) -> Any:
        return await body(val, script, ex, t)

    async def plain(val: str, script: dict[str, Any], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex, None)

    async def plain_retry(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), r: Retry = Retry(attempts=2, delay=s(0.2))) -> Any:
        return await body(val, script, ex, None)

    return [tm, tm_retry, tm_now, tm_exp, tm_dep, plain, plain_retry]


class C19(FlowCheck):
    id = "C19"
    title = "Timeouts bound every execution and nothing else"
    rule = (
        "Seeded tasks with and without timeouts and retry policies whose attempts finish, fail, raise timeout errors of their own, overrun, extend their deadline, clean up slowly when interrupted or swallow the interruption, "
        "on 1-3 workers; some are cancelled meanwhile; 55% of the runs with crashes, stalls, restarts and lost messages. Judged per attempt: interrupted no earlier than the (extended) deadline and within 50 ms of it, full time left at every start, "
        "no interruption of tasks that end in time, have no timeout or run beside one that is; per task: number of attempts and final state and error as its policy and outcomes say (fault-free runs); and everything runs to its end. Non-trivial: an attempt was cut."
    )
    weights = {"add": 1.0}
    fns = {"tm": 1, "tm_retry": 1, "tm_now": 0.7, "tm_exp": 0.5, "tm_dep": 0.4, "plain": 0.3, "plain_retry": 0.3}
    attempts = ATT
    n_ops = (1, 9)
    window = (0.5, 6.0)
    fault_prob = 0.55
    ttl_choices = [900]
    make_tasks = staticmethod(make_tasks)
    runs_quick = 350
    runs_thorough = 8000

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        plan["base"] = {f: rng.choice([0.1, 0.4, 1.0, 2.5]) for f in self.fns if f.startswith("tm")}
        plan["dep"] = rng.choice([0.05, 0.5, 3.0])
        for o in plan["ops"]:
            base = plan["base"].get(o["fn"], 1.0)
            do = []
            for _ in range(rng.randint(1, 3)):
                while True:
                    r = rng.random()
                    dur = rng.uniform(0, base * 0.9) if r < 0.35 else (base if r < 0.4 else base * rng.uniform(1.05, 4))
                    ext = sorted(([round(rng.uniform(0, dur), 3), None if rng.random() < 0.3 else round(rng.uniform(0.05, 2) * base, 3)] for _ in range(rng.randint(0, 3))), key=lambda x: x[0]) if rng.random() < 0.4 else []
                    b = {"dur": round(dur, 3), "ext": ext, "end": rng.choice(["ok", "ok", "ok", "fail", "own"])}
                    if not close(base, b) or dur == base:
                        break
                if rng.random() < 0.3:
                    b["clean"] = round(rng.uniform(0.01, 1.5), 3)
                if rng.random() < 0.2:
                    b["deaf"] = rng.choice(["returns", "raises"])
                do.append(b)
            if o["fn"] == "tm_exp":
                # fails at most as often as it has behaviours
                do.append({"dur": 0.01, "ext": [], "end": "ok"})
            o["script"] = {"do": do, "dur": max(b["dur"] + b.get("clean", 0) for b in do) + 2 * plan["dep"]}
        ops = list(plan["ops"])
        for o in ops:
            if rng.random() < 0.15:
                t = o["t"] + max(0.0, o["delay"]) + rng.uniform(0, 1.5) * plan["base"].get(o["fn"], 1.0)
                plan["ops"].append({"op": "cancel", "c": rng.choice(ops)["c"], "t": round(t, 3), "id": "x" + o["id"], "key": o["key"]})
        plan["ops"].sort(key=lambda o: o["t"])
        return plan

    def max_runs(self, o: dict[str, Any]) -> int:
        return self.attempts[o["fn"]] or len(o["script"]["do"])

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        r = await super().do_op(w, c, docket, fns, handles, o)
        if o["op"] == "add" and c not in w.dockets:
            w.dockets[c] = docket
        return r

    async def main(self, world: World) -> None:
        world.dockets = {}
        world.got = {}
        await super().main(world)

    async def epilogue(self, w: World) -> None:
        """What get_result says of each, once everything is over (fault-free runs)."""
        if w.plan["faults"]:
            return

        async def ask(c: str) -> None:
            for o in w.ops.values():
                if o["op"] != "add" or o["c"] != c or o["status"] != "scheduled":
                    continue
                ex = await w.dockets[c].get_execution(o["key"])
                try:
                    w.got[o["id"]] = ("value", await ex.get_result(timeout=timedelta(seconds=5)))
                except Exception as e:  # noqa: BLE001
                    w.got[o["id"]] = ("error", e)

        todo = [w.run_on(c, ask(c), name=f"ask {c}") for c in w.dockets]
        for _ in range(200):
            if all(t.done() for t in todo):
                break
            await asyncio.sleep(0.5)

    def final_end(self, o: dict[str, Any], ends: list[dict[str, Any]]) -> bool:
        maxa = self.attempts[o["fn"]]
        for e in ends:
            if e["out"] == "ok":
                return True
            cut = e["out"] == "cut" and e["limit"] is not None and e["t"] >= e["limit"] - 1e-3
            if (e["out"] in ("fail", "own") or cut) and maxa is not None and e["att"] >= maxa:
                return True
        return False

    # ---------------------------------------------------------------- judge

    def expected(self, w: World, o: dict[str, Any]) -> list[str] | None:
        """The outcome of each attempt in turn."""
        maxa = self.attempts[o["fn"]]
        base = w.plan["base"].get(o["fn"])
        out = []
        n = 0
        while maxa is None or n < maxa:
            n += 1
            b = behaviour(o["script"], n)
            if base is not None and close(base, b):
                return None
            r = "cut" if base is not None and cut_at(base, b) is not None else b["end"]
            out.append(r)
            if r == "ok":
                break
        return out

    def judge(self, w: World) -> None:
        calm = not w.plan["faults"]
        lat = Latency(**w.plan["latency"]).max()
        starts, ends = self.starts(w), self.ends(w)
        base = w.plan["base"]
        pauses: dict[str, list[tuple[float, float]]] = {}
        for e in w.history:
            if e["ev"] == "pause":
                pauses.setdefault(e["node"], []).append((e["t"], e["t"] + e["secs"]))
        gone = [(e["node"], e["t"]) for e in w.history if e["ev"] in ("worker-died", "worker-exit", "sigterm")]
        cuts = {e["sid"]: dict(e, i=i) for i, e in enumerate(w.history) if e["ev"] == "cut"}
        dead: dict[str, list[float]] = {}
        for e in w.history:
            if e["ev"] == "crash":
                dead.setdefault(e["node"], []).append(e["t"])
        cancels: dict[str, list[dict[str, Any]]] = {}
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
            if o["op"] == "cancel" and o["status"] is not None:
                cancels.setdefault(o["key"], []).append(o)
        w.stats["cuts"] = 0
        for e in w.history:
            if e["ev"] == "extend" and abs(e["off"]) > 1e-3:
                w.violate("extension", f"{e['key']}: remaining() is off by {e['off']:.3f}s after an extension at t={e['t']:.3f}")
        for o in w.ops.values():
            if o["op"] != "add" or o["status"] not in ("scheduled", "maybe"):
                continue
            by_cancel = [c for c in cancels.get(o["key"], [])]
            for s in starts.get(o["id"], []):
                n, t0, node = s["att"], s["t"], s["node"]
                if not s["ok"]:
                    w.violate("wrong-call", f"{o['id']}: an attempt ran with another function, key or arguments")
                b = behaviour(o["script"], n)
                lim = base.get(o["fn"])
                if lim is not None and abs(s["left"] - lim) > 1e-3:
                    w.violate("not-fresh", f"{o['id']} ({o['fn']}) attempt {n} started at t={t0:.3f} with {s['left']:.3f}s left of its timeout of {lim}s")
                c = cuts.get(s["sid"])
                e = next((x for x in ends.get(o["id"], []) if x["sid"] == s["sid"]), None)
                slept = sum(z - a for a, z in pauses.get(node, []) if z >= t0)
                over = (e or c or {"t": w.now()})["t"] - t0
                died = any(t0 <= t for t in dead.get(node, []))
                if c is not None:
                    limit = c["limit"]
                    w.stats["cuts"] += limit is not None and c["t"] >= limit - 1e-3
                    asked = any(x["inv"] < c["i"] for x in by_cancel)
                    bye = any(g == node and abs(t - c["t"]) < 60 for g, t in gone)
                    if not asked and not bye and (limit is None or c["t"] < limit - 1e-3):
                        w.violate("cut-early", f"{o['id']} ({o['fn']}) attempt {n} started at t={t0:.3f} on {node} was interrupted at t={c['t']:.3f}" + (f", {limit - c['t']:.3f}s before its deadline" if limit else " though it has no timeout"))
                    if limit is not None and c["t"] > limit + 0.05 + slept and not (asked or bye):
                        w.violate("cut-late", f"{o['id']} ({o['fn']}) attempt {n} was interrupted at t={c['t']:.3f}, {c['t'] - limit:.3f}s after its deadline")
                elif lim is not None and not slept and not died:
                    d = cut_at(lim, b)
                    if d is not None and not close(lim, b) and over > d + 0.05:
                        w.violate("never-cut", f"{o['id']} ({o['fn']}) attempt {n} started at t={t0:.3f} went on for {over:.3f}s without being interrupted; its timeout allowed {d:.3f}s")
                if e is None and calm and c is None and w.now() > t0 + b["dur"] + 1:
                    w.violate("lost-body", f"{o['id']} attempt {n} never ended")
            if not calm or lat > 0.2 or o["status"] != "scheduled" or by_cancel:
                continue
            want = self.expected(w, o)
            if want is None:
                continue
            es = ends.get(o["id"], [])
            have = [e["out"] for e in es]
            if have != want:
                w.violate("attempts", f"{o['id']} ({o['fn']}): its attempts ended {have}, expected {want}")
                continue
            got = w.got.get(o["id"])
            if got is None:
                w.violate("no-result", f"{o['id']}: get_result never returned")
                continue
            kind, val = got
            last, n = want[-1], len(want)
            good = {
                "ok": lambda: kind == "value" and val == {"val": o["id"], "att": n},
                "fail": lambda: kind == "error" and isinstance(val, Boom) and val == Boom(o["id"], n),
                "own": lambda: kind == "error" and type(val).__name__ == "Own",
                "cut": lambda: kind == "error" and isinstance(val, (asyncio.TimeoutError, TimeoutError)) and not isinstance(val, Own),
            }[last]()
            if last == "cut" and kind == "error" and behaviour(o["script"], n).get("deaf") == "raises" and isinstance(val, Boom):
                good = True  # the error it died of while being interrupted
            if not good:
                w.violate("wrong-result", f"{o['id']} ({o['fn']}): its attempts ended {want} but get_result gave {kind} {val!r}")
            st = [d["state"] for _, _, d in w.states(o["key"])]
            if st and st[-1] != ("completed" if last == "ok" else "failed"):
                w.violate("wrong-state", f"{o['id']} ({o['fn']}): its attempts ended {want} but its state is {st[-1]}")
        for o in self.unfinished(w):
            w.violate("gave-up", f"{o['id']} ({o['fn']}) never reached its final outcome; attempts ended: {[(x['att'], x['out']) for x in ends.get(o['id'], [])][-3:]}")

    def nontrivial(self, w: World) -> bool:
        return w.stats["cuts"] > 0


CHECK = C19()
