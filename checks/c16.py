"""Progress is exact and never leaks between runs."""

from __future__ import annotations

import asyncio
import json
from datetime import timedelta
from typing import Any

from sim.net import Latency
from sim.world import World

from .flow import Boom, FlowCheck

TERMINAL = ("completed", "failed", "cancelled")


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import CurrentExecution, Progress, Retry
    from docket.execution import Execution

    async def body(val: str, script: dict[str, Any], ex: Any, p: Any) -> Any:
        w.sid = getattr(w, "sid", 0) + 1
        sid = w.sid
        att = ex.attempt
        op = w.ops.get(val)
        rec = {"node": node, "key": val, "att": att, "sid": sid}
        w.event("start", **rec, tkey=ex.key, view=[p.current, p.total, p.message], ok=bool(op and op["script"] == script and op["key"] == ex.key and op["fn"] == ex.function_name))
        cur, total, msg = 0, 100, None
        try:
            for step, arg in script["steps"]:
                if step == "sleep":
                    await asyncio.sleep(arg)
                    continue
                lo = cur
                if step == "total":
                    total = arg
                elif step == "msg":
                    msg = arg
                else:
                    cur += sum(arg)
                w.event("step", **rec, lo=lo, cur=cur, total=total, msg=msg, n=len(arg) if step == "inc" else 1)
                if step == "total":
                    await p.set_total(arg)
                elif step == "msg":
                    await p.set_message(arg)
                elif len(arg) == 1:
                    await p.increment(arg[0])
                else:
                    await asyncio.gather(*(p.increment(x) for x in arg))
                w.event("stepped", **rec, cur=cur, total=total, msg=msg, view=[p.current, p.total, p.message])
            if script.get("dur"):
                await asyncio.sleep(script["dur"])
            h = w.redis.lookup(b"d:progress:" + ex.key.encode())
            w.event("left", **rec, cur=cur, total=total, msg=msg, hash=None if h is None else {k.decode(): v.decode() for k, v in h.items() if k != b"updated_at"})
        except asyncio.CancelledError:
            w.event("end", **rec, out="cancelled")
            raise
        if att <= script["fails"]:
            w.event("end", **rec, out="fail")
            raise Boom(val, att)
        w.event("end", **rec, out="ok")
        return {"val": val, "att": att}

    async def job(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), p: Progress = Progress()) -> Any:
        return await body(val, script, ex, p)

    async def rjob(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), p: Progress = Progress(), r: Retry = Retry(attempts=3, delay=timedelta(seconds=0.3))) -> Any:
        return await body(val, script, ex, p)

    async def own(val: str, script: dict[str, Any], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex, ex.progress)

    return [job, rjob, own]


class C16(FlowCheck):
    id = "C16"
    title = "Progress is exact and never leaks between runs"
    rule = (
        "Seeded tasks that set totals and messages and increment, one after the other and concurrently, with retries, re-additions, replacements and cancellations of their keys, on 1-3 workers; clients read the progress and subscribe to it meanwhile; a third of the runs with crashes, a third also with connection faults and stalls. "
        "Judged: every attempt starts at nothing, its own view and the stored value after each step are exactly the sum of its steps; each value read is one that the current run had between call and return; a subscriber gets every event published from when it was told it is connected, in order, and always learns of the end; nothing is left afterwards. Non-trivial: a read or an event showed a value above zero."
    )
    weights = {"add": 1.0, "replace": 0.15, "cancel": 0.12, "read": 1.2, "sub": 0.7}
    fns = {"job": 1.0, "rjob": 0.8, "own": 0.5}
    attempts = {"job": 1, "rjob": 3, "own": 1}
    n_ops = (3, 22)
    window = (0.5, 7.0)
    ttl_choices = [0, 5, 900, 900]
    # (a flush of the scripts in the middle of a step's own retry fails the step, rightly)
    fault_kinds = ["crash", "crash_before", "crash_after", "lose_request", "lose_reply", "pause", "reset", "partition", "server_restart", "slow", "stall_before", "delay_request"]
    make_tasks = staticmethod(make_tasks)
    runs_quick = 350
    runs_thorough = 8000

    def gen_op(self, rng: Any, i: int, t: float, clients: list[str], keys: list[str], fns: list[str]) -> dict[str, Any]:
        o = super().gen_op(rng, i, t, clients, keys, fns)
        o["key"] = rng.choice(keys)
        if o["op"] in ("add", "replace"):
            steps: list[Any] = []
            for _ in range(rng.randint(0, 6)):
                k = rng.choice(["total", "msg", "inc", "inc", "inc", "sleep", "sleep"])
                steps.append([k, {"total": lambda: rng.randint(1, 50), "msg": lambda: rng.choice([None, "", "half way", "påß \u2713"]), "sleep": lambda: round(rng.uniform(0.01, 0.6), 3),
                                  "inc": lambda: [rng.randint(1, 5) for _ in range(rng.choice([1, 1, 1, 3]))]}[k]()])
            o["script"] = {"dur": rng.choice([0, 0, round(rng.uniform(0.05, 0.8), 3)]), "fails": o["script"]["fails"], "steps": steps}
            o["script"]["work"] = o["script"]["dur"] + sum(a for k, a in steps if k == "sleep")
        if o["op"] == "sub":
            o["how"] = rng.choice(["exec", "exec", "progress"])
        return o

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        mode = rng.choice(["calm", "crash", "all"])
        if mode == "calm":
            plan["faults"] = []
        elif mode == "crash":
            plan["faults"] = [f for f in plan["faults"] if f["kind"].startswith("crash") and f.get("node") in plan["workers"]]
        plan["exact"] = all(f["kind"].startswith("crash") and f.get("node") in plan["workers"] for f in plan["faults"])
        return plan

    def unfinished(self, w: World) -> list[dict[str, Any]]:
        if w.plan["exact"]:
            return super().unfinished(w)
        # a step may have failed for want of Redis, and the task with it
        out = []
        for o in super().unfinished(w):
            st = [json.loads(p[3])["state"] for p in w.pub if p[2] == "d:state:" + o["key"]]
            if not st or st[-1] not in TERMINAL:
                out.append(o)
        return out

    async def main(self, world: World) -> None:
        world.subs = []
        await super().main(world)

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        if o["op"] == "read":
            ex = await docket.get_execution(o["key"])
            if ex is None:
                return "nothing"
            w.event("reading", key=o["key"], id=o["id"])
            o["r0"] = len(w.history)
            await ex.progress.sync()
            o["r1"] = len(w.history)
            p = ex.progress
            o["read"] = [p.current, p.total, p.message]
            w.event("read", key=o["key"], id=o["id"], read=o["read"])
            return "ok"
        if o["op"] == "sub":
            if o["how"] == "exec":
                ex = await docket.get_execution(o["key"])
                if ex is None:
                    return "nothing"
            else:
                from docket.execution import ExecutionProgress

                ex = ExecutionProgress(docket, o["key"])
            s: dict[str, Any] = {"o": o, "c": c, "got": [], "ready": None, "error": None}
            w.subs.append(s)
            w.run_on(c, self.listen(w, s, ex), name=f"sub {o['id']}")
            return "ok"
        return await super().do_op(w, c, docket, fns, handles, o)

    async def listen(self, w: World, s: dict[str, Any], ex: Any) -> None:
        ready = asyncio.Event()

        async def told() -> None:
            await ready.wait()
            s["ready"] = len(w.pub)
            s["ready_t"] = w.now()

        t = asyncio.create_task(told())
        s["t0"] = w.now()
        s["h0"] = len(w.history)
        try:
            async for e in ex.subscribe(ready=ready):
                s["got"].append((w.now(), {k: (v.value if hasattr(v, "value") else v) for k, v in e.items()}))
        except Exception as e:  # noqa: BLE001
            s["error"] = e
        finally:
            t.cancel()

    async def epilogue(self, w: World) -> None:
        w.leftover = sorted(k.decode() for k in list(w.redis.data) if k.startswith(b"d:progress:") and w.redis.lookup(k) is not None)
        w.end_pub = len(w.pub)
        w.end_t = w.now()
        await asyncio.sleep(3.0)

    # ---------------------------------------------------------------- judge

    def judge(self, w: World) -> None:
        plan = w.plan
        calm = not plan["faults"]
        lat = Latency(**plan["latency"]).max()
        exact = plan["exact"] and lat < 0.2
        H = w.history
        shown = 0
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
        claims: dict[str, list[tuple[int, str]]] = {}
        for i, (t, h, ch, payload) in enumerate(w.pub):
            if ch.startswith("d:state:"):
                claims.setdefault(ch[8:], []).append((h, json.loads(payload)["state"]))
        starts = {e["sid"]: dict(e, i=i) for i, e in enumerate(H) if e["ev"] == "start"}
        # overlapping runs of one key share its progress; that's only for the exact model to know
        over = self.overlapping(w) | self.superseded(w, claims)
        for i, e in enumerate(H):
            if e["ev"] == "start":
                if not e["ok"]:
                    w.violate("wrong-call", f"{e['key']}: ran with another function, key or arguments")
                if e["view"] != [0, 100, None]:
                    w.violate("stale-start", f"attempt {e['att']} of {e['key']} started with progress {e['view']}")
            if not exact:
                continue
            if e["ev"] == "stepped" and e["sid"] not in over:
                want = [e["cur"], e["total"], e["msg"]]
                have = list(e["view"])
                if have != want:
                    w.violate("own-view", f"attempt {e['att']} of {e['key']} sees its progress as {e['view']} at t={e['t']:.3f}; it made it {want}")
            if e["ev"] == "left" and e["sid"] not in over:
                want = {"current": str(e["cur"]), "total": str(e["total"])} | ({} if e["msg"] is None else {"message": e["msg"]})
                h = {k: v for k, v in (e["hash"] or {}).items() if k in ("current", "total", "message")}
                if h != want:
                    w.violate("stored-value", f"attempt {e['att']} of {e['key']} ended at t={e['t']:.3f} with stored progress {h}; its steps made it {want}")
        if exact:
            shown += self.judge_reads(w, claims, starts, over)
        else:
            shown += sum(1 for o in w.ops.values() if o.get("read") and (o["read"][0] or 0) > 0)
        # subscribers
        conn = [f for f in plan["faults"] if not f["kind"].startswith("crash")]
        for s in w.subs:
            o = s["o"]
            hit = w.node(s["c"]).dead
            if hit:
                continue
            if s["error"] is not None:
                if not w.excusable(s["error"], s["t0"]):
                    w.violate("subscriber-error", f"subscribe {o['id']} raised {type(s['error']).__name__}: {s['error']}")
                continue
            chans = {"d:progress:" + o["key"]} | ({"d:state:" + o["key"]} if o["how"] == "exec" else set())
            live = s["got"][2:] if o["how"] == "exec" else s["got"]
            shown += any((e.get("current") or 0) > 0 for _, e in s["got"] if e["type"] == "progress")
            if o["how"] == "exec" and [e["type"] for _, e in s["got"][:2]] != ["state", "progress"][: len(s["got"])]:
                w.violate("no-snapshot", f"subscribe {o['id']} didn't begin with the state and progress: {s['got'][:2]}")
            for _, e in s["got"]:
                if e["key"] != o["key"]:
                    w.violate("foreign-event", f"subscribe {o['id']} of {o['key']} got an event of {e['key']}")
            if conn:
                since = max(w.last_fault, s["t0"]) + 5 + 20 * lat
                start = next((i for i, p in enumerate(w.pub) if p[0] > since), len(w.pub))
            elif s["ready"] is None:
                w.violate("never-ready", f"subscribe {o['id']} was never told that it is connected")
                continue
            else:
                start = s["ready"]
            want = [json.loads(p[3]) for p in w.pub[start : w.end_pub] if p[2] in chans]
            got = [e for _, e in live]
            tail = got
            # in order and complete from there on
            if not self.suffix(want, tail):
                w.violate("missed-event", f"subscribe {o['id']} ({o['how']}) of {o['key']}, connected at t={s.get('ready_t', 0):.3f}, missed events: got {self.short(tail)} of {self.short(want)}")
            if o["how"] == "exec" and not conn and s["got"]:
                # whatever it says last about the state is the state
                last = [x for h, x in claims.get(o["key"], [])]
                said = [e["state"] for _, e in s["got"] if e["type"] == "state"]
                if last and last[-1] in TERMINAL and said[-1] not in TERMINAL and not self.gone_record(w, o, s):
                    w.violate("never-told", f"subscribe {o['id']} of {o['key']} (began at t={s['t0']:.3f}) last said {said[-1]}, though it became {last[-1]}")
        # nothing is left
        for k in w.leftover:
            key = k[len("d:progress:"):]
            st = [x for _, x in claims.get(key, [])]
            if st and st[-1] in TERMINAL and plan["exact"]:
                w.violate("left-behind", f"{k} is left though the last run of {key} is {st[-1]}")
        for o in self.unfinished(w):
            w.violate("gave-up", f"{o['id']} ({o['fn']}) never reached its final outcome")
        w.stats["shown"] = shown

    def gone_record(self, w: World, o: dict[str, Any], s: dict[str, Any]) -> bool:
        """With a ttl of 0 the record is gone with the run: reading it says 'scheduled'."""
        return w.plan["ttl"] == 0 or w.plan["ttl"] == 5

    @staticmethod
    def short(es: list[dict[str, Any]]) -> list[Any]:
        return [e["state"] if e["type"] == "state" else (e["current"], e["total"], e["message"]) for e in es][-8:]

    @staticmethod
    def suffix(want: list[dict[str, Any]], got: list[dict[str, Any]]) -> bool:
        return not want or got[-len(want):] == want

    def overlapping(self, w: World) -> set[int]:
        """Attempts during which another run of the same key was claimed."""
        out = set()
        live: dict[str, set[int]] = {}
        key: dict[int, str] = {}
        dead: dict[int, str] = {}
        for e in w.history:
            if e["ev"] == "start":
                s = live.setdefault(e["tkey"], set())
                s -= {x for x in s if x in dead}
                s.add(e["sid"])
                key[e["sid"]] = e["tkey"]
                w.sid_node = getattr(w, "sid_node", {})
                w.sid_node[e["sid"]] = e["node"]
                if len(s) > 1:
                    out |= s
            elif e["ev"] == "end":
                live[key[e["sid"]]].discard(e["sid"])
            elif e["ev"] in ("crash", "worker-died"):
                for s in live.values():
                    for x in [x for x in s if w.sid_node[x] == e["node"]]:
                        s.discard(x)
        return out

    def superseded(self, w: World, claims: dict[str, list[tuple[int, str]]]) -> set[int]:
        """Attempts during which their key was scheduled anew."""
        out = set()
        end = {e["sid"]: i for i, e in enumerate(w.history) if e["ev"] == "end"}
        for i, e in enumerate(w.history):
            if e["ev"] == "start" and any(st in ("scheduled", "queued") and i < h <= end.get(e["sid"], 10**9) for h, st in claims.get(e["tkey"], [])):
                out.add(e["sid"])
        return out

    def judge_reads(self, w: World, claims: dict[str, list[tuple[int, str]]], starts: dict[int, dict[str, Any]], over: set[int]) -> int:
        """Each value read is one that the current run had between call and return."""
        H = w.history
        shown = 0
        # per key: what may be stored, and from and until which history index
        spans: dict[str, list[tuple[int, float, Any]]] = {}
        messy = {starts[s]['tkey'] for s in over}
        for key, cs in claims.items():
            if key in messy:
                continue
            spans[key] = [(0, cs[0][0] if cs else 10**9, None)]
            steps = [(i, e) for i, e in enumerate(H) if e["ev"] in ("step", "stepped") and starts[e["sid"]]["tkey"] == key]
            for n, (h, st) in enumerate(cs):
                until = cs[n + 1][0] if n + 1 < len(cs) else 10**9
                if st != "running":
                    if st in TERMINAL or n == 0 or cs[n - 1][1] in TERMINAL:
                        spans[key].append((h, until, None))
                    else:
                        # scheduled again meanwhile: what was stored stays
                        for a, b, v in list(spans[key]):
                            if b >= h:
                                spans[key].append((h, until, v))
                    continue
                at: Any = [0, 0, 100, None]
                a: int = h
                for i, e in steps:
                    if not h <= i <= until:
                        continue
                    if e["ev"] == "step":
                        spans[key].append((a, 10**9, at))
                        k = len(spans[key]) - 1
                        if e["n"] > 1:
                            spans[key].append((i, 10**9, [e["lo"], e["cur"], e["total"], e["msg"]]))
                        at, a = [e["cur"], e["cur"], e["total"], e["msg"]], i
                        last = k
                    else:
                        # the previous value is gone from here on
                        spans[key][last] = (spans[key][last][0], i, spans[key][last][2])
                        if len(spans[key]) > last + 1:
                            spans[key][last + 1] = (spans[key][last + 1][0], i, spans[key][last + 1][2])
                spans[key].append((a, 10**9, at))
                spans[key] = [(x, min(y, until) if x >= h else y, v) for x, y, v in spans[key]]
        for o in w.ops.values():
            if not o.get("read") or o["key"] in messy:
                continue
            cur, total, msg = o["read"]
            shown += bool(cur)
            if cur is None:
                ok = (total, msg) == (100, None) and (not claims.get(o["key"]) or any(v is None and a <= o["r1"] and b >= o["r0"] for a, b, v in spans[o["key"]]))
            else:
                ok = any(v is not None and a <= o["r1"] and b >= o["r0"] and v[0] <= cur <= v[1] and (total, msg) == (v[2], v[3]) for a, b, v in spans.get(o["key"], []))
            if not ok:
                w.violate("wrong-read", f"read {o['id']} of {o['key']} at t={o['tret']:.3f} said {o['read']}; possible were {[v for a, b, v in spans.get(o['key'], []) if a <= o['r1'] and b >= o['r0']]}")
        return shown

    def nontrivial(self, w: World) -> bool:
        return w.stats["shown"] > 0


CHECK = C16()
