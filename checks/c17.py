"""Workers survive faults, drain on shutdown and respect concurrency."""

import asyncio
from datetime import timedelta
from typing import Annotated, Any

from sim.loop import NODE
from sim.net import Latency
from sim.world import WorkerSpec, World, sleep_until

from .flow import Boom, FlowCheck, body_factory, make_flow_tasks

BAD = ["ConnectionError", "RedisConnectionError", "RedisTimeout", "CancelledError", "Group", "Timeout", "Unpicklable", "UnprintableError",
       "UnpicklableResult", "StopAsyncIteration", "RecursionError", "arguments", "undecodable", "unprintable-argument", "KeyError"]


class Unprintable(Exception):
    def __str__(self) -> str:
        raise ValueError("this exception can't be printed")

    __repr__ = __str__


class BadRepr:
    def __repr__(self) -> str:
        raise ValueError("this argument can't be printed")


def _explode(on: str) -> str:
    n = NODE.get()
    if n is not None and n.name.startswith("w"):
        raise ModuleNotFoundError("No module named 'only_on_the_client'")
    return on


class Undecodable:
    """Something a worker can't unpickle (e.g. of a module which it doesn't have)."""

    def __reduce__(self) -> Any:
        return _explode, ("x",)


def misbehave(how: str) -> Any:
    import redis.exceptions as rx

    if how == "ConnectionError":
        raise ConnectionError("from the task")
    if how == "RedisConnectionError":
        raise rx.ConnectionError("from the task")
    if how == "RedisTimeout":
        raise rx.TimeoutError("from the task")
    if how == "CancelledError":
        raise asyncio.CancelledError()
    if how == "Group":
        raise ExceptionGroup("several", [ValueError("a"), ConnectionError("b")])
    if how == "Timeout":
        raise TimeoutError("from the task")
    if how == "Unpicklable":
        e = ValueError("has a generator")
        e.gen = (x for x in ())  # type: ignore[attr-defined]
        raise e
    if how == "UnprintableError":
        raise Unprintable()
    if how == "UnpicklableResult":
        return (x for x in ())
    if how == "StopAsyncIteration":
        raise StopAsyncIteration()
    if how == "RecursionError":
        return misbehave(how)
    raise KeyError(how)


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import CurrentDocket, CurrentExecution, Docket, Logged, Perpetual
    from docket.execution import Execution

    body = body_factory(w, node)
    job, rjob, r0job, _ = make_flow_tasks(w, node)

    async def bad(val: str, script: dict[str, Any], ex: Execution = CurrentExecution()) -> Any:
        await body(val, dict(script), ex)
        return misbehave(script["how"])

    async def logged(val: str, script: dict[str, Any], arg: Annotated[Any, Logged()], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def spawner(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), docket: Docket = CurrentDocket()) -> Any:
        r = await body(val, script, ex)
        child = f"{val}.c"
        if child not in w.ops:
            w.ops[child] = {"op": "add", "id": child, "c": node, "key": f"{ex.key}.c", "fn": "job", "t": w.now(), "inv": len(w.history), "tinv": w.now(),
                            "status": "pending", "delay": script["after"], "script": {"dur": script["dur"], "fails": 0}}
        c = w.ops[child]
        c["when"] = w.now() + c["delay"]
        e = await docket.add(job, when=w.dt(c["when"]), key=c["key"])(child, c["script"])
        c.update(status=e.disposition.value if e.disposition.value == "scheduled" or c["status"] == "pending" else c["status"], ret=len(w.history), tret=w.now())
        return r

    async def loop(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), p: Perpetual = Perpetual(every=timedelta(seconds=0.4))) -> Any:
        return await body(val, script, ex)

    return [job, rjob, r0job, bad, logged, spawner, loop]


class C17(FlowCheck):
    id = "C17"
    title = "Workers survive faults, drain on shutdown and respect concurrency"
    rule = (
        "Workers run forever, until finished, or at most so often, over tasks that succeed, fail in every unpleasant way (undecodable arguments, unprintable and unpicklable exceptions, connection errors of their own, cancellation), start others, or perpetuate themselves, through crashes, connection loss, Redis restarts, stalls and shutdown requests. "
        "Judged: run_forever never returns unasked; once faults stop, as many probe tasks as there are slots all run at the same time within a bound (every worker works); a worker dies only with a connection error, never because of a task; after a shutdown request nothing is started, what runs finishes and isn't run again, and the worker exits within a bound; "
        "never more bodies at once than the concurrency; run_until_finished returns only when everything is done, and then at once; run_at_most makes exactly the given number of runs. Non-trivial: a fault hit, somebody was asked to stop, or a bounded run returned."
    )
    attempts = {"job": 1, "rjob": 3, "r0job": 4, "bad": 1, "logged": 1, "spawner": 1, "loop": 1}
    fns = {"job": 0.4, "rjob": 0.15, "r0job": 0.1, "bad": 0.3, "logged": 0.05, "spawner": 0.15}
    runs_quick = 300
    runs_thorough = 8000
    make_tasks = staticmethod(make_tasks)
    fault_prob = 0.85
    max_pause = 2.0
    ttl_choices = [0, 5, 900]

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        mode = rng.choice(["forever", "forever", "forever", "finish", "finish", "at-most"])
        plan["mode"] = mode
        span = max(o["t"] for o in plan["ops"])
        ws = list(plan["workers"])
        for o in plan["ops"]:
            if o["fn"] == "bad":
                o["script"] = {"dur": o["script"]["dur"], "fails": 0, "how": rng.choice(BAD)}
            elif o["fn"] in ("spawner", "logged"):
                o["script"] = {"dur": o["script"]["dur"], "fails": 0, "after": rng.choice([0, 0, 0.3, 2.0])}
        calm = rng.random() < 0.4
        if calm:
            plan["faults"] = []
        if mode == "forever":
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                plan["faults"].append({"t": round(rng.uniform(0.5, span + 2), 3), "kind": "sigterm", "node": rng.choice(ws), "for": round(rng.uniform(0.5, 6), 2)})
        else:
            if mode == "at-most":
                ws = ws[:1]
                plan["workers"] = {ws[0]: plan["workers"][ws[0]]}
                plan["at_most"] = {}
                for j in range(rng.randint(1, 3)):
                    key = f"loop{j}"
                    plan["at_most"][key] = rng.randint(1, 5)
                    plan["ops"].append({"op": "add", "c": plan["ops"][0]["c"], "t": 0.2, "id": f"l{j}", "key": key, "fn": "loop", "delay": 0,
                                        "script": {"dur": rng.choice([0, 0.05, 0.6]), "fails": rng.choice([0, 0, 2])}})
                plan["ops"].sort(key=lambda o: o["t"])
                plan["faults"] = []
            for n in ws[: rng.randint(1, len(ws))]:
                plan["workers"][n]["start"] = round(rng.choice([0.0, 1.0, span + 0.5]), 2)
                plan["workers"][n]["finish"] = True
            plan["faults"] = [f for f in plan["faults"] if f.get("node") in plan["workers"] or "node" not in f or f["node"].startswith("c")]
        if mode == "forever" and len(ws) > 1 and rng.random() < 0.3:
            self.pile_up(rng, plan, ws)
        plan["faults"].sort(key=lambda f: f["t"])
        return plan

    def pile_up(self, rng: Any, plan: dict[str, Any], ws: list[str]) -> None:
        """A worker dies holding many messages, which become stale while the others are rather busy."""
        dead = rng.choice(ws)
        red = plan["workers"][dead]["redelivery"]
        t = rng.uniform(0.5, 3)
        for n in ws:
            plan["workers"][n]["concurrency"] = rng.choice([3, 4, 6])
        plan["workers"][dead]["concurrency"] = rng.choice([4, 6, 10])
        plan["faults"] = [{"t": round(t + rng.uniform(0.4, 1.0), 3), "kind": "crash", "node": dead, "for": round(red * 3 + 4, 2)}]
        slots = sum(plan["workers"][n]["concurrency"] for n in ws)
        times = [t] * rng.randint(slots // 2, slots + 2) + [t + rng.uniform(1, red + 2) for _ in range(rng.randint(2, 8))]
        for j, at in enumerate(sorted(times)):
            plan["ops"].append({"op": "add", "c": "c0", "t": round(at, 3), "id": f"p{j}", "key": f"p{j}", "fn": "job", "delay": 0,
                                "script": {"dur": round(rng.uniform(0.6, 1.0) * (red + 1.5), 2), "fails": 0}})
        plan["ops"].sort(key=lambda o: o["t"])

    async def main(self, world: World) -> None:
        w = world
        plan = w.plan
        w.finished = {}
        w.probes = []
        w.ops = {o["id"]: dict(o, status=None) for o in plan["ops"]}
        for name, cfg in plan["workers"].items():
            run = self.bounded(w, name) if cfg.get("finish") else None
            w.at(cfg.get("start", 0.0), w.add_worker, WorkerSpec(name, self.make_tasks, self.docket_kwargs(plan), self.worker_kwargs(cfg), run=run))
        w.schedule_faults(plan["faults"])
        by_client: dict[str, list[dict[str, Any]]] = {}
        for o in plan["ops"]:
            by_client.setdefault(o["c"], []).append(w.ops[o["id"]])
        w.client_done = {c: False for c in by_client}
        for c, ops in by_client.items():
            w.run_on(c, self.client(w, c, ops), name=f"client {c}")
        await self.until_settled(w)

    def bounded(self, w: World, name: str) -> Any:
        async def run(worker: Any) -> None:
            w.event("bounded-run", node=name)
            if w.plan["mode"] == "at-most":
                await worker.run_at_most(dict(w.plan["at_most"]))
            else:
                await worker.run_until_finished()
            w.finished.setdefault(name, []).append((len(w.history), w.now()))
            w.event("bounded-done", node=name)

        return run

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        how = o["script"].get("how")
        when = None if o["delay"] == 0 else w.dt(w.now() + o["delay"])
        o["when"] = w.now() + o["delay"]
        add = docket.add(fns[o["fn"]], when=when, key=o["key"])
        if how == "arguments":
            ex = await docket.add("bad", when=when, key=o["key"])(o["id"], o["script"], 1, 2, 3, nonsense=4)
        elif how == "undecodable":
            ex = await add(o["id"], dict(o["script"], x=Undecodable()))
        elif how == "unprintable-argument":
            ex = await docket.add(fns["logged"], when=when, key=o["key"])(o["id"], o["script"], BadRepr())
        elif o["fn"] == "logged":
            ex = await add(o["id"], o["script"], {"a": 1})
        else:
            ex = await add(o["id"], o["script"])
        o["state"] = ex.state.value
        return ex.disposition.value

    def bodiless(self, o: dict[str, Any]) -> bool:
        return o.get("script", {}).get("how") in ("arguments", "undecodable")

    def runners(self, w: World) -> list[str]:
        """Workers that will go on working."""
        return [n for n, c in w.plan["workers"].items() if not c.get("finish")]

    def unfinished(self, w: World) -> list[dict[str, Any]]:
        return [o for o in super().unfinished(w) if not self.bodiless(o) and o["fn"] != "loop"]

    def pending(self, w: World) -> Any:
        if not self.runners(w):
            return [n for n, c in w.plan["workers"].items() if n not in w.finished and not (n in w.procs and w.procs[n].node.dead)]
        return self.unfinished(w)

    async def epilogue(self, w: World) -> None:
        """Once faults are over every worker works again, in all of its slots."""
        plan = w.plan
        ups = [p for n, p in w.procs.items() if not p.node.dead and n in self.runners(w)]
        if not ups:
            return
        red = max(c["redelivery"] for c in plan["workers"].values())
        # redis-py may wait for a reply or retry; workers wait before reconnecting; the supervisor before restarting
        await sleep_until(w, w.last_fault + 12 + red)
        slots = sum(plan["workers"][p.spec.name]["concurrency"] for p in ups)
        got: set[str] = set()
        w.probe_from = len(w.history)

        async def probe() -> None:
            docket = await w.open_docket("prober", **self.docket_kwargs(plan))
            fns = {f.__name__: f for f in self.make_tasks(w, "prober")}
            docket.register(fns["job"])
            for i in range(slots):
                id_ = f"probe{i}"
                w.ops[id_] = {"op": "add", "id": id_, "key": id_, "fn": "job", "c": "prober", "script": {"dur": 8.0, "fails": 0}, "inv": len(w.history), "ret": len(w.history), "status": "scheduled", "tinv": w.now(), "tret": w.now()}
                await docket.add(fns["job"], key=id_)(id_, w.ops[id_]["script"])
            got.add("ok")

        w.run_on("prober", probe(), name="prober")
        await asyncio.sleep(7.0)
        lat = Latency(**plan["latency"]).max()
        w.probe = {"slots": slots, "added": bool(got), "calm": lat < 0.2, "ups": [p.spec.name for p in ups]}
        await asyncio.sleep(4.0)

    def judge(self, w: World) -> None:
        plan = w.plan
        lat = Latency(**plan["latency"]).max()
        hard = [f for f in plan["faults"] if f["kind"] != "sigterm"]
        calm = not hard and lat < 0.2
        conc = {n: c["concurrency"] for n, c in plan["workers"].items()}
        running: dict[str, dict[int, dict[str, Any]]] = {n: {} for n in conc}
        term: dict[str, tuple[int, float, dict[int, Any]] | None] = {n: None for n in conc}
        asked = bounded = 0
        probes: dict[str, int] = {}
        for i, e in enumerate(w.history):
            n = e.get("node")
            if e["ev"] == "start" and n in running:
                running[n][e["sid"]] = e
                if len(running[n]) > conc[n]:
                    w.violate("over-concurrency", f"{n} ran {len(running[n])} tasks at once at t={e['t']:.3f}; its concurrency is {conc[n]}")
                t = term[n]
                # what had been delivered to it before the request may still start
                if t is not None and e["t"] > t[1] + 0.3 + 12 * lat and not any(f["t"] < e["t"] + 1 for f in hard):
                    w.violate("started-after-stop", f"{n} was asked to stop at t={t[1]:.3f} and started {e['key']} at t={e['t']:.3f}")
                if e["key"].startswith("probe") and i >= w.probe_from:
                    probes[n] = probes.get(n, 0) + 1
            elif e["ev"] == "end" and n in running:
                running[n].pop(e["sid"], None)
                t = term[n]
                if e["out"] == "cancelled":
                    w.violate("interrupted", f"{e['key']} on {n} was interrupted at t={e['t']:.3f}{' by the shutdown' if t else ''}; nobody cancelled it")
            elif e["ev"] == "crash" and n in running:
                running[n].clear()
                term[n] = None
            elif e["ev"] == "sigterm":
                term[n] = (i, e["t"], dict(running[n]))
                asked += 1
            elif e["ev"] in ("worker-exit", "worker-died") and n in running:
                t = term[n]
                if running[n]:
                    w.violate("not-drained", f"{n} stopped at t={e['t']:.3f} while running {[x['key'] for x in running[n].values()]}")
                if e["ev"] == "worker-exit" and t is None and not plan["workers"][n].get("finish"):
                    w.violate("stopped-silently", f"{n} stopped at t={e['t']:.3f} without being asked to")
                if e["ev"] == "worker-died" and (calm or not e.get("conn")):
                    flushed = any(abs(f["t"] - e["t"]) < 10 and f["kind"] in ("script_flush", "server_restart") for f in hard)
                    if not (hard and "NoScript" in e["error"] and flushed):
                        w.violate("worker-died", f"{n} died at t={e['t']:.3f} of {e['error']}")
                if t is not None:
                    last = max([x["t"] for x in w.history[t[0]:i] if x["ev"] == "end" and x.get("node") == n] + [t[1]])
                    if calm and e["t"] > last + 3.0 + 12 * lat:
                        w.violate("slow-exit", f"{n} was asked to stop at t={t[1]:.3f}, finished its last task at t={last:.3f} and exited only at t={e['t']:.3f}")
                    term[n] = None
        end = w.now()
        for n, t in term.items():
            if t is not None and calm and not running[n] and end > t[1] + 10 and not w.procs[n].node.dead:
                w.violate("never-exits", f"{n} was asked to stop at t={t[1]:.3f} and hasn't by t={end:.3f}")
        if calm:
            # finished and acknowledged: nothing runs a second time
            seen: dict[tuple[str, int], int] = {}
            for e in w.history:
                if e["ev"] == "start" and w.ops[e["key"]]["fn"] != "loop":
                    k = (e["key"], e["att"])
                    seen[k] = seen.get(k, 0) + 1
                    if seen[k] == 2:
                        w.violate("ran-twice", f"attempt {e['att']} of {e['key']} ran again on {e['node']} at t={e['t']:.3f}")
        # every worker works
        pr = getattr(w, "probe", None)
        if pr is not None and pr["calm"]:
            for n in pr["ups"]:
                if not w.procs[n].up and not w.procs[n].stopping:
                    w.violate("down", f"{n} isn't up at the end")
            if not pr["added"]:
                w.violate("probe-failed", "a client couldn't add tasks long after the last fault")
            elif sum(probes.values()) < pr["slots"] and not any(o["status"] == "scheduled" and o["fn"] == "loop" for o in w.ops.values()):
                busy = {n: len(r) for n, r in running.items()}
                w.violate("not-working", f"{pr['slots']} probe tasks for as many slots of {pr['ups']} after all faults had stopped: only {probes} started within 7s (running at the end: {busy})")
        # bounded runs
        ends = self.ends(w)
        for n, fin in w.finished.items():
            for i, t in fin:
                bounded += 1
                for o in w.ops.values():
                    if o["status"] != "scheduled" or o.get("ret") is None or o["ret"] >= i or o["tret"] > t - 0.5 - 8 * lat - plan["workers"][n]["check"] or self.bodiless(o) or o["fn"] == "loop":
                        continue
                    done = [e for e in ends.get(o["id"], []) if e["seq"] < i]
                    if not self.final_end(o, done):
                        w.violate("returned-early", f"{n}'s bounded run returned at t={t:.3f} although {o['id']} ({o['fn']}, accepted at t={o['tret']:.3f}) wasn't done")
                if calm:
                    last = max([e["t"] for e in w.history[:i] if e["ev"] in ("end", "bounded-run", "worker-up")] + [o["tret"] for o in w.ops.values() if o.get("tret")and o["tret"] < t]
                               + [o["when"] + 1 for o in w.ops.values() if "when" in o and self.bodiless(o) and o["when"] < t])
                    if t > last + 4.0 + 20 * lat and plan["mode"] == "finish":
                        w.violate("returned-late", f"{n}'s bounded run returned at t={t:.3f}; the last task ended at t={last:.3f}")
        for n, c in plan["workers"].items():
            if c.get("finish") and n not in w.finished and calm and not w.procs[n].node.dead:
                w.violate("never-returned", f"{n}'s bounded run hasn't returned by t={end:.3f}")
        if plan["mode"] == "at-most" and w.finished:
            for key, limit in plan["at_most"].items():
                op = next(o for o in w.ops.values() if o["key"] == key)
                runs = len([e for e in w.history if e["ev"] == "start" and e.get("tkey") == key])
                i = next(iter(w.finished.values()))[0][0]
                if runs > limit or (runs < limit and op["status"] == "scheduled" and op["ret"] < i - 1 and op["tret"] < 1.0 and plan["workers"][next(iter(w.finished))].get("start", 0) > 0.9):
                    w.violate("wrong-count", f"run_at_most({plan['at_most']}) ran {key} {runs} times")
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
        if self.runners(w):
            for o in [x for x in self.unfinished(w) if not x["id"].startswith("probe")]:
                w.violate("gave-up", f"{o['id']} ({o['fn']}) never reached its final outcome")
        w.stats.update(asked=asked, bounded=bounded, hard=len(hard))

    def nontrivial(self, w: World) -> bool:
        return bool(w.stats["asked"] or w.stats["bounded"] or w.stats["hard"])


CHECK = C17()
