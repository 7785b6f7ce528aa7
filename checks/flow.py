"""A general task-flow workload shared by the delivery-guarantee checks."""

from __future__ import annotations

import asyncio
from datetime import timedelta
from typing import Any

from sim.world import WorkerSpec, World, sleep_until

from .base import Check, gen_faults, gen_latency


class Boom(Exception):
    def __init__(self, val: str, attempt: int):
        super().__init__(val, attempt)
        self.val = val
        self.attempt = attempt

    def __eq__(self, o: Any) -> bool:
        return isinstance(o, Boom) and o.args == self.args

    __hash__ = Exception.__hash__


def body_factory(w: World, node: str):
    async def body(val: str, script: dict[str, Any], ex: Any) -> Any:
        w.sid = getattr(w, "sid", 0) + 1
        sid = w.sid
        att = ex.attempt
        op = w.ops.get(val)
        w.event("start", node=node, key=val, att=att, redel=bool(ex.redelivered), sid=sid, fn=ex.function_name, tkey=ex.key,
                ok=bool(op and op.get("script") == script and op["key"] == ex.key and op["fn"] == ex.function_name))
        try:
            durs = script.get("durs")
            dur = durs[min(att, len(durs)) - 1] if durs else script.get("dur", 0.01)
            if dur:
                await asyncio.sleep(dur)
            if att <= script.get("fails", 0):
                w.event("end", node=node, key=val, att=att, sid=sid, out="fail")
                raise Boom(val, att)
        except asyncio.CancelledError:
            w.event("end", node=node, key=val, att=att, sid=sid, out="cancelled")
            raise
        w.event("end", node=node, key=val, att=att, sid=sid, out="ok")
        return {"val": val, "att": att} if script.get("ret", True) else None

    return body


def make_flow_tasks(w: World, node: str) -> list[Any]:
    from docket import CurrentExecution, ExponentialRetry, Retry
    from docket.execution import Execution

    body = body_factory(w, node)

    async def job(val: str, script: dict[str, Any], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def rjob(
        val: str,
        script: dict[str, Any],
        ex: Execution = CurrentExecution(),
        retry: Retry = Retry(attempts=3, delay=timedelta(seconds=0.7)),
    ) -> Any:
        return await body(val, script, ex)

    async def r0job(
        val: str,
        script: dict[str, Any],
        ex: Execution = CurrentExecution(),
        retry: Retry = Retry(attempts=4),
    ) -> Any:
        return await body(val, script, ex)

    async def ejob(
        val: str,
        script: dict[str, Any],
        ex: Execution = CurrentExecution(),
        retry: Retry = ExponentialRetry(
            attempts=None, minimum_delay=timedelta(milliseconds=200), maximum_delay=timedelta(seconds=2)
        ),
    ) -> Any:
        return await body(val, script, ex)

    return [job, rjob, r0job, ejob]


ATTEMPTS = {"job": 1, "rjob": 3, "r0job": 4, "ejob": None}


class FlowCheck(Check):
    """Subclasses tune `gen` through the class attributes and add a judge."""

    attempts: dict[str, int | None] = ATTEMPTS
    weights = {"add": 1.0}
    fns = {"job": 0.6, "rjob": 0.2, "r0job": 0.1, "ejob": 0.1}
    fault_prob = 0.8
    fault_kinds: list[str] | None = None
    reuse_keys = 0.0
    window = (1.0, 12.0)
    n_ops = (4, 25)
    delays = True
    ttl_choices = [0, 5, 60, 900, 900]
    max_pause = 3.0
    max_outage = 4.0
    client_faults = True
    skew_prob = 0.0
    gone_prob = 0.4
    bound = 90.0
    tail = 2.0
    big_dur = 3.0
    redelivery = (1.0, 4.0)

    # ------------------------------------------------------------------ gen

    def gen_op(self, rng: Any, i: int, t: float, clients: list[str], keys: list[str], fns: list[str]) -> dict[str, Any]:
        kind = rng.choices(list(self.weights), list(self.weights.values()))[0]
        op: dict[str, Any] = {"op": kind, "c": rng.choice(clients), "t": round(t, 3), "id": f"s{i}"}
        reuse = rng.random() < self.reuse_keys
        op["key"] = rng.choice(keys) if reuse else f"k{i}"
        if kind in ("add", "replace"):
            fn = rng.choice(fns)
            op["fn"] = fn
            maxa = self.attempts[fn]
            fails = 0
            if rng.random() < 0.4:
                fails = rng.randint(1, 4 if maxa is None else maxa + (0 if rng.random() < 0.5 else 1))
            r = rng.random()
            dur = 0.0 if r < 0.15 else (round(rng.uniform(0.01, 0.3), 3) if r < 0.75 else round(rng.uniform(0.3, self.big_dur), 3))
            op["script"] = {"dur": dur, "fails": fails}
            if rng.random() < 0.2:
                op["script"]["ret"] = False
            if self.delays:
                r = rng.random()
                op["delay"] = 0 if r < 0.4 else (round(rng.uniform(-1, 0.5), 3) if r < 0.6 else round(rng.uniform(0.05, 6), 3))
            else:
                op["delay"] = 0
        return op

    def gen(self, rng: Any, tier: str, idx: int) -> dict[str, Any]:
        nw = rng.choice([1, 2, 2, 3])
        nc = rng.choice([1, 1, 2, 3])
        workers = [f"w{i}" for i in range(nw)]
        clients = [f"c{i}" for i in range(nc)]
        span = rng.uniform(*self.window)
        n = rng.randint(*self.n_ops)
        burst = rng.random() < 0.3
        fl, fw = list(self.fns), list(self.fns.values())
        fns = [rng.choices(fl, fw)[0] for _ in range(rng.choice([1, 2, 3]))]
        keys = [f"r{i}" for i in range(rng.randint(1, 4))]
        times = sorted((rng.choice([0.5, span / 2, span]) + rng.uniform(0, 0.05)) if burst else rng.uniform(0.2, span) for _ in range(n))
        ops = [self.gen_op(rng, i, t, clients, keys, fns) for i, t in enumerate(times)]
        plan = {
            "latency": gen_latency(rng),
            "resp2": rng.random() < 0.1,
            "workers": {
                w: {
                    "concurrency": rng.choice([1, 2, 3, 10]),
                    "redelivery": round(rng.uniform(*self.redelivery), 2),
                    "check": rng.choice([0.05, 0.1, 0.25]),
                    "resolution": rng.choice([0.05, 0.1, 0.25]),
                    "reconnect": rng.choice([0.3, 1.0, 5.0]),
                }
                for w in workers
            },
            "ttl": rng.choice(self.ttl_choices),
            "ops": ops,
            "faults": [],
            "skews": {},
            "max_steps": 1_500_000,
        }
        red = round(rng.uniform(*self.redelivery), 2)
        for w in plan["workers"].values():
            w["redelivery"] = red
        if rng.random() < self.fault_prob:
            plan["faults"] = gen_faults(
                rng, 0.3, span + 4, rng.randint(1, 6), workers, clients if self.client_faults else [], self.fault_kinds,
                self.max_pause, self.max_outage, args=[o["key"] for o in ops[:6]],
            )
            if nw > 1 and rng.random() < self.gone_prob:
                # a crashed worker that is never restarted (at least one other stays)
                gone = set(rng.sample(workers, rng.randint(1, nw - 1)))
                for f in plan["faults"]:
                    if f.get("node") in gone and f["kind"].startswith("crash"):
                        f["gone"] = True
        if rng.random() < self.skew_prob:
            for n_ in workers + clients:
                if rng.random() < 0.6:
                    plan["skews"][n_] = round(rng.uniform(-1.5, 1.5), 2)
        return self.tweak(rng, plan)

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        return plan

    # ------------------------------------------------------------------ run

    make_tasks = staticmethod(make_flow_tasks)

    def docket_kwargs(self, plan: dict[str, Any]) -> dict[str, Any]:
        return {"execution_ttl": timedelta(seconds=plan.get("ttl", 900))}

    def worker_kwargs(self, cfg: dict[str, Any]) -> dict[str, Any]:
        return dict(
            concurrency=cfg["concurrency"],
            redelivery_timeout=timedelta(seconds=cfg["redelivery"]),
            minimum_check_interval=timedelta(seconds=cfg["check"]),
            scheduling_resolution=timedelta(seconds=cfg["resolution"]),
            reconnection_delay=timedelta(seconds=cfg["reconnect"]),
        )

    async def main(self, world: World) -> None:
        w = world
        plan = w.plan
        w.ops = {o["id"]: dict(o, status=None) for o in plan["ops"]}
        for name, cfg in plan["workers"].items():
            w.at(cfg.get("start", 0.0), w.add_worker, WorkerSpec(name, self.make_tasks, self.docket_kwargs(plan), self.worker_kwargs(cfg), docket_name=plan.get("docket_name", "d")))
        w.schedule_faults(plan["faults"])
        by_client: dict[str, list[dict[str, Any]]] = {}
        for o in plan["ops"]:
            by_client.setdefault(o["c"], []).append(w.ops[o["id"]])
        w.client_done = {c: False for c in by_client}
        for c, ops in by_client.items():
            w.run_on(c, self.client(w, c, ops), name=f"client {c}")
        await self.until_settled(w)

    async def until_settled(self, w: World) -> None:
        plan = w.plan
        horizon = max([o["t"] + max(0.0, o.get("delay", 0)) for o in plan["ops"]] + [f["t"] + f.get("for", 0) for f in plan["faults"]] + [1.0])
        # time the work itself needs, if one slot had to do all of it
        work = sum((self.max_runs(o) if o["op"] in ("add", "replace") else 0) * (o.get("script", {}).get("dur", 0) + 2.5) for o in plan["ops"])
        await sleep_until(w, horizon)
        while True:
            limit = max(w.last_fault, horizon) + self.bound + work
            alive = [c for c, d in w.client_done.items() if not d and not w.node(c).dead]
            if not alive and not self.pending(w) and w.now() > w.last_fault + 0.5:
                break
            if w.now() > limit:
                break
            await asyncio.sleep(0.5)
        w.settled_at = w.now()
        await asyncio.sleep(self.tail)
        await self.epilogue(w)

    async def epilogue(self, w: World) -> None:
        pass

    def max_runs(self, o: dict[str, Any]) -> int:
        maxa = self.attempts.get(o["fn"], 1)
        n = o.get("script", {}).get("fails", 0) + 1
        return n if maxa is None else min(n, maxa)

    def pending(self, w: World) -> Any:
        return self.unfinished(w)

    def excused(self, w: World, o: dict[str, Any]) -> bool:
        """A later (or concurrent) replace or cancel of the key may have removed it."""
        for p in w.ops.values():
            if p is o or p["key"] != o["key"] or p["status"] is None:
                continue
            if p["op"] in ("replace", "cancel") and (p.get("ret") is None or p["ret"] > o["inv"]):
                return True
        return False

    def unfinished(self, w: World) -> list[dict[str, Any]]:
        """Accepted, not excused, and not yet run to a final outcome."""
        ends = self.ends(w)
        return [o for o in w.ops.values() if o["op"] in ("add", "replace") and o["status"] == "scheduled"
                and not self.excused(w, o) and not self.final_end(o, ends.get(o["id"], []))]

    async def client(self, w: World, c: str, ops: list[dict[str, Any]]) -> None:
        docket = None
        handles: dict[str, Any] = {}
        fns: dict[str, Any] = {}
        for o in ops:
            await sleep_until(w, o["t"])
            o["inv"] = len(w.history)
            o["tinv"] = w.now()
            w.event("inv", node=c, key=o["key"], op=o["op"], id=o["id"])
            o["status"] = "pending"
            try:
                if docket is None:
                    fns = {f.__name__: f for f in self.make_tasks(w, c)}
                    docket = await w.open_docket(c, **self.docket_kwargs(w.plan))
                    for f in fns.values():
                        docket.register(f)
                r = await self.do_op(w, c, docket, fns, handles, o)
                o["status"] = r
            except Exception as e:  # noqa: BLE001
                if w.excusable(e, o["tinv"]):
                    o["status"] = "maybe"
                else:
                    o["status"] = "error"
                    o["error"] = f"{type(e).__name__}: {e}"[:300]
                    if w.verbose:
                        import traceback

                        traceback.print_exc()
            o["ret"] = len(w.history)
            o["tret"] = w.now()
            w.event("ret", node=c, key=o["key"], op=o["op"], id=o["id"], status=str(o["status"]))
        w.client_done[c] = True

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        k = o["op"]
        if k in ("add", "replace"):
            when = None if o["delay"] == 0 and k == "add" else w.dt(w.now() + o["delay"])
            o["when"] = w.now() + o["delay"]
            if k == "add":
                ex = await docket.add(fns[o["fn"]], when=when, key=o["key"])(o["id"], o["script"])
            else:
                ex = await docket.replace(fns[o["fn"]], when=when, key=o["key"])(o["id"], o["script"])
            handles[o["key"]] = ex
            o["state"] = ex.state.value
            return ex.disposition.value
        if k == "cancel":
            await docket.cancel(o["key"])
            return "ok"
        raise ValueError(k)

    # --------------------------------------------------------------- oracles

    def starts(self, w: World) -> dict[str, list[dict[str, Any]]]:
        out: dict[str, list[dict[str, Any]]] = {}
        for i, e in enumerate(w.history):
            if e["ev"] == "start":
                out.setdefault(e["key"], []).append(dict(e, seq=i))
        return out

    def ends(self, w: World) -> dict[str, list[dict[str, Any]]]:
        out: dict[str, list[dict[str, Any]]] = {}
        for i, e in enumerate(w.history):
            if e["ev"] == "end":
                out.setdefault(e["key"], []).append(dict(e, seq=i))
        return out

    def final_end(self, o: dict[str, Any], ends: list[dict[str, Any]]) -> bool:
        """The schedule ran to its final outcome at least once."""
        maxa = self.attempts[o["fn"]]
        for e in ends:
            if e["out"] == "ok":
                return True
            if e["out"] == "fail" and maxa is not None and e["att"] >= maxa:
                return True
        return False
