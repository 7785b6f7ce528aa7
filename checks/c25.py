"""Dockets of different names never affect one another."""

import asyncio
from datetime import timedelta
from typing import Annotated, Any

from sim.world import WorkerSpec, World, sleep_until

from .c02 import C02
from .flow import FlowCheck, body_factory

NAMES = [("d", "dd"), ("dd", "d"), ("d", "d2"), ("orders", "orders-eu"), ("orders-eu", "orders"), ("a", "A"), ("Orders", "orders"), ("orders", "Orders"), ("q1", "q10"), ("q10", "q1"), ("a.b", "aXb"), ("jobs*", "jobs-2"), ("jobs-2", "jobs*"), ("d?", "dx"), ("Ü", "U"), ("[ab]", "a"), ("a", "[ab]")]
NOISE = {"add": 1.0, "replace": 0.3, "cancel": 0.5, "clear": 0.3, "strike": 0.25, "restore": 0.1, "snapshot": 0.1}


def make_all(w: World, node: str, body: Any) -> list[Any]:
    from docket import ConcurrencyLimit, Cooldown, CurrentExecution, Perpetual, RateLimit, Retry
    from docket.execution import Execution

    async def job(val: str, script: dict[str, Any], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def rjob(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), retry: Retry = Retry(attempts=3, delay=timedelta(seconds=0.7))) -> Any:
        return await body(val, script, ex)

    async def one(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), limit: ConcurrencyLimit = ConcurrencyLimit("script", max_concurrent=1)) -> Any:
        return await body(val, script, ex)

    async def cool(val: str, script: Annotated[dict[str, Any], Cooldown(timedelta(seconds=60))], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def rate(val: str, script: Annotated[dict[str, Any], RateLimit(1, per=timedelta(seconds=60), drop=True)], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def beat(every: Perpetual = Perpetual(every=timedelta(seconds=1), automatic=True)) -> None:
        w.event("beat", node=node)

    return [job, rjob, one, cool, rate, beat]


def make_tasks(w: World, node: str) -> list[Any]:
    return make_all(w, node, body_factory(w, node))


def make_noise(w: World, node: str) -> list[Any]:
    async def body(val: str, script: dict[str, Any], ex: Any) -> Any:
        w.event("noise", node=node, val=val)
        if val not in w.plan["noise_ids"]:
            w.violate("crossed", f"{val}, a task of docket {w.plan['docket_name']!r}, was started by {node}, a worker of docket {w.plan['other']!r}")
        await asyncio.sleep(script.get("hold", 0.05))
        return {"noise": val}

    return make_all(w, node, body)


class C25(FlowCheck):
    id = "C25"
    title = "Dockets of different names never affect one another"
    rule = (
        "Two dockets with similar names on one simulated Redis: one is observed (1-3 workers and clients adding, replacing and cancelling tasks, some under concurrency, rate and cooldown limits, an automatic perpetual task), the other makes noise with the very same task names, keys and arguments (bursts of adds and replaces, cancels, clears, strikes and restores, snapshots, its own workers crashing). "
        "Judged on the observed docket: every add of a fresh key is accepted, every accepted task runs exactly as often as its own script says, on its own workers, with its own arguments and limits, and is recorded with its own outcome; the perpetual task keeps its own interval; the registry lists its own workers only; and no task crosses over. Non-trivial: both dockets ran tasks, with a key in common."
    )
    weights = {"add": 1.0, "replace": 0.1, "cancel": 0.06}
    fns = {"job": 0.5, "rjob": 0.4, "one": 0.5, "cool": 0.4, "rate": 0.4}
    attempts = {"job": 1, "rjob": 3, "one": 1, "cool": 1, "rate": 1}
    reuse_keys = 0.1
    n_ops = (4, 16)
    fault_prob = 0.0
    client_faults = False
    big_dur = 2.0
    redelivery = (2.0, 4.0)
    ttl_choices = [0, 900]
    bound = 60.0
    runs_quick = 300
    runs_thorough = 8000
    shrink_fields = ("ops", "noise", "faults")
    make_tasks = staticmethod(make_tasks)

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        if plan["latency"]["kind"] == "spiky":
            plan["latency"]["kind"] = "lan"
        plan["latency"]["scale"] = min(plan["latency"]["scale"], 1.0)
        plan["docket_name"], plan["other"] = rng.choice(NAMES)
        span = max(o["t"] for o in plan["ops"])
        noise = []
        for i in range(rng.randint(4, 25)):
            o = rng.choice(plan["ops"])
            near = rng.choice(plan["ops"])
            kind = rng.choices(list(NOISE), list(NOISE.values()))[0]
            t = max(0.2, near["t"] + max(0.0, near.get("delay", 0)) + rng.uniform(-0.5, 0.5)) if rng.random() < 0.6 else rng.uniform(0.2, span + 2)
            n = {"t": round(t, 3), "op": kind, "id": f"n{i}", "key": o["key"], "fn": o.get("fn", "job"), "delay": rng.choice([0, 0, round(rng.uniform(0.1, 4), 2)])}
            # the same argument that the other docket's task is limited by
            n["like"] = o["id"] if "fn" in o else None
            noise.append(n)
        plan["noise"] = sorted(noise, key=lambda n: n["t"])
        plan["noise_ids"] = [n["id"] for n in noise]
        plan["noise_workers"] = rng.choice([1, 1, 2])
        if rng.random() < 0.4:
            plan["faults"] = [{"t": round(rng.uniform(0.5, span + 2), 3), "kind": rng.choice(["crash", "sigterm"]), "node": "x0", "for": round(rng.uniform(0.3, 3), 2)} for _ in range(rng.randint(1, 2))]
        # what a task is limited by is its own
        for i, o in enumerate(plan["ops"]):
            if "script" in o:
                o["script"]["mine"] = i
        return plan

    async def main(self, world: World) -> None:
        w = world
        for i in range(w.plan["noise_workers"]):
            cfg = dict(next(iter(w.plan["workers"].values())), concurrency=5)
            w.add_worker(WorkerSpec(f"x{i}", make_noise, self.docket_kwargs(w.plan), self.worker_kwargs(cfg), docket_name=w.plan["other"]))
        w.run_on("y0", self.noise(w), name="noise")
        w.registry = None
        w.records = {}
        w.results = {}
        await super().main(w)

    async def noise(self, w: World) -> None:
        from docket.strikelist import Operator

        fns = {f.__name__: f for f in make_noise(w, "y0")}
        docket = await w.open_docket("y0", w.plan["other"], **self.docket_kwargs(w.plan))
        for f in fns.values():
            docket.register(f)
        scripts = {o["id"]: o.get("script") for o in w.plan["ops"]}
        for n in w.plan["noise"]:
            await sleep_until(w, n["t"])
            op = n["op"]
            if op in ("add", "replace"):
                args = (n["id"], scripts.get(n["like"]) or {"hold": 0.1})
                when = w.dt(w.now() + n["delay"])
                await (docket.add(fns[n["fn"]], when=when, key=n["key"])(*args) if op == "add" else docket.replace(fns[n["fn"]], when=when, key=n["key"])(*args))
            elif op == "cancel":
                await docket.cancel(n["key"])
            elif op == "clear":
                await docket.clear()
            elif op == "strike":
                if n["delay"]:
                    await docket.strike(None, "val", Operator.EQUAL, n["like"] or "s0")
                else:
                    await docket.strike(fns[n["fn"]])
            elif op == "restore":
                await docket.restore(fns[n["fn"]])
            elif op == "snapshot":
                await docket.snapshot()
            w.event("noise-op", node="y0", op=op, key=n["key"])
        w.noise_done = True

    async def epilogue(self, w: World) -> None:
        async def ask() -> None:
            docket = await w.open_docket("z0", **self.docket_kwargs(w.plan))
            for f in make_tasks(w, "z0"):
                docket.register(f)
            up = sorted(n for n, p in w.procs.items() if p.up and n in w.plan["workers"])
            saw = sorted(x.name for x in await docket.workers())
            by = sorted(x.name for x in await docket.task_workers("job"))
            w.registry = (up, saw, by)
            for o in w.ops.values():
                if o["op"] in ("add", "replace") and o["status"] == "scheduled" and not self.excused(w, o) and w.plan["ttl"]:
                    e = await docket.get_execution(o["key"])
                    w.records[o["id"]] = (e.state.value if e else None, list(e.args)[:1] if e else None)
                    if e and e.state.value in ("completed", "failed"):
                        try:
                            w.results[o["id"]] = await e.get_result(timeout=timedelta(seconds=1))
                        except Exception as x:  # noqa: BLE001
                            w.results[o["id"]] = x
            running = [e for e in (await docket.snapshot()).running]
            for e in running:
                if e.worker not in w.plan["workers"]:
                    w.violate("crossed", f"the snapshot of docket {w.plan['docket_name']!r} has {e.key} running on {e.worker}")
            w.asked = True

        w.asked = False
        w.run_on("z0", ask(), name="ask")
        for _ in range(60):
            await asyncio.sleep(0.5)
            if w.asked:
                break

    def judge(self, w: World) -> None:
        C02.judge(self, w)
        starts, ends = self.starts(w), self.ends(w)
        for o in w.ops.values():
            if o["status"] == "struck":
                w.violate("struck", f"{o['id']} was refused as struck, which nobody did on this docket")
            if o["op"] == "add" and o["status"] == "already_scheduled" and not any(p is not o and p["key"] == o["key"] for p in w.ops.values()):
                w.violate("refused", f"{o['id']} added {o['key']}, which had never been used on this docket, and was told that it exists")
            got = w.records.get(o["id"])
            later = [p for p in w.ops.values() if p is not o and p["key"] == o["key"]]
            if got is not None and not later and self.final_end(o, ends.get(o["id"], [])):
                want = "completed" if any(e["out"] == "ok" for e in ends[o["id"]]) else "failed"
                if got[0] != want:
                    w.violate("wrong-record", f"{o['id']} ({o['key']}) ended as {want}, its record says {got[0]}")
                if got[1] != [o["id"]]:
                    w.violate("wrong-record", f"the record of {o['key']} has the arguments {got[1]}, the task was {o['id']}")
            if o["id"] in w.results and not later and self.final_end(o, ends.get(o["id"], [])):
                r = w.results[o["id"]]
                last = ends[o["id"]][-1]
                if last["out"] == "ok":
                    want = {"val": o["id"], "att": last["att"]} if o["script"].get("ret", True) else None
                    right = r == want
                else:
                    right = isinstance(r, Exception) and r.args == (o["id"], last["att"])
                if not right:
                    w.violate("wrong-result", f"{o['id']} ({o['key']}) ended {last['out']} in attempt {last['att']}, its result is {r!r}")
        if w.registry is None:
            w.violate("no-answer", "the observed docket did not answer within 30 s")
        else:
            up, saw, by = w.registry
            if saw != up or by != up:
                w.violate("registry", f"workers {up} of docket {w.plan['docket_name']!r} are up, it lists {saw}, and {by} for a task they all know")
        beats: dict[bool, list[float]] = {True: [], False: []}
        for e in w.history:
            if e["ev"] == "beat":
                beats[e["node"] in w.plan["workers"]].append(e["t"])
        mine = beats[True]
        busy = sum((o.get("script") or {}).get("dur", 0) for o in w.ops.values())
        if not mine or mine[0] > 10 + busy:
            w.violate("no-beat", f"the automatic task of docket {w.plan['docket_name']!r} ran first at {mine[:1]}")
        for a, b in zip(mine, mine[1:]):
            if b - a < 0.95:
                w.violate("second-chain", f"the perpetual task of docket {w.plan['docket_name']!r} ran at t={a:.3f} and t={b:.3f}; its interval is a second")
            if b - a > 3.5 + 2 * busy:
                w.violate("no-beat", f"the perpetual task of docket {w.plan['docket_name']!r} ran at t={a:.3f} and not again until t={b:.3f}")
        if mine and mine[-1] < w.now() - 3.5 - 2 * busy:
            w.violate("no-beat", f"the perpetual task of docket {w.plan['docket_name']!r} ran last at t={mine[-1]:.3f}, it is t={w.now():.3f}")
        w.stats.update(mine=len(starts), noise=sum(e["ev"] == "noise" for e in w.history))

    def nontrivial(self, w: World) -> bool:
        return w.stats["mine"] > 0 and w.stats["noise"] > 0


CHECK = C25()
