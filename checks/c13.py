"""A debounce runs once, after things have settled."""

from datetime import timedelta
from typing import Annotated, Any

from sim.world import World

from .admit import AdmitCheck
from .flow import body_factory


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import CurrentExecution, Debounce
    from docket.execution import Execution

    body = body_factory(w, node)
    r = {fn: timedelta(seconds=s) for fn, s in w.plan["settle"].items()}

    async def whole(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(), deb: Debounce = Debounce(r["whole"])) -> Any:
        return await body(val, script, ex)

    async def byarg(val: str, script: dict[str, Any], cust: Annotated[Any, Debounce(r["byarg"])], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def whole_scoped(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(), deb: Debounce = Debounce(r["whole_scoped"], scope="mine")) -> Any:
        return await body(val, script, ex)

    return [whole, byarg, whole_scoped]


class C13(AdmitCheck):
    id = "C13"
    title = "A debounce runs once, after things have settled"
    rule = (
        "Seeded bursts and trickles of tasks under per-task, per-argument and scoped debounces on 1-3 workers, 40% of the runs with crashes and connection faults. Judged per debounce key: no start while less than the settling period "
        "has passed since another submission came up; as many executions as there were bursts (gaps within scheduling latency of the settling period count either way); every submission either runs or is recorded as cancelled, never both; "
        "and after the last burst an execution starts, whatever crashed. Non-trivial: something was dropped and something ran."
    )
    fns = {"whole": 1, "byarg": 1, "whole_scoped": 0.4}
    attempts = {k: 1 for k in fns}
    make_tasks = staticmethod(make_tasks)

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        plan["settle"] = {f: rng.choice([0.4, 0.8, 1.5, 3.0]) for f in self.fns}
        plan = super().tweak(rng, plan)
        if rng.random() < 0.4:
            # bursts: gaps either well within or well beyond the settling period
            t, s = 0.5, min(plan["settle"].values())
            for o in sorted(plan["ops"], key=lambda o: o["t"]):
                o["t"] = round(t, 3)
                t += rng.uniform(0.0, 0.5) * s if rng.random() < 0.75 else s * rng.uniform(1.2, 4)
        if rng.random() < 0.2:
            # somebody cancels one of them, maybe the one that the others were dropped for
            o = rng.choice(plan["ops"])
            t = round(o["t"] + max(0.0, o["delay"]) + rng.uniform(0.02, 1.0) * plan["settle"][o["fn"]], 3)
            plan["ops"].append({"op": "cancel", "c": o["c"], "t": t, "id": "x", "key": o["key"], "fn": o["fn"], "cust": o["cust"]})
            plan["ops"].sort(key=lambda o: o["t"])
        return plan

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        if o["op"] == "cancel":
            await docket.cancel(o["key"])
            return "ok"
        return await super().do_op(w, c, docket, fns, handles, o)

    def dropped(self, w: World, o: dict[str, Any]) -> bool:
        return self.dropped_at(w, o) is not None

    def judge(self, w: World) -> None:
        self.facts(w)
        self.common(w)
        ends = self.ends(w)
        poll = self.poll * (1 + len(w.ops) // sum(c["concurrency"] for c in w.plan["workers"].values()))
        by: dict[str, list[dict[str, Any]]] = {}
        for o in w.ops.values():
            if o["op"] == "add" and o["status"] is not None:
                by.setdefault(self.groups(o)[0], []).append(o)
        ran = drops = 0
        crashes = [e["t"] for e in w.history if e["ev"] == "crash"]
        for g, ops in by.items():
            settle = w.plan["settle"][g.split("/")[0]]
            # when each first came up for admission
            ups = sorted((d[0], o["id"]) for o in ops if (d := [t for t, _, x in w.states(o["key"]) if x["state"] == "running"]))
            starts = sorted((e["t"], o["id"]) for o in ops for e in self.st.get(o["id"], []))
            ran += len(starts)
            for o in ops:
                drop = self.dropped_at(w, o)
                if drop is not None:
                    drops += 1
                    if ends.get(o["id"]) and self.calm and self.lat < 0.2:
                        w.violate("wrong-state", f"{o['id']} ({g}) ran and was recorded as cancelled at t={drop:.3f}")
            if not ups or self.lat >= 0.2:
                continue
            if self.punctual:
                for t, i in starts:
                    for u, j in ups:
                        if any(u - self.slack <= c < u + self.slack for c in crashes):
                            continue  # it may have come up, but not got as far as the gate
                        if j != i and t - settle + self.slack < u < t - self.slack:
                            w.violate("unsettled", f"{g}: {i} started at t={t:.3f}, only {t - u:.3f}s after {j} came up (settles after {settle}s)")
                            break
            # submissions that came up but won't run, and with them those that were dropped in their favour
            gone = [t for o in ops for t, _, d in w.states(o["key"]) if d["state"] == "failed" and not ends.get(o["id"])]
            gone += [o["tinv"] for o in w.ops.values() if o["op"] == "cancel" and o["status"] is not None and self.groups(o)[0] == g]
            if self.calm and not gone:
                gaps = [b[0] - a[0] for a, b in zip(ups, ups[1:])]
                least = 1 + sum(x > settle + poll for x in gaps)
                most = 1 + sum(x > settle - self.slack for x in gaps)
                if len(starts) > most:
                    w.violate("too-many", f"{g}: {len(starts)} executions for at most {most} bursts (submissions at {[round(u, 3) for u, _ in ups]}, starts at {[round(t, 3) for t, _ in starts]}, settles after {settle}s)")
                if len(starts) < least:
                    w.violate("burst-lost", f"{g}: {len(starts)} executions for at least {least} bursts (submissions at {[round(u, 3) for u, _ in ups]}, starts at {[round(t, 3) for t, _ in starts]}, settles after {settle}s)")
            else:
                last = ups[-1][0]
                burst = last
                for u, _ in reversed(ups):
                    if burst - u > settle + poll:
                        break
                    burst = u
                if any(t >= burst - settle - poll for t in gone):
                    continue
                if not any(t > last - self.slack for t, _ in starts):
                    w.violate("burst-lost", f"{g}: nothing started after the last submission came up at t={last:.3f} (starts at {[round(t, 3) for t, _ in starts]}, settles after {settle}s)")
        w.stats["ran"] = ran
        w.stats["drops"] = drops

    def nontrivial(self, w: World) -> bool:
        return w.stats.get("drops", 0) > 0 and w.stats.get("ran", 0) > 0


CHECK = C13()
