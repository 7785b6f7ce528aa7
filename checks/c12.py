"""A cooldown admits at most one execution per window."""

from datetime import timedelta
from typing import Annotated, Any

from sim.world import World

from .admit import AdmitCheck
from .flow import body_factory


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import ConcurrencyLimit, Cooldown, CurrentExecution
    from docket.execution import Execution

    body = body_factory(w, node)
    r = {fn: timedelta(seconds=s) for fn, s in w.plan["windows"].items()}

    async def whole(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(), cool: Cooldown = Cooldown(r["whole"])) -> Any:
        return await body(val, script, ex)

    async def byarg(val: str, script: dict[str, Any], cust: Annotated[Any, Cooldown(r["byarg"])], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def whole_scoped(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(), cool: Cooldown = Cooldown(r["whole_scoped"], scope="mine")) -> Any:
        return await body(val, script, ex)

    async def multi(val: str, script: dict[str, Any], own: Annotated[Any, Cooldown(r["multi"])], region: Annotated[Any, Cooldown(r["multi"])] = "here", ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def limited(val: str, script: dict[str, Any], only: Annotated[Any, ConcurrencyLimit(1)], ex: Execution = CurrentExecution(), cool: Cooldown = Cooldown(r["limited"])) -> Any:
        return await body(val, script, ex)

    async def cooled(val: str, script: dict[str, Any], solo: Annotated[Any, Cooldown(r["cooled"])], ex: Execution = CurrentExecution(), limit: ConcurrencyLimit = ConcurrencyLimit("solo", 1)) -> Any:
        return await body(val, script, ex)

    return [whole, byarg, whole_scoped, multi, limited, cooled]


class C12(AdmitCheck):
    id = "C12"
    title = "A cooldown admits at most one execution per window"
    rule = (
        "Seeded bursts and trickles of tasks under per-task, per-argument and scoped cooldowns on 1-3 workers, 40% of the runs with crashes and connection faults. Judged: the distance of any two different tasks' starts per cooldown key "
        "(within message latency; skipped when stalls may separate admission from start); every accepted task either runs or is recorded as cancelled, never both; and one is dropped only if another task of its key had been admitted "
        "within the window before. Non-trivial: some task was dropped and two started."
    )
    fns = {"whole": 1, "byarg": 1, "whole_scoped": 0.4, "multi": 0.7, "limited": 0.5, "cooled": 0.4}
    attempts = {k: 1 for k in fns}
    params = {"multi": "own", "limited": "only", "cooled": "solo"}
    make_tasks = staticmethod(make_tasks)

    def groups(self, o: dict[str, Any]) -> list[str]:
        if o["fn"] == "multi":
            return [f"multi/own={o['cust']}", f"multi/region={o['region']}"]
        if o["fn"] == "limited":
            return ["limited"]
        return super().groups(o)

    def more(self, o: dict[str, Any]) -> dict[str, Any]:
        return {"region": o["region"]} if o["fn"] == "multi" and o["region"] != "here" else {}

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        for o in plan["ops"]:
            o["region"] = rng.choice(["here", "there"])
        plan["windows"] = {f: rng.choice([0.4, 0.5, 1.0, 1.7, 2.0, 2.5, 3.6, 4.0]) for f in self.fns}
        return super().tweak(rng, plan)

    def dropped(self, w: World, o: dict[str, Any]) -> bool:
        return self.dropped_at(w, o) is not None

    def judge(self, w: World) -> None:
        self.facts(w)
        self.common(w)
        by: dict[str, list[tuple[float, str]]] = {}
        for e in w.history:
            if e["ev"] == "start" and e["key"] in w.ops:
                for g in self.groups(w.ops[e["key"]]):
                    by.setdefault(g, []).append((e["t"], e["key"]))
        drops = 0
        lone = 0.0 if self.punctual else sum(f.get("for", 0) + 1 for f in w.plan["faults"])
        for g, ts in by.items():
            per = w.plan["windows"][g.split("/")[0]]
            last: tuple[float, str] | None = None
            for t, i in ts:
                if self.punctual and last is not None and last[1] != i and t - last[0] < per - self.slack - (12 * self.lat if g.startswith(("limited", "cooled")) else 0):
                    w.violate("cooldown-broken", f"{g}: {last[1]} started at t={last[0]:.3f} and {i} at t={t:.3f}, within {per}s")
                    break
                if last is None or last[1] != i:
                    last = (t, i)
        for o in w.ops.values():
            if o["status"] not in ("scheduled", "maybe"):
                continue
            gs = self.groups(o)
            g = " and ".join(gs)
            per = w.plan["windows"][o["fn"]]
            drop = self.dropped_at(w, o)
            evs = self.st.get(o["id"], [])
            claims = [t for t, _, d in w.states(o["key"]) if d["state"] == "running"]
            if self.calm and self.punctual and evs and claims and o["fn"] != "cooled":
                # its first claim was well within somebody's window, so it was to be dropped there and then
                for g1 in gs:
                    for t, i in by.get(g1, []):
                        if i != o["id"] and self.slack < claims[0] - t < per - self.slack:
                            w.violate("not-dropped", f"{o['id']} ({g}) came up at t={claims[0]:.3f}, {claims[0] - t:.3f}s after {i} had started ({per}s), but wasn't dropped: it ran at t={evs[0]['t']:.3f}")
            if drop is None:
                continue
            drops += 1
            if evs and evs[0]["t"] < drop and any(e["t"] < drop for e in self.ends(w).get(o["id"], [])) and self.calm and self.lat < 0.2:
                w.violate("wrong-state", f"{o['id']} ({g}) ran at t={evs[0]['t']:.3f} and was recorded as cancelled at t={drop:.3f}")
            # somebody else was admitted in the window before, or was being admitted (and died, stalled or was held back before it started)
            asked = self.claimed_at(w, o, drop)
            since, until = asked - per - self.slack - 0.05 - lone, asked + 2 * self.slack + lone
            near = any(i != o["id"] and since < t < until for g in gs for t, i in by.get(g, []))
            if self.lat < 0.2 and not near and not self.held_for_a_moment(w, o, asked) and not (not self.calm and self.crashed_before_start(w, o, drop)):
                w.violate("wrongly-dropped", f"{o['id']} ({g}) was dropped at t={drop:.3f} though nothing of its key had started in the {per}s before")
        w.stats["drops"] = drops
        w.stats["started"] = sum(len(v) for v in by.values())

    def held_for_a_moment(self, w: World, o: dict[str, Any], asked: float) -> bool:
        """A task that one of its gates held back had been through another one."""
        return o["fn"] in ("multi", "limited", "cooled") and any(
            abs(t - asked) < 2 * self.slack
            for p in w.ops.values() if p is not o and set(self.groups(p)) & set(self.groups(o))
            for t, _, d in w.states(p["key"]) if d["state"] == "running"
        )

    def crashed_before_start(self, w: World, o: dict[str, Any], drop: float) -> bool:
        """Another task of the key had been claimed by then, but had not got to its start."""
        per = w.plan["windows"][o["fn"]]
        for p in w.ops.values():
            if p is not o and set(self.groups(p)) & set(self.groups(o)):
                for t, _, d in w.states(p["key"]):
                    if d["state"] == "running" and t < drop + self.slack:
                        st = [e["t"] for e in self.st.get(p["id"], [])]
                        if not any(abs(x - t) < per for x in st) or (st and min(st) > drop):
                            return True
        return False

    def nontrivial(self, w: World) -> bool:
        return w.stats.get("drops", 0) > 0 and w.stats.get("started", 0) > 1


CHECK = C12()
