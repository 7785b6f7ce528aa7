"""Rate limits hold in every window and excess tasks follow the policy."""

from datetime import timedelta
from typing import Annotated, Any

from sim.world import World

from .admit import AdmitCheck
from .flow import body_factory


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import ConcurrencyLimit, CurrentExecution, RateLimit
    from docket.execution import Execution

    body = body_factory(w, node)
    r = {fn: (n, timedelta(seconds=s)) for fn, (n, s) in w.plan["rates"].items()}

    async def whole(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(),
                    rate: RateLimit = RateLimit(r["whole"][0], per=r["whole"][1])) -> Any:
        return await body(val, script, ex)

    async def byarg(val: str, script: dict[str, Any], cust: Annotated[Any, RateLimit(r["byarg"][0], per=r["byarg"][1])], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def dropper(val: str, script: dict[str, Any], acct: Annotated[Any, RateLimit(r["dropper"][0], per=r["dropper"][1], drop=True)], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def whole_dropper(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(),
                            rate: RateLimit = RateLimit(r["whole_dropper"][0], per=r["whole_dropper"][1], drop=True, scope="mine")) -> Any:
        return await body(val, script, ex)

    async def whole_both(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(),
                         rate: RateLimit = RateLimit(r["whole_both"][0], per=r["whole_both"][1]),
                         limit: ConcurrencyLimit = ConcurrencyLimit("cust", 1)) -> Any:
        return await body(val, script, ex)

    return [whole, byarg, dropper, whole_dropper, whole_both]


class C11(AdmitCheck):
    id = "C11"
    title = "Rate limits hold in every window and excess tasks follow the policy"
    rule = (
        "Seeded bursts and trickles of tasks under per-task, per-argument and scoped rate limits (rescheduling and dropping, one combined with a concurrency limit) on 1-3 workers, a third of the runs with crashes and connection faults. "
        "Judged: starts per limit in every sliding window (within message latency; skipped when stalls may separate admission from start), every rescheduled task runs (once without faults), and starts once the window has room; "
        "a task is dropped only when the window was full, and is then recorded as cancelled. Non-trivial: the limit held some task back."
    )
    fns = {"whole": 1, "byarg": 1, "dropper": 0.8, "whole_dropper": 0.4, "whole_both": 0.6}
    attempts = {k: 1 for k in fns}
    params = {"dropper": "acct"}
    make_tasks = staticmethod(make_tasks)

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        plan["rates"] = {f: [rng.choice([1, 1, 2, 3, 5]), rng.choice([0.7, 1.5, 3.0, 5.0])] for f in self.fns}
        return super().tweak(rng, plan)

    def dropped(self, w: World, o: dict[str, Any]) -> bool:
        return "dropper" in o["fn"] and self.dropped_at(w, o) is not None

    def judge(self, w: World) -> None:
        self.facts(w)
        self.common(w)
        by: dict[str, list[float]] = {}
        for e in w.history:
            if e["ev"] == "start" and e["key"] in w.ops:
                by.setdefault(self.groups(w.ops[e["key"]])[0], []).append(e["t"])
        # every task held back keeps a slot until the worker's next check
        poll = self.poll * (1 + len(w.ops) // sum(c["concurrency"] for c in w.plan["workers"].values()))
        held = 0
        ends = self.ends(w)
        for g, ts in by.items():
            n, per = w.plan["rates"][g.split("/")[0]]
            if self.punctual:
                for a, b in zip(ts, ts[n:]):
                    if b - a < per - self.slack - (12 * self.lat if g == "whole_both" else 0):
                        w.violate("rate-exceeded", f"{g}: {n + 1} starts within {b - a:.3f}s (limit {n} per {per}s) at t={a:.3f}..{b:.3f}")
                        break
        for o in w.ops.values():
            if o["status"] not in ("scheduled", "maybe"):
                continue
            g = self.groups(o)[0]
            n, per = w.plan["rates"][o["fn"]]
            ts = by.get(g, [])
            drop = self.dropped_at(w, o)
            evs = self.st.get(o["id"], [])
            if "dropper" in o["fn"]:
                if drop is not None and not self.ends(w).get(o["id"]):
                    held += 1
                    asked = self.claimed_at(w, o, drop)
                    near = [t for t in ts if asked - per - self.slack - 0.02 < t < asked + 2 * self.slack]
                    if self.calm and self.lat < 0.2 and len(near) < n:
                        w.violate("wrongly-dropped", f"{o['id']} ({g}) was dropped at t={drop:.3f} though only {len(near)} of {n} had started in the {per}s before")
                    mine = [t for t, _, d in w.states(o["key"]) if d["state"] == "running" and t <= drop]
                    if not self.calm and self.lat < 0.2 and not evs and len(mine) == 1:
                        # it came up once, and hadn't run before
                        lone = 0.0 if self.punctual else sum(f.get("for", 0) + 1 for f in w.plan["faults"])
                        taken = sum(
                            asked - per - self.slack - 0.05 - lone < t < asked + 2 * self.slack + lone
                            for p in w.ops.values() if p is not o and self.groups(p) == self.groups(o)
                            for t, _, d in w.states(p["key"]) if d["state"] == "running"
                        )
                        if taken < n:
                            w.violate("wrongly-dropped", f"{o['id']} ({g}) was dropped at t={drop:.3f} though only {taken} of {n} others had come up in the {per}s before")
                elif drop is not None and self.calm and self.lat < 0.2:
                    w.violate("wrong-state", f"{o['id']} ({g}) ran and was recorded as cancelled at t={drop:.3f}")
                continue
            if drop is not None:
                w.violate("wrong-state", f"{o['id']} ({g}) was recorded as cancelled at t={drop:.3f}, but its limit doesn't drop")
            if any(d["state"] == "scheduled" for _, _, d in w.states(o["key"])[1:]):
                held += 1
            if self.calm and self.lat < 0.2 and evs and o["status"] == "scheduled":
                # it starts once the window has room
                since, at = max(o["tret"], o["when"]), evs[0]["t"]
                other = sorted(t for t in ts if t < at)
                lim = max([since] + [other[-n] + per] if len(other) >= n else [since])
                late = at - lim
                if o["fn"] == "whole_both":
                    # it also needs the slot of its customer
                    lim = max([lim] + [e["t"] for p in w.ops.values() if p["fn"] == "whole_both" and p["cust"] == o["cust"] for e in ends.get(p["id"], []) if e["t"] < at])
                    late = at - lim - poll
                if late > poll and not self.busy_during(lim - 0.1, at):
                    w.violate("late", f"{o['id']} ({g}) due at t={since:.3f} started at t={at:.3f}, {late:.2f}s after the window had room (limit {n} per {per}s, last starts {[round(t, 3) for t in other[-n:]]})")
        w.stats["held"] = held

    def nontrivial(self, w: World) -> bool:
        return w.stats.get("held", 0) > 0


CHECK = C11()
