from __future__ import annotations

from datetime import timedelta, timezone
from typing import Any

from sim.world import World

from .flow import FlowCheck

RETRY_DELAY = {"rjob": lambda a: 0.7, "r0job": lambda a: 0.0, "ejob": lambda a: min(0.2 * 2 ** (a - 1), 2.0)}


class C03(FlowCheck):
    id = "C03"
    title = "Tasks never start early and start promptly when due"
    rule = (
        "Half of the cases are calm (no faults, more slots than tasks, any latency and poll settings) and judge promptness as well as earliness; the other half inject crashes, "
        "connection faults and clock steps and judge earliness only.  Clients and workers have skewed clocks, due times are given in several timezones.  Non-trivial: at least one "
        "task was due in the future when it was scheduled."
    )
    weights = {"add": 1.0, "replace": 0.3, "cancel": 0.03}
    reuse_keys = 0.3
    skew_prob = 0.5
    runs_quick = 450
    runs_thorough = 12000
    big_dur = 2.0

    def gen_op(self, rng: Any, i: int, t: float, clients: list[str], keys: list[str], fns: list[str]) -> dict[str, Any]:
        op = super().gen_op(rng, i, t, clients, keys, fns)
        if op["op"] != "cancel":
            op["tz"] = rng.choice([0, 0, 0, 330, -480, 840])
            if rng.random() < 0.15:
                # right at the edge of immediate / future
                op["delay"] = rng.choice([0.0, 1e-6, 0.0005, 0.002, 0.01])
        return op

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        plan["calm"] = rng.random() < 0.5
        if plan["calm"]:
            plan["faults"] = []
            n = len(plan["ops"]) + 2
            for c in plan["workers"].values():
                c["concurrency"] = max(c["concurrency"], n)
                c["redelivery"] = max(c["redelivery"], 5.0)
            if plan["latency"]["kind"] in ("exp", "spiky"):
                plan["latency"]["kind"] = "lan"
        elif rng.random() < 0.5:
            for f in plan["faults"]:
                if rng.random() < 0.4:
                    node = rng.choice(list(plan["workers"]))
                    t = f["t"]
                    f.clear()
                    f.update({"t": t, "kind": "skew", "node": node, "skew": round(rng.uniform(-2, 2), 2)})
        return plan

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        if o["op"] == "cancel":
            return await super().do_op(w, c, docket, fns, handles, o)
        when = w.dt(w.now() + o["delay"]).astimezone(timezone(timedelta(minutes=o.get("tz", 0))))
        o["when"] = w.now() + o["delay"]
        call = docket.add if o["op"] == "add" else docket.replace
        ex = await call(fns[o["fn"]], when=when, key=o["key"])(o["id"], o["script"])
        return ex.disposition.value

    def judge(self, w: World) -> None:
        skews = [0.0, *w.plan["skews"].values(), *(f["skew"] for f in w.plan["faults"] if f["kind"] == "skew")]
        fast, slow = max(skews), min(skews)
        starts, ends = self.starts(w), self.ends(w)
        w.stats["future"] = sum(o.get("delay", 0) > 0 for o in w.ops.values())
        w.stats["starts"] = sum(len(x) for x in starts.values())
        cfg = list(w.plan["workers"].values())
        bound = max(c["resolution"] for c in cfg) + 2 * max(c["check"] for c in cfg) + 0.3 + (fast - slow) + max(0.0, -slow)
        worst = 0.0
        for sid, evs in starts.items():
            o = w.ops[sid]
            if "when" not in o:
                continue
            for e in evs:
                if e["t"] < o["when"] - fast - 2e-6:
                    w.violate("early", f"{sid} attempt {e['att']} started at t={e['t']:.6f}, {o['when'] - e['t']:.6f}s before its time {o['when']:.6f} (fastest clock is {fast}s ahead)")
                if e["att"] > 1:
                    prev = [x for x in ends.get(sid, []) if x["att"] == e["att"] - 1 and x["seq"] < e["seq"]]
                    if prev:
                        first = min(x["t"] for x in prev)
                        due = first + RETRY_DELAY[o["fn"]](e["att"] - 1)
                        if e["t"] < due - (fast - slow) - 2e-6:
                            w.violate("early-retry", f"{sid} attempt {e['att']} started at t={e['t']:.6f} before its retry was due at {due:.6f}")
                        if w.plan["calm"]:
                            worst = max(worst, e["t"] - due)
                            if e["t"] > due + bound:
                                w.violate("late-retry", f"{sid} attempt {e['att']} was due at t={due:.3f} but started at {e['t']:.3f} with idle workers (bound {bound:.2f}s)")
            if w.plan["calm"] and o["status"] == "scheduled":
                due = max(o["when"], o["tret"])
                t = min(e["t"] for e in evs)
                worst = max(worst, t - due)
                if t > due + bound:
                    w.violate("late", f"{sid} was due at t={due:.3f} but started at {t:.3f} with idle workers (bound {bound:.2f}s)")
        w.stats["worst_late_ms"] = int(worst * 1000)
        if w.plan["calm"]:
            for o in self.unfinished(w):
                if not starts.get(o["id"]):
                    w.violate("late", f"{o['id']} was due at t={o['when']:.3f} but never started")
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")

    def nontrivial(self, w: World) -> bool:
        return w.stats.get("future", 0) > 0


CHECK = C03()
