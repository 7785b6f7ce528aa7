"""What the rate limit, cooldown and debounce checks share."""

import asyncio
from typing import Any

from sim.net import Latency
from sim.world import World

from .flow import FlowCheck

CRASHES = ("crash", "crash_before", "crash_after")


class AdmitCheck(FlowCheck):
    fns: dict[str, float] = {}
    fault_prob = 0.4
    n_ops = (3, 24)
    window = (0.5, 14.0)
    big_dur = 1.0
    ttl_choices = [60, 900]
    redelivery = (1.5, 4.0)
    max_pause = max_outage = 1.5
    runs_quick = 400
    runs_thorough = 10000
    params: dict[str, str] = {}  # fn -> its parameter that gets `cust`

    def groups(self, o: dict[str, Any]) -> list[str]:
        """The admission keys of a task."""
        return [o["fn"] if not self.per_arg(o["fn"]) else f"{o['fn']}/{o['cust']}"]

    def per_arg(self, fn: str) -> bool:
        return not fn.startswith("whole")

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        custs = rng.sample(["a", "b", 1], rng.choice([1, 1, 2]))
        if rng.random() < 0.5:
            plan["faults"] = [f for f in plan["faults"] if f["kind"] in CRASHES]
        quick = rng.random() < 0.6
        for i, o in enumerate(plan["ops"]):
            o["cust"] = rng.choice(custs)
            o["kw"] = rng.random() < 0.4
            o["script"]["fails"] = 0 if rng.random() < 0.85 else o["script"]["fails"]
            if quick:
                o["script"]["dur"] = round(rng.uniform(0, 0.05), 3)
            o["delay"] = 0 if rng.random() < 0.7 else o["delay"]
        if rng.random() < 0.15:
            # few tasks of one kind, and a crash while one of them is about to run or running
            o = rng.choice(plan["ops"])
            keep = [p for p in plan["ops"] if p["t"] <= o["t"]][-3:] + [p for p in plan["ops"] if p["t"] > o["t"]][:3]
            for p in keep:
                p.update(fn=o["fn"], cust=o["cust"], delay=0)
            o["script"]["dur"] = round(rng.uniform(0.1, 0.6), 3)
            plan["ops"] = keep
            plan["latency"] = {"kind": "lan", "scale": rng.choice([0.3, 1.0])}
            plan["faults"] = [{"t": round(o["t"] + rng.uniform(0.01, 0.5), 3), "kind": "crash", "node": n, "for": round(rng.uniform(0.1, 3.0), 2)} for n in plan["workers"]]
        return plan

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        when = None if o["delay"] == 0 else w.dt(w.now() + o["delay"])
        o["when"] = w.now() + o["delay"]
        add = docket.add(fns[o["fn"]], when=when, key=o["key"])
        if o["kw"]:
            ex = await add(o["id"], o["script"], **{self.params.get(o["fn"], "cust"): o["cust"]}, **self.more(o))
        else:
            ex = await add(o["id"], o["script"], o["cust"], **self.more(o))
        return ex.disposition.value

    def more(self, o: dict[str, Any]) -> dict[str, Any]:
        return {}

    def dropped_at(self, w: World, o: dict[str, Any]) -> float | None:
        for t, _, d in w.states(o["key"]):
            if d["state"] == "cancelled":
                return t
        return None

    def claimed_at(self, w: World, o: dict[str, Any], before: float) -> float:
        """When the claim that led to something published at `before` was."""
        return max([t for t, _, d in w.states(o["key"]) if d["state"] == "running" and t <= before], default=before)

    def dropped(self, w: World, o: dict[str, Any]) -> bool:
        return False

    def final_end(self, o: dict[str, Any], ends: list[dict[str, Any]]) -> bool:
        return any(e["out"] in ("ok", "fail") for e in ends)

    def unfinished(self, w: World) -> list[dict[str, Any]]:
        return [o for o in super().unfinished(w) if not self.dropped(w, o)]

    def facts(self, w: World) -> None:
        self.lat = Latency(**w.plan["latency"]).max()
        kinds = {f["kind"] for f in w.plan["faults"]}
        self.calm = not kinds
        # nothing but crashes: then time from admission to start is only latency
        self.punctual = kinds <= set(CRASHES) and self.lat < 0.2
        self.slack = 0.01 + 6 * self.lat
        self.poll = 0.4 + 20 * self.lat + 2 * max(c["check"] + c["resolution"] for c in w.plan["workers"].values())
        self.st = self.starts(w)
        # when every worker had room for one more
        self.full: list[tuple[float, float]] = []
        busy: dict[str, set[int]] = {}
        cap = {n: c["concurrency"] for n, c in w.plan["workers"].items()}
        since: float | None = None
        for e in w.history:
            if e["ev"] == "start":
                busy.setdefault(e["node"], set()).add(e["sid"])
            elif e["ev"] == "end":
                for s in busy.values():
                    s.discard(e["sid"])
            elif e["ev"] in ("crash", "worker-died"):
                busy.pop(e["node"], None)
            else:
                continue
            full = any(len(busy.get(n, ())) >= cap[n] for n in cap)
            if full and since is None:
                since = e["t"]
            elif not full and since is not None:
                self.full.append((since, e["t"]))
                since = None
        if since is not None:
            self.full.append((since, w.now()))

    def busy_during(self, a: float, b: float) -> bool:
        return any(x < b and y > a for x, y in self.full)

    def common(self, w: World) -> None:
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
            evs = self.st.get(o["id"], [])
            if not all(e["ok"] for e in evs):
                w.violate("wrong-call", f"{o['id']}: ran with another function, key or arguments")
            if self.calm and self.lat < 0.2 and len(evs) > 1:
                w.violate("ran-twice", f"{o['id']} ({o['fn']}, key {o['key']}) started {len(evs)} times without any fault")
        for o in self.unfinished(w):
            pubs = w.states(o["key"])
            if not self.calm and any(any(x in (d.get("error") or "") for x in ("Failed to resolve dependencies", "ConnectionError", "TimeoutError")) for _, _, d in pubs):
                continue
            w.violate("lost-task", f"{o['op']} {o['id']} ({o['fn']}, key {o['key']}) was accepted but neither ran nor was dropped")
