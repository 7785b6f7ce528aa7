from __future__ import annotations

from typing import Any

from sim.world import World

from .flow import FlowCheck


class C02(FlowCheck):
    id = "C02"
    title = "Each schedule runs exactly once when no worker fails"
    rule = (
        "Each case is a random plan without crashes: 1-4 workers, 1-3 clients, 4-25 operations, task durations up to several redelivery "
        "timeouts, graceful worker shutdowns, pauses shorter than the lease margin, slow links and script-cache flushes.  Non-trivial: at least two "
        "executions overlapped in time."
    )
    weights = {"add": 1.0, "replace": 0.12, "cancel": 0.04}
    reuse_keys = 0.25
    fault_prob = 0.7
    fault_kinds = ["script_flush", "slow", "pause", "sigterm"]
    client_faults = False
    redelivery = (1.0, 2.5)
    big_dur = 6.0
    runs_quick = 450
    runs_thorough = 12000
    bound = 60.0

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        red = min(c["redelivery"] for c in plan["workers"].values())
        for f in plan["faults"]:
            if f["kind"] == "pause":
                f["for"] = round(rng.uniform(0.05, 0.25) * red, 3)
            if f["kind"] == "slow":
                f["delay"] = round(rng.uniform(0.001, 0.005) * red, 4)
        # stay clear of the lease margin: at most one pause at a time per worker
        seen: dict[str, float] = {}
        keep = []
        for f in plan["faults"]:
            if f["kind"] in ("pause", "slow"):
                if f["t"] < seen.get(f["node"], -1):
                    continue
                seen[f["node"]] = f["t"] + f["for"] + red
            keep.append(f)
        plan["faults"] = keep
        # round trips stay far below the lease: a batch of deliveries must be claimable within it
        if plan["latency"]["kind"] == "spiky":
            plan["latency"]["kind"] = "exp"
        plan["latency"]["scale"] = min(plan["latency"]["scale"], 0.3 if plan["latency"]["kind"] == "exp" else 1.0)
        return plan

    def judge(self, w: World) -> None:
        starts = self.starts(w)
        live = top = 0
        for e in w.history:
            if e["ev"] == "start":
                live += 1
                top = max(top, live)
            elif e["ev"] == "end":
                live -= 1
        w.stats["overlap"] = top
        w.stats["starts"] = sum(len(x) for x in starts.values())
        w.stats["long_tasks"] = sum(
            o.get("script", {}).get("dur", 0) > min(c["redelivery"] for c in w.plan["workers"].values()) for o in w.ops.values())
        for sid, evs in starts.items():
            o = w.ops.get(sid)
            if o is None or o["op"] not in ("add", "replace"):
                w.violate("phantom-execution", f"a task body started with identity {sid!r} that nobody scheduled")
                continue
            if not all(e["ok"] for e in evs):
                w.violate("wrong-call", f"{sid}: executed with another function, key or arguments than scheduled")
            if o["status"] in ("already_scheduled", "struck", "error"):
                w.violate("phantom-execution", f"{sid} was answered {o['status']} but executed at t={evs[0]['t']}")
                continue
            by: dict[int, list[Any]] = {}
            for e in evs:
                by.setdefault(e["att"], []).append(e)
            for a, es in by.items():
                if len(es) > 1:
                    w.violate(
                        "duplicate-execution",
                        f"{sid} (key {o['key']}) attempt {a} ran {len(es)} times: " + ", ".join(f"t={e['t']} on {e['node']}" for e in es)
                        + " although no worker crashed, stalled past its lease or lost Redis",
                    )
        for o in self.unfinished(w):
            w.violate("not-executed", f"{o['op']} {o['id']} accepted at t={o['tret']:.3f} never reached its final outcome")
        ends = self.ends(w)
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
            if o["op"] in ("add", "replace") and o["status"] == "scheduled" and not self.excused(w, o):
                n = len(starts.get(o["id"], []))
                if self.final_end(o, ends.get(o["id"], [])) and n != self.max_runs(o):
                    w.violate("wrong-count", f"{o['id']} ({o['fn']}) fails={o['script'].get('fails')}: {n} executions, expected {self.max_runs(o)}")

    def nontrivial(self, w: World) -> bool:
        return w.stats.get("overlap", 0) >= 2


CHECK = C02()
