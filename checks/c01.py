from __future__ import annotations

from typing import Any

from sim.world import World

from .flow import FlowCheck


class C01(FlowCheck):
    id = "C01"
    title = "No accepted task is ever lost"
    rule = (
        "Each case is a random plan: 1-3 workers and 1-3 clients, 4-25 add/replace/cancel operations with random "
        "delays, retries and durations, and 0-6 faults (crash at a command boundary, pause, partition, connection "
        "reset, lost request/reply, server restart, script flush) over simulated Redis.  Non-trivial: at least one "
        "fault fired while an accepted task was outstanding and at least one task executed."
    )
    weights = {"add": 1.0, "replace": 0.15, "cancel": 0.05}
    reuse_keys = 0.3
    runs_quick = 450
    runs_thorough = 12000

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        if rng.random() < 0.12:
            # attrition: workers die for good one after another, in the middle of long tasks
            plan["workers"] = {f"w{i}": dict(plan["workers"]["w0"], concurrency=rng.choice([1, 2, 3])) for i in range(rng.choice([3, 3, 4]))}
            red = plan["workers"]["w0"]["redelivery"]
            t = rng.uniform(0.5, 2.0)
            plan["faults"] = []
            for n in rng.sample(list(plan["workers"])[1:], len(plan["workers"]) - 1):
                plan["faults"].append({"t": round(t, 3), "kind": "crash", "node": n, "for": 1.0, "gone": True})
                t += red * rng.uniform(0.2, 3.0)
            for o in plan["ops"]:
                if rng.random() < 0.7 and "script" in o:
                    o["t"] = round(o["t"] * rng.uniform(0.1, 1.0), 3)
                    o["script"]["dur"] = round(rng.uniform(0.5, 4 * red), 3)
            plan["ops"].sort(key=lambda o: o["t"])
        return plan

    def judge(self, w: World) -> None:
        w.stats["accepted"] = sum(o["status"] == "scheduled" for o in w.ops.values())
        w.stats["starts"] = sum(e["ev"] == "start" for e in w.history)
        w.stats["redelivered_starts"] = sum(e["ev"] == "start" and e["redel"] for e in w.history)
        w.stats["retry_starts"] = sum(e["ev"] == "start" and e["att"] > 1 for e in w.history)
        for o in self.unfinished(w):
            w.violate(
                "lost-task",
                f"{o['op']} {o['id']} (key {o['key']}, fn {o['fn']}) was accepted at t={o['tret']:.3f} for t={o['when']:.3f} "
                f"but never ran to its final outcome by t={w.now():.1f} (last fault {w.last_fault:.1f})",
            )
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
        for p in w.procs.values():
            if not p.up and not p.stopping and not p.node.dead:
                # restarting after a death is fine; a silent exit is not
                pass
        for e in w.history:
            if e["ev"] == "worker-exit" and not e["asked"]:
                w.violate("worker-exit", f"worker {e['node']} run_forever() returned unasked at t={e['t']}")
                break

    def nontrivial(self, w: World) -> bool:
        return bool(w.net.injected) and w.stats.get("starts", 0) > 0


CHECK = C01()
