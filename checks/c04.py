from __future__ import annotations

from typing import Any

from sim.net import Latency
from sim.world import World

from .flow import FlowCheck


class C04(FlowCheck):
    id = "C04"
    title = "At most one live task per key, and dispositions are truthful"
    rule = (
        "Each case: 2-4 clients issue 6-30 add/replace/cancel operations, mostly in simultaneous bursts, on 1-3 keys against 1-3 workers, with worker crashes, stalls and connection "
        "faults but reliable client connections.  Non-trivial: at least one add was refused and at least two operations on one key overlapped in time."
    )
    weights = {"add": 1.0, "replace": 0.12, "cancel": 0.1}
    reuse_keys = 1.0
    n_ops = (6, 30)
    window = (1.0, 8.0)
    client_faults = False
    fault_prob = 0.5
    fault_kinds = ["crash", "crash_before", "crash_after", "lose_request", "lose_reply", "pause", "reset", "partition", "script_flush", "slow",
                   "stall_before", "delay_request"]
    big_dur = 2.0
    runs_quick = 450
    runs_thorough = 12000

    def directed(self) -> list[dict[str, Any]]:
        # task keys that are also the names of the docket's own keys
        base = {"latency": {"kind": "const", "scale": 1.0}, "resp2": False, "ttl": 900, "faults": [], "skews": {}, "max_steps": 1_500_000, "case": "own-key-name",
                "workers": {"w0": {"concurrency": 3, "redelivery": 3.0, "check": 0.1, "resolution": 0.1, "reconnect": 0.5}}}
        op = {"op": "add", "c": "c0", "fn": "job", "script": {"dur": 0.01, "fails": 0}}
        return [dict(base, ops=[dict(op, t=1.0, id="s0", key=name, delay=1.0), dict(op, t=4.0, id="s1", key="r1", delay=1.0)]) for name in ("stream", "queue")]

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        clients = [f"c{i}" for i in range(rng.choice([2, 3, 4]))]
        nk = rng.choice([1, 1, 2, 3])
        for o in plan["ops"]:
            o["c"] = rng.choice(clients)
            o["key"] = f"r{int(o['key'][1:]) % nk}" if o["key"][0] == "r" else "r0"
        if rng.random() < 0.6:
            # simultaneous bursts
            times = sorted(rng.uniform(0.3, 8.0) for _ in range(rng.randint(1, 5)))
            for o in plan["ops"]:
                o["t"] = round(rng.choice(times) + rng.choice([0, 0, 0.0005, 0.003, 0.02]), 4)
            plan["ops"].sort(key=lambda o: o["t"])
        return plan

    def judge(self, w: World) -> None:
        starts, ends = self.starts(w), self.ends(w)
        ops = [o for o in w.ops.values() if o["status"] is not None]
        ttl_faulty = bool(w.plan["faults"])
        red = max(c["redelivery"] for c in w.plan["workers"].values())
        rec = max(c["reconnect"] for c in w.plan["workers"].values())
        lat = Latency(**w.plan["latency"]).max()
        final: dict[str, Any] = {}
        for o in ops:
            if o["op"] == "cancel":
                continue
            es = sorted(ends.get(o["id"], []), key=lambda e: e["seq"])
            for i in range(len(es)):
                if self.final_end(o, es[: i + 1]):
                    final[o["id"]] = es[i]
                    break
        refused = 0
        for a in ops:
            if a["op"] != "add" or a["status"] not in ("scheduled", "already_scheduled"):
                if a["status"] == "error":
                    w.violate("api-error", f"{a['op']} {a['id']} raised {a['error']}")
                continue
            same = [p for p in ops if p is not a and p["key"] == a["key"]]
            if a["status"] == "scheduled":
                for t in same:
                    if t["op"] == "cancel" or t["status"] != "scheduled" or t["ret"] > a["inv"]:
                        continue
                    f = final.get(t["id"])
                    if f is not None and f["seq"] < a["ret"]:
                        continue
                    # was the key possibly freed by someone else?
                    if any(p is not t and p["op"] in ("cancel", "replace") and p["inv"] < a["ret"] and (p.get("ret") is None or p["ret"] > t["inv"]) for p in same):
                        continue
                    w.violate(
                        "double-accept",
                        f"add {a['id']} of key {a['key']} was accepted (t={a['tinv']:.3f}-{a['tret']:.3f}) while {t['id']} (accepted at t={t['tret']:.3f}) was still waiting or running "
                        + (f"until t={f['t']:.3f}" if f else "at the end"),
                    )
            else:
                refused += 1
                if a["id"] in starts:
                    w.violate("refused-but-ran", f"add {a['id']} of key {a['key']} was refused but executed")
                possible = False
                for t in same:
                    if t["op"] == "cancel" or t["status"] in ("already_scheduled", "struck", None) or t["inv"] > a["ret"]:
                        continue
                    f = final.get(t["id"])
                    if f is not None:
                        slack = 1.0 + 6 * lat if not ttl_faulty else red * 3 + rec + 8.0 + 6 * lat
                        base = f["t"] if not ttl_faulty else max(f["t"], w.last_fault)
                        # redelivered runs of the same task may follow its first final end
                        last = max(e["t"] for e in ends[t["id"]])
                        if a["tinv"] > max(base, last) + slack:
                            continue
                    elif any(p["op"] == "cancel" and p["status"] == "ok" and t.get("ret") is not None and p["inv"] > t["ret"] and p["ret"] < a["inv"] for p in same):
                        sv = starts.get(t["id"], [])
                        if not sv:
                            continue  # cancelled while it was waiting
                        lastend = max([e["t"] for e in ends.get(t["id"], [])] + [sv[-1]["t"]])
                        if len(ends.get(t["id"], [])) >= len(sv) and ends[t["id"]][-1]["out"] == "cancelled" and not ttl_faulty and a["tinv"] > lastend + 1.0 + 6 * lat:
                            continue
                    possible = True
                    break
                if not possible:
                    w.violate("false-refusal", f"add {a['id']} of key {a['key']} (t={a['tinv']:.3f}-{a['tret']:.3f}) was refused although no task with that key was waiting or running")
        # a refused add changes nothing: what was accepted still runs, at its own time
        for o in self.unfinished(w):
            w.violate("lost-task", f"{o['op']} {o['id']} (key {o['key']}) was accepted but never ran to its final outcome")
        for sid, evs in starts.items():
            o = w.ops[sid]
            if evs[0]["t"] < o["when"] - 1e-5:
                w.violate("schedule-changed", f"{sid} was scheduled for t={o['when']:.3f} but ran at t={evs[0]['t']:.3f}")
            if not all(e["ok"] for e in evs):
                w.violate("wrong-call", f"{sid}: executed with another function, key or arguments than scheduled")
        w.stats["refused"] = refused
        w.stats["accepted"] = sum(o["status"] == "scheduled" for o in ops)
        n = 0
        for a in ops:
            n += any(p is not a and p["key"] == a["key"] and p["inv"] < a["inv"] < (p.get("ret") or 1e18) for p in ops)
        w.stats["overlapping_ops"] = n

    def nontrivial(self, w: World) -> bool:
        return w.stats["refused"] > 0 and w.stats["overlapping_ops"] > 0


CHECK = C04()
