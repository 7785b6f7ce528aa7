"""Clear removes exactly the waiting tasks."""

from __future__ import annotations

from typing import Any

from sim.net import Latency
from sim.world import World

from .flow import FlowCheck

WAITING = ("scheduled", "queued")


class C23(FlowCheck):
    id = "C23"
    title = "Clear removes exactly the waiting tasks"
    rule = (
        "Clients add, replace and cancel over a few keys, at once and later, with retries, and clear the docket while 1-3 workers take, run and retry those tasks, with crashes, stalls and connection faults in most runs. Judged from the published states at the time of each acknowledged clear: what was waiting then is never claimed again (unless scheduled anew), what was running runs to its end, "
        "what is added afterwards is accepted and runs, and the number reported lies between what was certainly and what was possibly waiting. Non-trivial: a clear removed something, or ran beside a running task."
    )
    weights = {"add": 1.0, "replace": 0.2, "cancel": 0.1, "clear": 0.2}
    fns = {"job": 0.5, "rjob": 0.3, "r0job": 0.2}
    reuse_keys = 0.5
    n_ops = (6, 35)
    fault_prob = 0.7
    client_faults = False
    runs_quick = 300
    runs_thorough = 8000
    big_dur = 2.0
    max_pause = 2.0
    ttl_choices = [0, 0, 60, 900]

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        for o in plan["ops"]:
            if o["op"] in ("add", "replace") and rng.random() < 0.3:
                o["delay"] = round(rng.uniform(1, 8), 2)
        if not any(o["op"] == "clear" for o in plan["ops"]):
            o = rng.choice(plan["ops"])
            o.update(op="clear")
        return plan

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        if o["op"] == "clear":
            o["count"] = await docket.clear()
            w.event("cleared", node=c, id=o["id"], count=o["count"])
            return "ok"
        return await super().do_op(w, c, docket, fns, handles, o)

    def history_of(self, w: World, key: str) -> list[tuple[int, str]]:
        return [(i, s["state"]) for _, i, s in w.states(key)]

    def state_at(self, hist: list[tuple[int, str]], i: int) -> str | None:
        before = [s for j, s in hist if j <= i]
        return before[-1] if before else None

    def excused(self, w: World, o: dict[str, Any]) -> bool:
        if super().excused(w, o):
            return True
        hist = self.history_of(w, o["key"])
        for p in w.ops.values():
            if p["op"] != "clear" or p["status"] is None or (p.get("ret") is not None and p["ret"] <= o["inv"]):
                continue
            if o.get("ret") is not None and o["ret"] < p["inv"] and p.get("ret") is not None:
                # running all along: left alone
                at = self.state_at(hist, p["inv"])
                during = [s for j, s in hist if p["inv"] < j <= p["ret"]]
                if at == "running" and not any(s in WAITING for s in during) and p["status"] == "ok":
                    continue
            return True
        return False

    def judge(self, w: World) -> None:
        plan = w.plan
        lat = Latency(**plan["latency"]).max()
        calm = not plan["faults"] and lat < 0.2
        removed = beside = 0
        keys = {o["key"] for o in w.ops.values() if o["op"] in ("add", "replace")}
        hists = {k: self.history_of(w, k) for k in keys}
        starts = [dict(e, seq=i) for i, e in enumerate(w.history) if e["ev"] == "start"]
        for c in w.ops.values():
            if c["op"] != "clear" or c["status"] != "ok":
                continue
            removed += c["count"]
            sure = 0
            possible = 0
            for k in keys:
                hist = hists[k]
                at = self.state_at(hist, c["inv"])
                during = [s for j, s in hist if c["inv"] < j <= c["ret"]]
                if at == "running":
                    beside += 1
                if at in WAITING and not any(s != "cancelled" and s != "queued" for s in during):
                    others = [o for o in w.ops.values() if o["key"] == k and o is not c and o["op"] != "add" and o.get("status") is not None and o["inv"] < c["ret"] and (o.get("ret") is None or o["ret"] > c["inv"])]
                    others += [o for o in w.ops.values() if o["op"] == "clear" and o is not c and o.get("status") is not None and o["inv"] < c["ret"] and (o.get("ret") is None or o["ret"] > c["inv"])]
                    if not others:
                        sure += 1
                # (a run that has been replaced still announces its own end)
                replaced = any(o["op"] == "replace" and o["key"] == k and o.get("status") is not None and o["inv"] < c["ret"] for o in w.ops.values())
                if replaced or at in WAITING or any(s in WAITING for s in during):
                    possible += 1
                # what was waiting then never starts
                if at in WAITING:
                    for s in starts:
                        if s["tkey"] != k or s["seq"] <= c["ret"]:
                            continue
                        o = w.ops[s["key"]]
                        if o["ret"] is None or o["ret"] >= c["inv"]:
                            continue
                        claimed = [j for j, st in hist if st == "running" and j <= s["seq"]]
                        if claimed and claimed[-1] > c["ret"] and not any(j <= c["ret"] and st == "running" and j > c["inv"] for j, st in hist):
                            w.violate("ran-anyway", f"{s['key']} ({k}) was {at} when {c['id']} cleared the docket (acknowledged at t={c['tret']:.3f}) and was started on {s['node']} at t={s['t']:.3f}")
            if calm and not sure <= c["count"] <= possible:
                w.violate("wrong-count", f"{c['id']} said that it cleared {c['count']} tasks at t={c['tret']:.3f}; {sure} to {possible} were waiting")
            # what is added afterwards is accepted
            for o in w.ops.values():
                if o["op"] != "add" or o["status"] != "already_scheduled" or o["inv"] <= c["ret"]:
                    continue
                if any(p is not o and p["op"] in ("add", "replace") and p["key"] == o["key"] and p.get("status") is not None
                       and (p.get("ret") is None or p["ret"] > c["inv"]) and p["inv"] < o["ret"] for p in w.ops.values()):
                    continue
                hist = hists[o["key"]]
                if self.state_at(hist, c["inv"]) == "running" or any(s == "running" for j, s in hist if c["inv"] < j <= o["ret"]):
                    continue
                w.violate("blocked", f"{o['id']} added {o['key']} at t={o['tinv']:.3f}, after {c['id']} had cleared the docket at t={c['tret']:.3f}, and was told that it exists")
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
        for o in self.unfinished(w):
            w.violate("gave-up", f"{o['id']} ({o['fn']}, {o['key']}) was {'running during every clear' if any(p['op'] == 'clear' and p.get('ret') and p['ret'] > o['inv'] for p in w.ops.values()) else 'added after every clear'} and never reached its final outcome")
        w.stats.update(removed=removed, beside=beside)

    def nontrivial(self, w: World) -> bool:
        return w.stats["removed"] > 0 or w.stats["beside"] > 0


CHECK = C23()
