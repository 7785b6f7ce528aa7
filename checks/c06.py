"""Cancellation: a cancelled task does not run and its key is usable again."""

from __future__ import annotations

from typing import Any

from sim.net import Latency
from sim.world import World

from .flow import FlowCheck


class C06(FlowCheck):
    id = "C06"
    title = "A cancelled task does not run, and its key is usable again"
    rule = (
        "Seeded cancels aimed at every stage of a task (waiting for its time, at the moment the scheduler moves it, queued behind a busy worker, being claimed, running, between retries, "
        "already redelivered), followed by adds of the same key, with faults, on dockets and keys with plain and with peculiar names.  Judged on server-side claim events, body starts and ends, dispositions and final records: a task whose cancel was "
        "acknowledged before any worker claimed it never starts; a cancelled task is neither retried nor redelivered; a running one is interrupted within a bound (in fault-free runs) unless it "
        "finishes first; a later add is accepted and runs undisturbed; no other key's task is affected.  Non-trivial: a waiting task or a running task was cancelled."
    )
    weights = {"add": 1.0, "replace": 0.1}
    fault_prob = 0.65
    reuse_keys = 0.5
    n_ops = (2, 12)
    runs_quick = 450
    runs_thorough = 12000

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        extra = []
        for o in plan["ops"]:
            if rng.random() < 0.75:
                dur = o["script"]["dur"]
                t0 = o["t"] + max(0.0, o["delay"])
                at = rng.choice([o["t"] + 0.001, t0 - 0.05, t0, t0 + 0.1, t0 + 0.25, t0 + dur / 2, t0 + dur, rng.uniform(o["t"], t0 + dur + 0.5), t0 + dur + 0.5, t0 + dur + 4])
                c = rng.choice(sorted({p["c"] for p in plan["ops"]}))
                extra.append({"op": "cancel", "c": c, "t": round(max(0.2, at + rng.uniform(-0.02, 0.02)), 4), "id": f"x{len(extra)}", "key": o["key"]})
                if rng.random() < 0.5:
                    n = dict(o, script=dict(o["script"]), id=f"y{len(extra)}", t=round(extra[-1]["t"] + rng.choice([0.0, 0.001, 0.01, 0.2, 1.0]), 4))
                    n["c"] = rng.choice([c, c, o["c"]])
                    n["op"] = "add"
                    extra.append(n)
        plan["ops"] = sorted(plan["ops"] + extra, key=lambda o: o["t"])
        plan["docket_name"] = rng.choice(["d", "d", "d", "orders:eu", "jobs[eu]", "jobs*", "why?", "back\\slash", "Überholung", "{tag}"])
        odd = rng.choice(["", "", " with spaces", ":runs", "{t}", "*", "[a]", "é", "\n'\""])
        for o in plan["ops"]:
            o["key"] += odd
        for f in plan["faults"]:
            f.pop("arg", None) if odd else None
        return plan

    async def epilogue(self, w: World) -> None:
        w.final_states = {}
        await w.run_on("judge", self.inspect(w))

    async def inspect(self, w: World) -> None:
        docket = await w.open_docket("judge", **self.docket_kwargs(w.plan))
        for f in self.make_tasks(w, "judge"):
            docket.register(f)
        for key in sorted({o["key"] for o in w.ops.values()}):
            ex = await docket.get_execution(key)
            w.final_states[key] = None if ex is None else ex.state.value
        await docket.__aexit__(None, None, None)

    def judge(self, w: World) -> None:
        starts, ends = self.starts(w), self.ends(w)
        lat = Latency(**w.plan["latency"]).max()
        calm = not w.plan["faults"]
        far = 10**9
        running = {k: [(i, d.get("worker")) for _, i, d in w.states(k) if d["state"] == "running"] for k in {o["key"] for o in w.ops.values()}}
        waiting = interrupted = 0
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
        for c in w.ops.values():
            if c["op"] != "cancel" or c["status"] != "ok":
                continue
            for o in w.ops.values():
                if o["op"] == "cancel" or o["key"] != c["key"] or o["status"] not in ("scheduled", "maybe") or o["ret"] > c["inv"]:
                    continue
                evs = starts.get(o["id"], [])
                if not any(e["seq"] < c["inv"] for e in evs):
                    waiting += 1
                for e in evs:
                    if e["seq"] <= c["ret"]:
                        continue
                    # only a claim made before the cancel was acknowledged can still turn into a start
                    claims = sum(1 for i, n in running[c["key"]] if n == e["node"] and i <= c["ret"])
                    used = sum(1 for x in w.history[: e["seq"] + 1] if x["ev"] == "start" and x["tkey"] == c["key"] and x["node"] == e["node"] and w.ops[x["key"]]["ret"] <= c["inv"])
                    if claims < used:
                        w.violate("cancelled-ran", f"{o['id']} (key {o['key']}) started at t={e['t']:.3f} on {e['node']} (attempt {e['att']}) though its cancel was acknowledged at t={c['tret']:.3f}")
                        break
                if calm and not any(p is not o and p["key"] == o["key"] and p["op"] != "cancel" and p["status"] != "already_scheduled" and p.get("ret", far) > o["inv"] and p.get("inv", far) < c["ret"] for p in w.ops.values()):
                    # running well before the cancel and for long after: it must be interrupted
                    for e in evs:
                        end = next((x for x in ends.get(o["id"], []) if x["sid"] == e["sid"]), None)
                        if e["seq"] < c["inv"] and e["t"] < c["tinv"] - 0.3 - 4 * lat and (end is None or end["t"] > c["tret"] + 1.0 + 10 * lat):
                            w.violate("not-interrupted", f"{o['id']} (key {o['key']}) running since t={e['t']:.3f} went on until t={end and end['t']} though cancelled at t={c['tret']:.3f}")
        for o in w.ops.values():
            for e in ends.get(o["id"], []):
                if e["out"] != "cancelled":
                    continue
                interrupted += 1
                if not any(c["op"] == "cancel" and c["key"] == o["key"] and c.get("inv", far) < e["seq"] and (c.get("ret") is None or c["status"] != "ok" or c["ret"] > o["inv"]) for c in w.ops.values()):
                    w.violate("wrongly-cancelled", f"{o['id']} (key {o['key']}) was interrupted at t={e['t']:.3f} though no cancel of its key came after its {o['op']}")
            if o["op"] == "add" and o["status"] == "already_scheduled":
                # refused: some other schedule of the key must possibly be live
                if not any(p is not o and p["key"] == o["key"] and p["op"] in ("add", "replace") and p["status"] not in (None, "already_scheduled") and p["inv"] < o["ret"]
                           and not any(c["op"] == "cancel" and c["key"] == o["key"] and c["status"] == "ok" and p["status"] == "scheduled" and c["inv"] > p["ret"] and c["ret"] < o["inv"] for c in w.ops.values())
                           for p in w.ops.values()):
                    w.violate("key-unusable", f"add {o['id']} of key {o['key']} at t={o['tinv']:.3f} was refused as already scheduled though every earlier schedule of the key had been cancelled")
        for o in self.unfinished(w):
            w.violate("lost-task", f"{o['op']} {o['id']} (key {o['key']}) was accepted after every cancel of its key but never ran to its final outcome")
        w.stats["waiting_cancelled"] = waiting
        w.stats["interrupted"] = interrupted
        after_end = 0
        if calm and w.plan["ttl"] >= 60:
            for key, st in w.final_states.items():
                ops = [o for o in w.ops.values() if o["key"] == key and o["status"] is not None]
                if not ops:
                    continue
                runs = [o for o in ops if o["op"] != "cancel" and o["status"] != "already_scheduled"]
                ends_of = [(i, d["state"]) for _, i, d in w.states(key) if d["state"] in ("completed", "failed")]
                if len(runs) == 1 and runs[0]["op"] == "add" and runs[0]["status"] == "scheduled" and len(ends_of) == 1 and all(i < c["inv"] for i, _ in ends_of for c in ops if c["op"] == "cancel"):
                    after_end += 1
                    if st not in (None, ends_of[0][1]):
                        w.violate("record-rewritten", f"key {key}: {runs[0]['id']} had {ends_of[0][1]} before it was cancelled, but its record says {st}")
                last = max(ops, key=lambda o: o["inv"])
                if any(p is not last and p["ret"] > last["inv"] for p in ops):
                    continue
                live = [o for o in ops if o["op"] != "cancel" and o["status"] == "scheduled"]
                if last["op"] == "cancel" and last["status"] == "ok" and live and w.now() < last["tret"] + w.plan["ttl"]:
                    o = max(live, key=lambda x: x["inv"])
                    if any(x is not o and x["ret"] > o["inv"] for x in ops if x is not last):
                        continue
                    outs = {e["out"] for e in ends.get(o["id"], [])}
                    if (not starts.get(o["id"]) or "cancelled" in outs and len(starts[o["id"]]) == 1) and st != "cancelled":
                        w.violate("not-recorded", f"key {key}: {o['id']} was cancelled but its record says {st}")

        w.stats["cancelled_after_end"] = after_end

    def nontrivial(self, w: World) -> bool:
        return w.stats["waiting_cancelled"] + w.stats["interrupted"] > 0


CHECK = C06()
