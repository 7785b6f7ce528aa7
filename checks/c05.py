from __future__ import annotations

from datetime import timedelta
from typing import Any

from sim.net import Latency
from sim.world import World

from .flow import Boom, FlowCheck


class C05(FlowCheck):
    id = "C05"
    title = "A replacement supersedes the waiting task and always takes effect"
    rule = (
        "Each case: 1-3 clients issue 4-20 add/replace operations on 1-3 keys against 1-3 workers, replacements aimed at every stage of the earlier task's life (parked, becoming due, "
        "queued behind a busy worker, running, retrying), with crashes, stalls, lost messages and restarts.  Judged per key against server-side state events, body starts and the final "
        "record and result.  Non-trivial: a replacement was acknowledged while an earlier task of its key had not started."
    )
    weights = {"add": 1.0, "replace": 1.2}
    reuse_keys = 1.0
    n_ops = (4, 20)
    ttl_choices = [0, 900, 900]
    fault_prob = 0.6
    big_dur = 1.2
    bound = 70.0
    runs_quick = 450
    runs_thorough = 12000

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        nk = rng.choice([1, 1, 2, 3])
        for o in plan["ops"]:
            o["key"] = f"r{rng.randrange(nk)}"
            if o["op"] == "add" and rng.random() < 0.2:
                o["delay"] = round(rng.uniform(20, 50), 2)
        # aim replacements at the moment an earlier task of the key becomes due or runs
        for i, o in enumerate(plan["ops"]):
            if o["op"] != "replace" or rng.random() < 0.4:
                continue
            prev = [p for p in plan["ops"][:i] if p["key"] == o["key"]]
            if prev:
                p = rng.choice(prev)
                o["t"] = round(max(0.2, p["t"] + max(0.0, p["delay"] if p["delay"] < 20 else 0.5) + rng.choice([-0.05, 0, 0, 0.002, 0.01, 0.1, 0.25, 0.3]) + rng.uniform(-0.02, 0.02)), 4)
        plan["ops"].sort(key=lambda o: o["t"])
        return plan

    async def epilogue(self, w: World) -> None:
        w.final_records = {}
        if not w.plan["ttl"]:
            return
        w.judge_done = False
        await w.run_on("judge", self.inspect(w))

    async def inspect(self, w: World) -> None:
        docket = await w.open_docket("judge", **self.docket_kwargs(w.plan))
        for f in self.make_tasks(w, "judge"):
            docket.register(f)
        for key in sorted({o["key"] for o in w.ops.values()}):
            ex = await docket.get_execution(key)
            if ex is None:
                w.final_records[key] = None
                continue
            try:
                r: Any = await ex.get_result(timeout=timedelta(seconds=20))
                out: Any = ("ok", r)
            except Boom as e:
                out = ("boom", e.args)
            except Exception as e:  # noqa: BLE001
                out = ("error", f"{type(e).__name__}: {e}")
            w.final_records[key] = {"args": ex.args, "fn": ex.function.__name__, "state": ex.state.value, "out": out}
        await docket.__aexit__(None, None, None)

    def judge(self, w: World) -> None:
        starts, ends = self.starts(w), self.ends(w)
        lat = Latency(**w.plan["latency"]).max()
        calm = not w.plan["faults"]
        work = sum(self.max_runs(o) * (o["script"]["dur"] + 0.1) for o in w.ops.values())
        pubs = {k: [(i, d.get("worker")) for _, i, d in w.states(k) if d["state"] == "running"] for k in {o["key"] for o in w.ops.values()}}
        hit = 0
        for r in w.ops.values():
            if r["status"] == "error":
                w.violate("api-error", f"{r['op']} {r['id']} raised {r['error']}")
            if r["op"] != "replace" or r["status"] != "scheduled":
                continue
            for t in w.ops.values():
                if t is r or t["key"] != r["key"] or t["status"] not in ("scheduled", "maybe") or t["ret"] > r["inv"]:
                    continue
                evs = starts.get(t["id"], [])
                if any(e["seq"] < r["inv"] for e in evs):
                    continue  # it was running already (or had run)
                hit += not any(e["seq"] < r["ret"] for e in evs)
                for e in evs:
                    if e["seq"] < r["ret"]:
                        continue
                    # did its worker claim a run of this key before the replacement was acknowledged?
                    claims = sum(1 for i, n in pubs[r["key"]] if n == e["node"] and i <= r["ret"])
                    used = sum(1 for x in w.history[: e["seq"] + 1] if x["ev"] == "start" and x["tkey"] == r["key"] and x["node"] == e["node"] and w.ops[x["key"]]["ret"] <= r["inv"])
                    if claims >= used:
                        continue
                    w.violate("superseded-ran", f"{t['id']} (key {t['key']}) was waiting when {r['id']} replaced it (acknowledged t={r['tret']:.3f}) but started at t={e['t']:.3f} on {e['node']}")
                    break
            evs = starts.get(r["id"], [])
            if evs and evs[0]["t"] < r["when"] - 1e-5:
                w.violate("replacement-early", f"{r['id']} is due at t={r['when']:.3f} but started at t={evs[0]['t']:.3f}")
            if not all(e["ok"] for e in evs):
                w.violate("wrong-call", f"{r['id']}: executed with another function, key or arguments than scheduled")
            if calm and evs and not self.excused(w, r):
                due = max(r["when"], r["tret"])
                if evs[0]["t"] > due + work + 3.0 + 10 * lat:
                    w.violate("replacement-late", f"{r['id']} is due at t={due:.3f} but started only at t={evs[0]['t']:.3f} without any fault")
        for o in self.unfinished(w):
            w.violate("replacement-lost" if o["op"] == "replace" else "lost-task", f"{o['op']} {o['id']} (key {o['key']}) was acknowledged but never ran to its final outcome")
        w.stats["waiting_replaced"] = hit
        for key, rec in w.final_records.items():
            ops = [o for o in w.ops.values() if o["key"] == key and o["status"] is not None and o["status"] != "already_scheduled"]
            last = max(ops, key=lambda o: o["inv"], default=None)
            if last is None or last["status"] != "scheduled" or any(p is not last and (p.get("ret") is None or p["ret"] > last["inv"]) for p in ops):
                continue
            if self.excused(w, last) or not self.final_end(last, ends.get(last["id"], [])):
                continue
            ok = last["script"]["fails"] < (self.max_runs(last) if self.max_runs(last) <= last["script"]["fails"] else 10**9)
            n = self.max_runs(last)
            want = ("ok", {"val": last["id"], "att": n} if last["script"].get("ret", True) else None) if ok else ("boom", (last["id"], n))
            if rec is None:
                w.violate("record-lost", f"no record of key {key} after {last['id']} finished")
            elif rec["args"] != (last["id"], last["script"]) or rec["fn"] != last["fn"]:
                w.violate("record-overwritten", f"key {key}: the record shows {rec['fn']}{rec['args']!r}, the last accepted schedule was {last['id']} ({last['fn']})")
            elif rec["state"] != ("completed" if ok else "failed"):
                w.violate("record-state", f"key {key}: {last['id']} ended {'ok' if ok else 'failed'} but the record says {rec['state']}")
            elif rec["out"] != want:
                w.violate("record-result", f"key {key}: result of {last['id']} is {rec['out']!r}, expected {want!r}")

    def nontrivial(self, w: World) -> bool:
        return w.stats["waiting_replaced"] > 0


CHECK = C05()
