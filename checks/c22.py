"""Scattered agendas place every task inside the window."""

from __future__ import annotations

from datetime import datetime, timedelta
from typing import Any
from zoneinfo import ZoneInfo

from sim.net import Latency
from sim.world import World

from .flow import FlowCheck


class C22(FlowCheck):
    id = "C22"
    title = "Scattered agendas place every task inside the window"
    rule = (
        "Clients scatter agendas of 1-8 tasks (functions and names, own and generated keys, stable keys that collide, unknown names) over seeded windows that start now, later, in the past or around a change of the clocks, with and without jitter, beside ordinary adds and workers, under crashes, stalls and connection faults. "
        "Judged: the returned executions are the agenda's tasks in its order, each at its even place in the window give or take the jitter and not before the window; each of them runs exactly once (at least once under faults), not before its time, with its own arguments; an entry with an unknown name or an empty window raises and schedules nothing; "
        "what was scheduled before a failed scatter raised still runs. Non-trivial: an agenda was scattered and its tasks ran."
    )
    weights = {"add": 0.4, "scatter": 1.0}
    fns = {"job": 0.7, "rjob": 0.3}
    n_ops = (2, 8)
    window = (1.0, 8.0)
    runs_quick = 300
    runs_thorough = 8000
    fault_prob = 0.6
    ttl_choices = [0, 900]

    def gen_op(self, rng: Any, i: int, t: float, clients: list[str], keys: list[str], fns: list[str]) -> dict[str, Any]:
        o = super().gen_op(rng, i, t, clients, keys, fns)
        if o["op"] == "scatter":
            n = rng.choice([1, 1, 2, 3, 5, 8])
            o["over"] = rng.choice([0.5, 2.0, 5.0, 7.3])
            o["start"] = rng.choice([None, None, 0.0, 1.5, -3.0])
            o["jitter"] = rng.choice([None, None, 0.1, 1.0, 10.0])
            o["entries"] = []
            for j in range(n):
                r = rng.random()
                o["entries"].append({
                    "id": f"s{i}e{j}", "fn": rng.choice(fns), "by": rng.choice(["function", "name", "late"]),
                    "key": None if r < 0.3 else (f"stable{rng.randint(0, 2)}" if r < 0.4 else f"k{i}e{j}"),
                    "script": {"dur": rng.choice([0.0, 0.05, 0.5]), "fails": 0},
                })
            r = rng.random()
            if r < 0.08:
                rng.choice(o["entries"])["by"] = "unknown"
            elif r < 0.12:
                o["over"] = rng.choice([0.0, -1.0])
            o["twice"] = rng.random() < 0.15  # scatter the same agenda again
        return o

    async def main(self, world: World) -> None:
        world.entries = {}
        world.scatters = []
        await super().main(world)

    def all_schedules(self, w: World) -> list[dict[str, Any]]:
        return [o for o in w.ops.values() if o["op"] == "add"]

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        if o["op"] != "scatter":
            return await super().do_op(w, c, docket, fns, handles, o)
        from docket.agenda import Agenda

        agenda = Agenda()
        bad = o["over"] <= 0
        for e in o["entries"]:
            if e["by"] == "unknown":
                bad = True
                agenda.add("no_such_task", key=e["key"])(e["id"], e["script"])
            else:
                agenda.add(fns[e["fn"]] if e["by"] != "name" else e["fn"], key=e["key"])(e["id"], e["script"])
        for round_ in range(2 if o["twice"] else 1):
            s: dict[str, Any] = {"op": o, "round": round_, "i0": len(w.history), "t0": w.now(), "bad": bad}
            w.scatters.append(s)
            for e in o["entries"]:
                w.ops.setdefault(e["id"], {"op": "add", "id": e["id"], "c": c, "fn": e["fn"], "script": e["script"], "t": o["t"], "delay": 0.0,
                                           "inv": len(w.history), "tinv": w.now(), "key": e["key"], "status": "pending", "scatter": True})
            start = None if o["start"] is None else w.dt(w.now() + o["start"])
            s["base"] = w.now() + (o["start"] or 0.0)
            try:
                r = await agenda.scatter(
                    docket, over=timedelta(seconds=o["over"]), start=start, jitter=None if o["jitter"] is None else timedelta(seconds=o["jitter"])
                )
            except Exception as e:
                s["raised"] = type(e).__name__
                s["i1"], s["t1"] = len(w.history), w.now()
                if bad and isinstance(e, (KeyError, ValueError)):
                    continue
                raise
            s["i1"], s["t1"] = len(w.history), w.now()
            s["got"] = [(x.key, x.function_name, tuple(x.args), x.when.timestamp() - w.wall() + w.now(), x.disposition.value) for x in r]
            for (key, _, _, when, disp), e in zip(s["got"], o["entries"]):
                p = w.ops[e["id"]]
                p.setdefault("ret", len(w.history))
                p.setdefault("tret", w.now())
                if disp == "scheduled":
                    p["status"] = "scheduled"
                    p["key"] = key
                    p.setdefault("whens", []).append(when)
                elif p["status"] == "pending":
                    p["status"] = disp
        return "ok"

    async def epilogue(self, w: World) -> None:
        far = w.plan.get("far")
        if not far:
            return

        async def place() -> None:
            from docket.agenda import Agenda

            docket = await w.open_docket("z0", **self.docket_kwargs(w.plan))
            job = self.make_tasks(w, "z0")[0]
            docket.register(job)
            agenda = Agenda()
            for i in range(far["n"]):
                agenda.add(job)(f"far{i}", {})
            start = datetime.fromtimestamp(far["at"], ZoneInfo(far["zone"]))
            r = await agenda.scatter(docket, over=timedelta(seconds=far["over"]), start=start)
            for i, x in enumerate(r):
                want = far["at"] + (far["over"] / 2 if far["n"] == 1 else far["over"] * i / (far["n"] - 1))
                if abs(x.when.timestamp() - want) > 1e-3:
                    w.violate("misplaced", f"of {far['n']} tasks over {far['over']}s from {start} number {i} is due {x.when.timestamp() - want:+.0f}s from its place, at {x.when}")
                await docket.cancel(x.key)
            await docket.__aexit__(None, None, None)

        await w.run_on("z0", place())

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        if rng.random() < 0.3:
            # far ahead, around the hours in which the clocks change somewhere
            zone, change = rng.choice([("Europe/Berlin", 1774746000), ("Europe/Berlin", 1792890000), ("America/New_York", 1772953200), ("Australia/Lord_Howe", 1775314800), ("UTC", 1774746000), ("Asia/Kolkata", 1774746000)])
            over = rng.choice([600.0, 7200.0, 14400.0, 86400.0])
            plan["far"] = {"zone": zone, "at": change - round(rng.uniform(-0.2, 1.2) * over), "over": over, "n": rng.choice([1, 2, 5, 9])}
        return plan

    def pending(self, w: World) -> Any:
        return self.unfinished(w) or [o for o in w.ops.values() if o.get("whens") and w.now() < max(o["whens"]) + 1]

    def excused(self, w: World, o: dict[str, Any]) -> bool:
        return False

    def judge(self, w: World) -> None:
        plan = w.plan
        lat = Latency(**plan["latency"]).max()
        calm = not plan["faults"] and lat < 0.2
        starts = self.starts(w)
        done = 0
        for s in w.scatters:
            o = s["op"]
            n = len(o["entries"])
            if "got" not in s:
                if s["bad"] and s.get("raised"):
                    for e in o["entries"]:
                        if starts.get(e["id"]):
                            w.violate("scheduled-anyway", f"{o['id']} raised {s['raised']} (an unknown task or an empty window), yet {e['id']} was started")
                continue
            if s["bad"]:
                w.violate("accepted", f"{o['id']} (over {o['over']}s, entries {[e['by'] for e in o['entries']]}) did not raise")
                continue
            got = s["got"]
            if len(got) != n:
                w.violate("wrong-number", f"{o['id']} scattered {n} tasks and returned {len(got)}")
            for j, ((key, fn, args, when, disp), e) in enumerate(zip(got, o["entries"])):
                if disp == "scheduled":
                    done += 1
                if fn != e["fn"] or args[0] != e["id"] or (e["key"] and key != e["key"]):
                    w.violate("wrong-task", f"{o['id']} returned {fn}{args}{{{key}}} in place {j}, for {e['fn']}({e['id']}){{{e['key']}}}")
                if disp not in ("scheduled", "already_scheduled"):
                    w.violate("wrong-disposition", f"{o['id']}: {e['id']} is {disp}")
                if disp == "already_scheduled" and not (e["key"] and (e["key"].startswith("stable") or s["round"] > 0 or plan["faults"])):
                    w.violate("wrong-disposition", f"{o['id']}: {e['id']} ({e['key']}) is said to exist already")
                place = s["base"] + (o["over"] / 2 if n == 1 else o["over"] * j / (n - 1))
                slack = 1e-3 + (abs(plan["skews"].get(o["c"], 0.0)))
                jit = o["jitter"] or 0.0
                pause = 0.001 if o["start"] is not None else s["t1"] - s["t0"]
                if not place - jit - slack <= when <= place + jit + slack + pause:
                    w.violate("misplaced", f"{o['id']} placed task {j} of {n} at t={when:.3f}; over {o['over']}s from t={s['base']:.3f} with a jitter of {jit}s it belongs at t={place:.3f}")
                if when < s["base"] - slack:
                    w.violate("before-window", f"{o['id']} placed task {j} at t={when:.3f}, before its window starts at t={s['base']:.3f}")
            if o["jitter"] and o["jitter"] >= 1 and n >= 5 and all(abs(g[3] - (s["base"] + o["over"] * j / (n - 1))) < 1e-3 for j, g in enumerate(got)):
                w.violate("no-jitter", f"{o['id']} asked for a jitter of {o['jitter']}s and got none")
        for o in w.ops.values():
            if not o.get("scatter"):
                if o["status"] == "error":
                    w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
                continue
            ss = starts.get(o["id"], [])
            for s_ in ss:
                if not s_["ok"] and s_["fn"] != o["fn"]:
                    w.violate("wrong-task", f"{o['id']} ran as {s_['fn']}")
                if o.get("whens") and s_["t"] < min(o["whens"]) - 2e-3 - max([abs(x) for x in plan["skews"].values()] or [0]):
                    w.violate("early", f"{o['id']} was placed at t={min(o['whens']):.3f} and started at t={s_['t']:.3f}")
            firsts = [x for x in ss if x["att"] == 1]
            if calm and o["status"] != "pending" and len(firsts) != len(o.get("whens", [])):
                w.violate("wrong-count", f"{o['id']} was scheduled {len(o.get('whens', []))} times and started {len(firsts)} times")
        for o in self.unfinished(w):
            w.violate("gave-up", f"{o['id']} ({o['fn']}) never reached its final outcome")
        w.stats.update(done=done)

    def nontrivial(self, w: World) -> bool:
        return w.stats["done"] > 0


CHECK = C22()
