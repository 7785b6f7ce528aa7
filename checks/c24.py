"""Snapshots are accurate."""

from __future__ import annotations

from typing import Any

from sim.net import Latency
from sim.world import World

from .flow import FlowCheck

WAITING = ("scheduled", "queued")
TERMINAL = ("completed", "failed", "cancelled")


class C24(FlowCheck):
    id = "C24"
    title = "Snapshots are accurate"
    rule = (
        "Clients add, replace, cancel and re-add tasks, at once and later, while 0-3 workers (some starting late, some much too small for the work) run and retry them, and take snapshots all along, with crashes, stalls and connection faults in half of the runs. "
        "Judged: every snapshot returns within a bound and lists nothing but real tasks that had been scheduled and had not ended, each under its own key, function, arguments, due and start time; one taken while nothing changed lists exactly the waiting tasks as future and the running ones as running, under the worker that runs them, with the right total. Non-trivial: snapshots were taken in which something waited or ran."
    )
    weights = {"add": 1.0, "replace": 0.1, "cancel": 0.1, "snap": 0.8}
    fns = {"job": 0.6, "rjob": 0.3, "r0job": 0.1}
    n_ops = (8, 40)
    window = (3.0, 20.0)
    reuse_keys = 0.25
    fault_prob = 0.5
    ttl_choices = [0, 60, 900]
    big_dur = 8.0
    runs_quick = 300
    runs_thorough = 8000

    def directed(self) -> list[dict[str, Any]]:
        """Many tasks: first all waiting, then all (or many) running at once."""
        out = []
        for n, conc in ((230, 300), (430, 150)):
            ops = [{"op": "add", "c": f"c{i % 3}", "t": 0.3, "id": f"s{i}", "key": f"k{i}", "fn": "job", "delay": 0 if i % 10 else 60, "script": {"dur": 25.0, "fails": 0}} for i in range(n)]
            ops += [{"op": "snap", "c": "snapper", "t": t, "id": f"n{t}", "key": "snap"} for t in (8.0, 22.0, 23.0)]
            out.append({"latency": {"kind": "const", "scale": 1.0}, "resp2": False, "ttl": 60, "faults": [], "skews": {}, "max_steps": 3_000_000, "ops": ops,
                        "workers": {"w0": {"concurrency": conc, "redelivery": 4.0, "check": 0.1, "resolution": 0.1, "reconnect": 0.5, "start": 12.0}}})
        return out

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        span = max(o["t"] for o in plan["ops"])
        if rng.random() < 0.3:
            s = round(rng.uniform(0.5, span), 2)
            for c in plan["workers"].values():
                c["start"] = s
        if rng.random() < 0.4:
            for c in plan["workers"].values():
                c["concurrency"] = 1
        if rng.random() < 0.5:
            for o in plan["ops"]:
                if o["op"] == "snap":
                    o["c"] = "snapper"
        return plan

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        if o["op"] != "snap":
            return await super().do_op(w, c, docket, fns, handles, o)
        o["i0"], o["t0"], o["p0"] = len(w.history), w.now(), len(w.pub)
        s = await docket.snapshot()
        o["i1"], o["t1"], o["p1"] = len(w.history), w.now(), len(w.pub)

        def t(d: Any) -> float:
            return d.timestamp() - w.wall() + w.now()

        o["future"] = [(x.key, x.function_name, tuple(x.args), t(x.when), x.attempt) for x in s.future]
        o["running"] = [(x.key, x.function_name, tuple(x.args), t(x.when), x.attempt, x.worker, t(x.started)) for x in s.running]
        o["total"], o["names"] = s.total_tasks, [x.name for x in s.workers]
        return "ok"

    def judge(self, w: World) -> None:
        plan = w.plan
        lat = Latency(**plan["latency"]).max()
        calm = not plan["faults"] and lat < 0.2
        listed = quiet = 0
        keys = {o["key"] for o in w.ops.values() if o["op"] in ("add", "replace")}
        hist = {k: w.states(k) for k in keys}
        chan = {f"d:state:{k}" for k in keys}
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
            if o["op"] != "snap":
                continue
            if calm and o.get("tret") and o["tret"] > o["tinv"] + 1.0 + 40 * lat + 6 * lat * len(w.ops):
                w.violate("slow", f"snapshot {o['id']} took {o['tret'] - o['tinv']:.3f}s")
            if "total" not in o:
                continue
            where = f"snapshot at t={o['t0']:.3f}"
            entries = [("future", *e) for e in o["future"]] + [("running", *e[:5]) for e in o["running"]]
            listed += len(entries)
            for kind, key, fn, args, when, att in entries:
                p = w.ops.get(args[0]) if args else None
                if p is None or p["op"] not in ("add", "replace") or p["key"] != key or p["fn"] != fn or args[1] != p["script"] or p["status"] is None or p["inv"] > o["i1"]:
                    w.violate("invented", f"{where} lists {fn}{args}{{{key}}} as {kind}, which nobody had scheduled")
                    continue
                if att == 1 and abs(when - p["when"]) > 2e-3 + abs(plan["skews"].get(p["c"], 0)) and not (p["delay"] == 0 and p["op"] == "add" and p["tinv"] - 1e-3 <= when <= (p["tret"] if p.get("tret") else when) + 1e-3):
                    w.violate("wrong-time", f"{where} says that {p['id']} is due at t={when:.3f}; it was scheduled for t={p['when']:.3f}")
                if not 1 <= att <= (self.attempts[fn] or 99):
                    w.violate("wrong-attempt", f"{where} lists attempt {att} of {p['id']}")
                others = [q for q in w.ops.values() if q is not p and q["op"] in ("add", "replace") and q["key"] == key and q["status"] not in (None,)]
                if not others:
                    end = [t for t, i, s in hist[key] if s["state"] in TERMINAL and i < o["i0"]]
                    if end and calm and end[-1] < o["t0"] - 1e-6 and not any(s["state"] not in TERMINAL and t >= end[-1] and i <= o["i1"] for t, i, s in hist[key]):
                        w.violate("ended", f"{where} lists {p['id']} as {kind}; it ended at t={end[-1]:.3f}")
            bodies: dict[int, dict[str, Any]] = {}
            for e in w.history[: o["i0"]]:
                if e["ev"] == "start":
                    bodies[e["sid"]] = e
                elif e["ev"] == "end":
                    bodies.pop(e["sid"], None)
                elif e["ev"] == "crash":
                    bodies = {k: b for k, b in bodies.items() if b["node"] != e["node"]}
            # when did this run (of a task that only ever was scheduled once) start?
            for key, fn, args, when, att, worker, started in o["running"]:
                mine = [b for b in bodies.values() if b["key"] == args[0]]
                over = {e["sid"] for e in w.history[: o["i1"] + 1] if e["ev"] == "end"}
                mine = [b for b in mine if b["sid"] not in over]
                again = any(q["op"] == "replace" and q["key"] == key and q["status"] is not None for q in w.ops.values())
                if len(mine) == 1 and calm and not again and mine[0]["node"] == worker and mine[0]["att"] == att:
                    if abs(started - mine[0]["t"]) > 0.05 + 6 * lat:
                        w.violate("wrong-start", f"{where} says that {args[0]} was started at t={started:.3f}; it was at t={mine[0]['t']:.3f}")
                if worker not in plan["workers"]:
                    w.violate("invented", f"{where} says that {args[0]} runs on {worker}")
            for n in o["names"]:
                if n not in plan["workers"]:
                    w.violate("invented", f"{where} lists worker {n}")
            # nothing changed meanwhile (or just before, or is about to)?
            gap = 0.3 + 6 * lat
            busy = [e for e in w.history if o["t0"] - gap <= e["t"] <= o["t1"] + gap and not (e["ev"] in ("inv", "ret") and e.get("op") == "snap") and e["ev"] not in ("resume",)]
            moves = [t for t, _, c, _ in w.pub if c in chan and o["t0"] - gap <= t <= o["t1"] + gap]
            down = any(f["t"] - 1 <= o["t1"] and o["t0"] <= f["t"] + f.get("for", 6.0) + 8 for f in plan["faults"])
            if busy or moves or down:
                continue
            quiet += 1
            replaced = {q["key"] for q in w.ops.values() if q["op"] == "replace" and q["status"] is not None}
            waiting = set()
            for k in keys - replaced:
                states = [s["state"] for t, i, s in hist[k] if t <= o["t0"]]
                if states and states[-1] in WAITING:
                    waiting.add(k)
            future = [e[0] for e in o["future"] if e[0] not in replaced]
            if sorted(future) != sorted(waiting):
                w.violate("wrong-future", f"{where}, while nothing changed, lists {sorted(future)} as future; {sorted(waiting)} were waiting")
            running = sorted((e[2][0], e[5]) for e in o["running"] if e[0] not in replaced)
            real = sorted((b["key"], b["node"]) for b in bodies.values() if b["tkey"] not in replaced)
            if not plan["faults"] and running != real:
                w.violate("wrong-running", f"{where}, while nothing changed, lists {running} as running; {real} were")
            if o["total"] != len(o["future"]) + len(o["running"]):
                w.violate("wrong-total", f"{where}, while nothing changed, counts {o['total']} tasks but lists {len(o['future'])} + {len(o['running'])}")
        for o in self.unfinished(w):
            w.violate("gave-up", f"{o['id']} ({o['fn']}) never reached its final outcome")
        w.stats.update(listed=listed, quiet=quiet)

    def nontrivial(self, w: World) -> bool:
        return w.stats["listed"] > 0


CHECK = C24()
