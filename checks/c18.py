"""The worker registry reflects who is alive."""

from __future__ import annotations

from datetime import timedelta
from typing import Any

from sim.net import Latency
from sim.world import World

from .flow import FlowCheck, body_factory

BUILTIN = {"trace", "fail", "sleep"}
NAMES = ["common", "alpha", "beta", "gamma", "delta"]


def make_all(w: World, node: str) -> dict[str, Any]:
    from docket import CurrentExecution
    from docket.execution import Execution

    body = body_factory(w, node)

    async def common(val: str, script: dict[str, Any], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    out = {"common": common}
    for n in NAMES[1:]:

        async def other(val: str) -> None: ...

        other.__name__ = other.__qualname__ = n
        out[n] = other
    return out


def make_tasks(w: World, node: str) -> list[Any]:
    fns = make_all(w, node)
    if node in w.plan["workers"]:
        w.knows[node] = set(w.plan["workers"][node]["knows"])
        return [fns[n] for n in w.plan["workers"][node]["knows"]]
    return list(fns.values())


class C18(FlowCheck):
    id = "C18"
    title = "The worker registry reflects who is alive"
    rule = (
        "1-4 workers with different sets of tasks, some registering more later, that start late, drain and stop, crash and come back (a third of the runs also with connection faults and stalls), heartbeating at seeded intervals while clients list workers and look them up by task. Judged per answer: a worker that has been up and reachable for a heartbeat interval is listed with exactly the tasks it knows and a fresh last_seen, "
        "one that has stopped gracefully isn't, one that crashed isn't beyond the allowed number of missed heartbeats; looking up a task gives exactly the listed workers that know it. Non-trivial: somebody was listed and somebody had left."
    )
    weights = {"add": 0.3, "workers": 1.5, "tw": 1.2, "register": 0.25}
    fns = {"common": 1.0}
    attempts = {"common": 1}
    n_ops = (8, 40)
    window = (4.0, 25.0)
    fault_prob = 0.85
    ttl_choices = [900]
    client_faults = False
    runs_quick = 300
    runs_thorough = 8000
    make_tasks = staticmethod(make_tasks)

    def docket_kwargs(self, plan: dict[str, Any]) -> dict[str, Any]:
        return {"heartbeat_interval": timedelta(seconds=plan["hb"]), "missed_heartbeats": plan["missed"]}

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        plan["hb"] = rng.choice([0.3, 1.0, 2.0])
        plan["missed"] = rng.choice([2, 3, 5])
        span = max(o["t"] for o in plan["ops"])
        for name, c in plan["workers"].items():
            c["knows"] = ["common"] + sorted(rng.sample(NAMES[1:], rng.randint(0, 3)))
            if rng.random() < 0.25:
                c["start"] = round(rng.uniform(0.2, span / 2), 2)
        for o in plan["ops"]:
            if o["op"] == "tw":
                o["task"] = rng.choice(NAMES)
            if o["op"] == "register":
                o["w"], o["task"] = rng.choice(list(plan["workers"])), rng.choice(NAMES)
        mode = rng.choice(["crash", "crash", "pause", "all"])
        if mode in ("crash", "pause"):
            plan["faults"] = [f for f in plan["faults"] if f["kind"].startswith("crash")]
            for _ in range(rng.randint(0, 3)):
                plan["faults"].append({"t": round(rng.uniform(0.5, span), 3), "kind": "sigterm", "node": rng.choice(list(plan["workers"])), "for": round(rng.uniform(0.5, 10), 2)})
            if mode == "pause":
                # somebody misses a heartbeat or two, but not as many as are allowed
                plan["missed"] = max(3, plan["missed"])
                for _ in range(rng.randint(1, 4)):
                    f = {"t": round(rng.uniform(1, span), 3), "kind": "pause", "node": rng.choice(list(plan["workers"])), "for": round(plan["hb"] * rng.uniform(0.7, plan["missed"] - 0.5), 2)}
                    plan["faults"].append(dict(f, **{"for": min(f["for"], 4.0)}))
            plan["faults"].sort(key=lambda f: f["t"])
        plan["exact"] = mode == "crash"
        return plan

    async def main(self, world: World) -> None:
        world.knows = {}
        world.known_since = {}
        await super().main(world)

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        if o["op"] in ("workers", "tw"):
            o["i0"], o["t0"] = len(w.history), w.now()
            r = await (docket.workers() if o["op"] == "workers" else docket.task_workers(o["task"]))
            o["i1"], o["t1"] = len(w.history), w.now()
            o["saw"] = [(x.name, x.last_seen.timestamp() - w.wall() + w.now(), sorted(x.tasks)) for x in r]
            o["knew"] = {n: set(k) for n, k in w.knows.items()}
            return "ok"
        if o["op"] == "register":
            p = w.procs.get(o["w"])
            if p is not None and p.up and p.docket is not None and not p.node.dead:
                p.docket.register(make_all(w, o["w"])[o["task"]])
                w.knows[o["w"]].add(o["task"])
                w.known_since[o["w"], o["task"]] = w.now()
                w.event("register", node=o["w"], task=o["task"])
            return "ok"
        return await super().do_op(w, c, docket, fns, handles, o)

    def judge(self, w: World) -> None:
        plan = w.plan
        lat = Latency(**plan["latency"]).max()
        hb, allowed = plan["hb"], plan["hb"] * plan["missed"]
        slack = 0.3 + 12 * lat
        conn = [(f["t"], f["t"] + f.get("for", 0)) for f in plan["faults"] if not f["kind"].startswith("crash") and f["kind"] != "sigterm"]
        kinds = [f["kind"] for f in plan["faults"] if not f["kind"].startswith("crash") and f["kind"] != "sigterm"]
        listed = left = 0
        life: dict[str, list[tuple[int, float, str]]] = {n: [] for n in plan["workers"]}
        for i, e in enumerate(w.history):
            if e.get("node") in life and e["ev"] in ("worker-up", "sigterm", "worker-exit", "worker-died", "crash"):
                life[e["node"]].append((i, e["t"], e["ev"]))
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
            if "saw" not in o:
                continue
            what = "workers()" if o["op"] == "workers" else f"task_workers({o['task']})"
            names = [n for n, _, _ in o["saw"]]
            if len(names) != len(set(names)):
                w.violate("listed-twice", f"{what} at t={o['t0']:.3f} listed {names}")
            saw = {n: (seen, tasks) for n, seen, tasks in o["saw"]}
            for n in saw:
                if n not in life:
                    w.violate("invented", f"{what} at t={o['t0']:.3f} listed {n}, which never existed")
            calm = not any(a <= o["t1"] and o["t0"] <= b + allowed + hb + 12 + 20 * lat for a, b in conn)
            # a worker that has only just been stalled had sent a heartbeat before, which still counts
            grace = o["t1"] - (allowed - hb - slack)
            alike = not any(a <= o["t1"] and o["t0"] <= b + allowed + hb + 12 + 20 * lat and not (kind == "pause" and a >= grace) for (a, b), kind in zip(conn, kinds))
            for n, evs in life.items():
                before = [x for x in evs if x[0] < o["i0"]]
                during = [x for x in evs if o["i0"] <= x[0] <= o["i1"] + 2]
                last = before[-1] if before else (0, 0.0, "never")
                knows = o["knew"].get(n, set())
                fresh = {t for (m, t), since in w.known_since.items() if m == n and since > o["t0"] - hb - slack}
                relevant = o["op"] == "workers" or (o["task"] in knows and o["task"] not in fresh)
                if n in saw:
                    listed += 1
                    seen, tasks = saw[n]
                    if last[2] == "never" and not during:
                        w.violate("ghost", f"{what} at t={o['t0']:.3f} listed {n}, which hasn't been started yet")
                    if last[2] in ("worker-exit",) and not during and calm and last[1] < o["t0"] - 1e-6:
                        w.violate("ghost", f"{what} at t={o['t0']:.3f} listed {n}, which stopped gracefully at t={last[1]:.3f}")
                    if last[2] == "crash" and not during and o["t0"] > last[1] + allowed + slack:
                        w.violate("ghost", f"{what} at t={o['t0']:.3f} listed {n}, which crashed at t={last[1]:.3f} (heartbeats every {hb}s, {plan['missed']} may be missed)")
                    if seen > o["t1"] + 1e-3 or seen < o["t0"] - allowed - 0.01:
                        w.violate("stale", f"{what} at t={o['t0']:.3f} said that {n} was last seen at t={seen:.3f}")
                    steady = last[2] == "worker-up" and not during and calm
                    if steady and seen < o["t0"] - hb - slack and o["t0"] > last[1] + hb + slack:
                        w.violate("stale", f"{what} at t={o['t0']:.3f} said that {n} was last seen at t={seen:.3f}, more than a heartbeat of {hb}s ago")
                    if steady and o['t1'] < seen + allowed - 1e-3 and not (knows - fresh <= set(tasks) <= knows | BUILTIN | fresh):
                        w.violate("wrong-tasks", f"{what} at t={o['t0']:.3f} said that {n} knows {tasks}; it knows {sorted(knows)}")
                    if o["op"] == "tw" and o["task"] not in knows and steady and (len(before) == 1 or o["t0"] > last[1] + allowed + slack):
                        w.violate("wrong-worker", f"{what} at t={o['t0']:.3f} listed {n}, which knows only {sorted(knows)}")
                elif relevant and (calm or alike and last[1] < grace - hb - slack) and allowed > hb + 2 * lat + 0.2 and last[2] == "worker-up" and not during and o["t0"] > last[1] + 0.05 + slack:
                    w.violate("missing", f"{what} at t={o['t0']:.3f} didn't list {n}, up since t={last[1]:.3f}")
                if last[2] in ("worker-exit", "crash"):
                    left += 1
        for o in self.unfinished(w):
            w.violate("gave-up", f"{o['id']} ({o['fn']}) never reached its final outcome")
        w.stats.update(listed=listed, left=left)

    def nontrivial(self, w: World) -> bool:
        return w.stats["listed"] > 0 and w.stats["left"] > 0


CHECK = C18()
