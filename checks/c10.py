"""Concurrency limits are never exceeded and waiters always proceed."""

import asyncio
from datetime import timedelta
from typing import Annotated, Any

from sim.net import Latency
from sim.world import World

from .flow import FlowCheck, body_factory


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import ConcurrencyLimit, CurrentExecution, Retry
    from docket.execution import Execution

    body = body_factory(w, node)
    lim = w.plan["limits"]

    async def whole(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(),
                    limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=lim["whole"])) -> Any:
        return await body(val, script, ex)

    async def byarg(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(),
                    limit: ConcurrencyLimit = ConcurrencyLimit("cust", max_concurrent=lim["byarg"])) -> Any:
        return await body(val, script, ex)

    async def noted(val: str, script: dict[str, Any], who: Annotated[Any, ConcurrencyLimit(lim["noted"])], ex: Execution = CurrentExecution(),
                    retry: Retry = Retry(attempts=3, delay=timedelta(seconds=0.4))) -> Any:
        return await body(val, script, ex)

    async def shared_a(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(),
                       limit: ConcurrencyLimit = ConcurrencyLimit("cust", lim["shared"], scope="both")) -> Any:
        return await body(val, script, ex)

    async def shared_b(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(),
                       limit: ConcurrencyLimit = ConcurrencyLimit("cust", lim["shared"], scope="both"), retry: Retry = Retry(attempts=2)) -> Any:
        return await body(val, script, ex)

    async def free(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    return [whole, byarg, noted, shared_a, shared_b, free]


def group(o: dict[str, Any]) -> str | None:
    fn = o["fn"]
    if fn == "whole":
        return "whole"
    if fn in ("byarg", "noted"):
        return f"{fn}/{o['cust']}"
    if fn.startswith("shared"):
        return f"shared/{o['cust']}"
    return None


MILD = ("crash", "crash_before", "crash_after", "lose_reply", "lose_request", "reset", "script_flush", "pause", "stall_before", "server_restart", "partition")


class C10(FlowCheck):
    id = "C10"
    title = "Concurrency limits are never exceeded and waiters always proceed"
    rule = (
        "Seeded adds, replaces and cancels of tasks under per-task, per-argument (default and annotated style) and scope-shared concurrency limits of 1-3, mostly more than fit, some with retries, on 1-3 workers with crashes at "
        "any command, lost messages, stalls, pub/sub drops and outages.  Judged: at every moment the number of bodies running per limit (dead workers' excluded; skipped when a stall may have outlived a lease), every accepted task "
        "ends (exactly once per attempt without faults), no waiter starts after its cancel or replacement was acknowledged, and in fault-free runs no waiter sits while its limit and all workers have room for more than a few polls, and no "
        "slot, waiter or safeguard key is left. Non-trivial: some task was parked."
    )
    weights = {"add": 1.0, "replace": 0.1, "cancel": 0.15}
    fns = {"whole": 1, "byarg": 1, "noted": 0.7, "shared_a": 0.7, "shared_b": 0.5, "free": 0.2}
    attempts = {"whole": 1, "byarg": 1, "noted": 3, "shared_a": 1, "shared_b": 2, "free": 1}
    make_tasks = staticmethod(make_tasks)
    n_ops = (3, 18)
    window = (0.5, 8.0)
    fault_prob = 0.6
    big_dur = 4.0
    redelivery = (1.5, 4.0)
    ttl_choices = [0, 60, 900, 900]
    tail = 12.0
    runs_quick = 350
    runs_thorough = 10000

    def gen(self, rng: Any, tier: str, idx: int) -> dict[str, Any]:
        self.reuse_keys = rng.choice([0.0, 0.0, 0.2, 0.5])
        self.mild = rng.random() < 0.6
        self.max_pause = self.max_outage = 0.5 if self.mild else 6.0
        return super().gen(rng, tier, idx)

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        plan["limits"] = {g: rng.choice([1, 1, 2, 3]) for g in ("whole", "byarg", "noted", "shared")}
        plan["mild"] = self.mild
        if self.mild:
            plan["faults"] = [f for f in plan["faults"] if f["kind"] in MILD]
        custs = rng.sample(["a", "b", 1], rng.choice([1, 1, 2]))
        seen: list[dict[str, Any]] = []
        for o in plan["ops"]:
            o["cust"] = rng.choice(custs)
            if o["op"] == "cancel":
                if seen:
                    o["key"] = rng.choice(seen[-4:])["key"]
                continue
            if o["op"] == "replace" and seen and rng.random() < 0.7:
                o["key"] = rng.choice(seen[-4:])["key"]
            seen.append(o)
            if rng.random() < 0.6:
                o["script"]["dur"] = round(rng.uniform(0.3, self.big_dur), 3)
            if o["op"] == "add" and rng.random() < 0.6:
                o["delay"] = 0
        return plan

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        if o["op"] == "cancel":
            await docket.cancel(o["key"])
            return "ok"
        when = None if o["delay"] == 0 and o["op"] == "add" else w.dt(w.now() + o["delay"])
        o["when"] = w.now() + o["delay"]
        f = docket.add if o["op"] == "add" else docket.replace
        ex = await f(fns[o["fn"]], when=when, key=o["key"])(o["id"], o["script"], o["cust"])
        return ex.disposition.value

    async def epilogue(self, w: World) -> None:
        r = w.redis
        w.left = sorted(k.decode() for k in list(r.data) if r.lookup(k) is not None and k not in r.expires and (b":concurrency:" in k or b"__safeguard__" in k))
        q = r.lookup(b"d:queue")
        w.left_queue = sorted(m.decode() for m in q.d) if q is not None else []

    # ---------------------------------------------------------------- judge

    def judge(self, w: World) -> None:
        starts, ends = self.starts(w), self.ends(w)
        lat = Latency(**w.plan["latency"]).max()
        calm = not w.plan["faults"]
        lims = w.plan["limits"]
        R = min(c["redelivery"] for c in w.plan["workers"].values())
        far = 10**9
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
        # how many run at once
        strict = w.plan["mild"] and lat < 0.5 and not any(f.get("for", 0) > R / 3 and not f["kind"].startswith("crash") for f in w.plan["faults"])
        running: dict[str, dict[int, dict[str, Any]]] = {}
        peak = 0
        busy: dict[str, dict[int, dict[str, Any]]] = {}
        spans: list[tuple[float, float, dict[str, int], bool]] = []
        last_t = 0.0
        for e in w.history:
            if e["ev"] in ("start", "end") and e["t"] > last_t:
                room = all(len(busy.get(n, {})) < c["concurrency"] for n, c in w.plan["workers"].items())
                spans.append((last_t, e["t"], {g: len(r) for g, r in running.items()}, room))
                last_t = e["t"]
            if e["ev"] == "start":
                busy.setdefault(e["node"], {})[e["sid"]] = e
                g = group(w.ops[e["key"]])
                if g is None:
                    continue
                r = running.setdefault(g, {})
                r[e["sid"]] = e
                peak = max(peak, len(r))
                limit = lims[g.split("/")[0]]
                if len(r) > limit and strict:
                    w.violate("limit-exceeded", f"{len(r)} tasks of {g} (limit {limit}) running at t={e['t']:.3f}: " + ", ".join(f"{x['key']}@{x['node']} since {x['t']:.3f}" for x in r.values()))
                    strict = False
            elif e["ev"] == "end":
                for d in list(running.values()) + list(busy.values()):
                    d.pop(e["sid"], None)
            elif e["ev"] in ("crash", "worker-died"):
                for d in list(running.values()) + list(busy.values()):
                    for s in [s for s, x in d.items() if x["node"] == e["node"]]:
                        d.pop(s)
        spans.append((last_t, w.now(), {}, True))
        parked = 0
        for o in w.ops.values():
            if o["op"] == "cancel":
                continue
            pubs = w.states(o["key"])
            parked += sum(1 for a, b in zip(pubs, pubs[1:]) if a[2]["state"] == "running" and b[2]["state"] == "scheduled" and "when" not in b[2])
            if o["status"] not in ("scheduled", "maybe"):
                continue
            evs = starts.get(o["id"], [])
            if not all(e["ok"] for e in evs):
                w.violate("wrong-call", f"{o['id']}: ran with another function, key or arguments")
            atts = [e["att"] for e in evs]
            if calm and lat < 0.3 and len(atts) != len(set(atts)):
                w.violate("ran-twice", f"{o['id']} ({o['fn']}, key {o['key']}): attempts started {atts} without any fault")
            for c in w.ops.values():
                if c is o or c["key"] != o["key"] or c["op"] == "add" or c["status"] not in ("ok", "scheduled") or o["ret"] > c["inv"]:
                    continue
                others = [p for p in w.ops.values() if p is not o and p is not c and p["key"] == o["key"] and p.get("inv", far) < c["ret"] and p.get("ret", far) > o["inv"]]
                for e in evs:
                    if e["seq"] <= c["ret"]:
                        continue
                    if c["op"] == "cancel":
                        st = [d["state"] for _, i, d in pubs if i <= c["ret"]]
                        bad = not others and st and st[-1] in ("cancelled", "scheduled", "queued")
                    else:
                        bad = calm and e["t"] > c["tret"] + 0.5 + 10 * lat
                    if bad:
                        w.violate("revived", f"{o['id']} (key {o['key']}) started at t={e['t']:.3f} though {c['op']} {c['id']} of its key was acknowledged at t={c['tret']:.3f} while it was waiting")
                        break
            # a waiter that could run must run
            if calm and lat < 0.2 and o["status"] == "scheduled" and not self.excused(w, o):
                g = group(o)
                since = max(o["tret"], o["when"])
                until = min([e["t"] for e in evs], default=w.settled_at)
                slack = 1.2 + 20 * lat + 2 * max(c["check"] + c["resolution"] for c in w.plan["workers"].values())
                idle = 0.0
                # a second cancel can interrupt the release after the first: then the lease has to run out
                twice = {c["key"] for c in w.ops.values() if c["op"] == "cancel" and any(d is not c and d["op"] == "cancel" and d["key"] == c["key"] for d in w.ops.values())}
                extra = 2.5 * max(c["redelivery"] for c in w.plan["workers"].values()) if twice else 0.0
                if any(e["t"] < until and w.ops[e["key"]]["key"] == o["key"] for e in w.history if e["ev"] == "start"):
                    continue  # an earlier run of its key holds its slot
                for a, b, counts, room in spans:
                    a, b = max(a, since), min(b, until)
                    if b <= a:
                        continue
                    if room and (g is None or counts.get(g, 0) < lims[g.split("/")[0]]):
                        idle += b - a
                        if idle > slack + extra:
                            w.violate("waiter-stalled", f"{o['id']} (key {o['key']}, {g}) waited from t={since:.3f} to t={until:.3f} though its limit had room for {idle:.2f}s up to t={b:.3f}")
                            break
                    else:
                        idle = 0.0
        for o in self.unfinished(w):
            pubs = w.states(o["key"])
            if not calm and any("Failed to resolve dependencies" in (d.get("error") or "") for _, _, d in pubs):
                continue  # losing Redis while entering the limit fails the task, visibly
            w.violate("lost-task", f"{o['op']} {o['id']} ({o['fn']}, key {o['key']}) was accepted but never ran to its final outcome")
        w.stats["parked"] = parked
        w.stats["peak"] = peak
        if calm and hasattr(w, "left"):
            if w.left or w.left_queue:
                w.violate("left-behind", f"{w.settled_at:.1f}: keys {w.left[:6]} and queue entries {w.left_queue[:6]} still there {self.tail}s after everything ended")

    def nontrivial(self, w: World) -> bool:
        return w.stats.get("parked", 0) > 0


CHECK = C10()
