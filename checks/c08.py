"""A perpetual task is one unbroken chain."""

import asyncio
from datetime import datetime, timedelta, timezone
from typing import Any

from sim.net import Latency
from sim.world import World, sleep_until

from .base import gen_faults
from .flow import FlowCheck


class Oops(Exception):
    pass


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import CurrentExecution, Perpetual, Retry, Timeout
    from docket.execution import Execution

    s = lambda x: timedelta(seconds=x)  # noqa: E731
    every = w.plan["every"]

    async def body(chain: str, n: int, script: dict[str, Any], ex: Any, perp: Any) -> Any:
        w.sid = getattr(w, "sid", 0) + 1
        sid = w.sid
        op = w.ops.get(chain)
        w.event("start", node=node, key=chain, n=n, att=ex.attempt, sid=sid, fn=ex.function_name, tkey=ex.key, redel=bool(ex.redelivered),
                ok=bool(op and op["script"] == script and op["fn"] == ex.function_name and op["key"] == ex.key))
        out = "ok"
        try:
            what = script["do"][n % len(script["do"])]
            if script["count"]:
                perp.perpetuate(chain, n + 1, script)
            if script["stop"] and n >= script["stop"]:
                perp.cancel()
            elif what[0] == "after":
                perp.after(s(what[2]))
            elif what[0] == "at":
                perp.at(datetime.now(timezone.utc) + s(what[2]))
            if what[1]:
                await asyncio.sleep(what[1])
            if what[0] == "fail":
                out = "fail"
                raise Oops(chain, n)
        except asyncio.CancelledError:
            out = "cancelled"
            raise
        finally:
            w.event("end", node=node, key=chain, n=n, att=ex.attempt, sid=sid, out=out, what=what)
        return None

    async def tick(chain: str, n: int, script: dict[str, Any], ex: Execution = CurrentExecution(), perp: Perpetual = Perpetual(every=s(every["tick"]))) -> Any:
        return await body(chain, n, script, ex, perp)

    async def rtick(chain: str, n: int, script: dict[str, Any], ex: Execution = CurrentExecution(), perp: Perpetual = Perpetual(every=s(every["rtick"])),
                    retry: Retry = Retry(attempts=2, delay=s(0.2))) -> Any:
        return await body(chain, n, script, ex, perp)

    async def ttick(chain: str, n: int, script: dict[str, Any], ex: Execution = CurrentExecution(), perp: Perpetual = Perpetual(every=s(every["ttick"])),
                    t: Timeout = Timeout(s(0.5))) -> Any:
        return await body(chain, n, script, ex, perp)

    return [tick, rtick, ttick]


class C08(FlowCheck):
    id = "C08"
    title = "A perpetual task is one unbroken chain"
    rule = (
        "Seeded perpetual tasks (plain, with a retry policy, with a timeout; intervals 0-2 s, self-chosen delays and times, failing and overrunning runs, runs counting themselves through their arguments, some cancelling "
        "themselves) on 1-3 workers with crashes, stalls, lost messages and outages; some are replaced, cancelled or added again from outside at any moment.  Judged: a run starts only after its predecessor ended and never before its due "
        "time, fault-free runs start every link exactly once and punctually, every chain that should live makes progress for the whole final window with each link once, and no chain that was cancelled, "
        "replaced or cancelled itself goes on.  Non-trivial: some chain had at least three links."
    )
    make_tasks = staticmethod(make_tasks)
    weights = {"add": 1}
    fns = {"tick": 1, "rtick": 0.6, "ttick": 0.4}
    attempts = {"tick": 1, "rtick": 2, "ttick": 1}
    redelivery = (1.0, 3.0)
    fault_prob = 0.65
    runs_quick = 350
    runs_thorough = 10000

    def gen(self, rng: Any, tier: str, idx: int) -> dict[str, Any]:
        self.max_pause = self.max_outage = rng.choice([0.8, 3.0, 6.0])
        return super().gen(rng, tier, idx)

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        plan["every"] = {f: rng.choice([0.0, 0.3, 1.0, 2.0]) if f == "tick" else rng.choice([0.4, 1.0]) for f in self.fns}
        ops: list[dict[str, Any]] = []
        race = rng.random() < 0.5  # outside operations close to the ends of runs
        for k in range(rng.choice([1, 1, 2, 3])):
            t = rng.uniform(0.3, 3)
            fn = rng.choices(list(self.fns), list(self.fns.values()))[0]
            n = rng.choice([1, 1, 2, 3, 4])
            c = f"c{k}"
            for j in range(n):
                kind = "add" if j == 0 else rng.choice(["replace", "replace", "cancel", "cancel", "add"])
                o: dict[str, Any] = {"op": kind, "c": c, "t": round(t, 3), "id": f"s{len(ops)}", "key": f"k{k}", "race": race and j > 0}
                if kind != "cancel":
                    o["fn"] = fn = fn if rng.random() < 0.8 else rng.choice(list(self.fns))
                    o["delay"] = rng.choice([0, 0, round(rng.uniform(0.05, 2), 3)])
                    do = []
                    for _ in range(rng.randint(1, 4)):
                        what = rng.choices(["plain", "fail", "after", "at"], [5, 2, 1, 1])[0]
                        dur = rng.choice([0, 0, round(rng.uniform(0.01, 0.3), 3), round(rng.uniform(0.1, 1.5), 3)])
                        do.append([what, dur, round(rng.choice([rng.uniform(-0.5, 0.3), rng.uniform(0.1, 2.5)]), 3)])
                    for d in do:
                        # no spinning
                        if d[1] < 0.08 and ((d[2] < 0.08 and d[0] in ("after", "at")) or plan["every"][fn] == 0):
                            d[1] = 0.08
                    o["script"] = {"do": do, "count": rng.random() < 0.8, "stop": rng.choice([0, 0, 0, rng.randint(1, 6)])}
                    if not o["script"]["count"]:
                        o["script"]["stop"] = 0
                ops.append(o)
                t += rng.choice([rng.uniform(0.05, 0.5), rng.uniform(0.5, 5)])
        plan["ops"] = ops
        plan["faults"] = plan["faults"] and gen_faults(
            rng, 0.3, 14, rng.randint(1, 7), list(plan["workers"]), sorted({o["c"] for o in ops}) if rng.random() < 0.4 else [], None, self.max_pause, self.max_outage,
            args=sorted({o["key"] for o in ops}))
        gone = {f["node"] for f in plan["faults"] if f["kind"].startswith("crash")} & set(list(plan["workers"])[1:])
        if gone and rng.random() < 0.3:
            for f in plan["faults"]:
                if f.get("node") in gone and f["kind"].startswith("crash"):
                    f["gone"] = True
        plan["max_steps"] = 4_000_000
        return plan

    def bounds(self, plan: dict[str, Any]) -> tuple[float, float]:
        """How long recovery may take, and how long a link of a live chain may take."""
        red = max(c["redelivery"] for c in plan["workers"].values())
        link = max(plan["every"].values()) + 1.5 + 2.5 + 3.0
        return 12.0 + 3 * red + max(c["reconnect"] for c in plan["workers"].values()), 2 * link + 3.0

    async def until_settled(self, w: World) -> None:
        plan = w.plan
        heal, link = self.bounds(plan)
        await sleep_until(w, max([o["t"] + o.get("delay", 0) for o in plan["ops"]] + [f["t"] + f.get("for", 0) for f in plan["faults"]]))
        while any(not d and not w.node(c).dead for c, d in w.client_done.items()) and w.now() < 200:
            await asyncio.sleep(0.5)
        await sleep_until(w, max(w.last_fault, w.now()) + heal)
        w.window = w.now()
        await sleep_until(w, w.window + 2 * link)
        w.closed = w.now()

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        if o["race"]:
            # aim at the end of a run: wait for one, up to a second
            lim = w.now() + 1.0
            n = len(w.history)
            while w.now() < lim and not any(e["ev"] == "end" and e["t"] >= o["tinv"] for e in w.history[n:]):
                await asyncio.sleep(0.0005)
            o["tinv"] = w.now()
            o["inv"] = len(w.history)
        if o["op"] == "cancel":
            await docket.cancel(o["key"])
            return "ok"
        o["when"] = w.now() + o["delay"]
        when = None if o["delay"] == 0 and o["op"] == "add" else w.dt(o["when"])
        f = docket.add if o["op"] == "add" else docket.replace
        ex = await f(fns[o["fn"]], when=when, key=o["key"])(o["id"], 0, o["script"])
        return ex.disposition.value

    # ---------------------------------------------------------------- judge

    def judge(self, w: World) -> None:
        if not hasattr(w, "closed"):
            return
        lat = Latency(**w.plan["latency"]).max()
        calm = not w.plan["faults"] and lat < 0.2
        starts, ends = self.starts(w), self.ends(w)
        heal, link = self.bounds(w.plan)
        every = w.plan["every"]
        most = 0
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
        poll = max(c["check"] + c["resolution"] for c in w.plan["workers"].values())
        for cid, evs in starts.items():
            o = w.ops[cid]
            es = ends.get(cid, [])
            most = max(most, len(evs))
            if not all(e["ok"] for e in evs):
                w.violate("wrong-call", f"a link of {cid} ran with another function, key or script")
            if o["status"] == "already_scheduled" and evs:
                w.violate("refused-ran", f"{cid} was refused (already scheduled) but ran")
            if evs and evs[0]["t"] < o.get("when", 0) - 2e-5:
                w.violate("early-start", f"{cid} first started at t={evs[0]['t']:.4f}, due t={o['when']:.4f}")
            if not o["script"]["count"]:
                continue
            seen: dict[tuple[int, int], int] = {}
            for e in evs:
                n, att = e["n"], e["att"]
                seen[n, att] = seen.get((n, att), 0) + 1
                if att == 1 and n > 0:
                    prev = [x for x in es if x["n"] == n - 1 and x["out"] in ("ok", "fail") and x["seq"] < e["seq"]]
                    # a timeout shows as cancelled
                    prev += [x for x in es if o["fn"] == "ttick" and x["n"] == n - 1 and x["out"] == "cancelled" and x["seq"] < e["seq"]]
                    if not prev:
                        w.violate("unfounded-link", f"{cid} link {n} started at t={e['t']:.3f} but link {n - 1} had not finished")
                        continue
                    p = prev[0]
                    p0 = min(x["t"] for x in evs if x["sid"] == p["sid"])
                    what = p["what"]
                    if what[0] in ("after", "at"):
                        due = p0 + what[2]
                    else:
                        due = p0 + every[o["fn"]] - (1.0 if not calm else 0.005 + 12 * lat)
                    if e["t"] < due - 2e-5:
                        w.violate("early-link", f"{cid} link {n} started at t={e['t']:.4f}; its predecessor started at t={p0:.4f}, ended t={p['t']:.4f} ({what}), interval {every[o['fn']]}")
                    if calm:
                        # (a retried link's successor follows its last attempt)
                        p1 = max(prev, key=lambda x: x["t"])
                        due += min(x["t"] for x in evs if x["sid"] == p1["sid"]) - p0
                        late = max(p1["t"], due + 0.005 + 12 * lat) + 0.5 + 2 * poll + 25 * lat
                        busy = any(c["concurrency"] < 4 for c in w.plan["workers"].values())
                        if e["t"] > late + (3.0 * len({x["key"] for x in w.ops.values()}) if busy else 0):
                            w.violate("late-link", f"{cid} link {n} started at t={e['t']:.4f}; its predecessor started at t={p0:.4f}, ended t={p['t']:.4f} ({what}), interval {every[o['fn']]}")
                if calm and seen[n, att] > 1:
                    w.violate("doubled-link", f"{cid} link {n} (attempt {att}) started twice without any fault: a second chain")
                elif e["t"] > w.window and seen[n, att] > 1 and lat < 0.2:
                    first = [x for x in evs if (x["n"], x["att"]) == (n, att)][0]
                    if first["t"] > w.window - heal / 2:
                        w.violate("doubled-link", f"{cid} link {n} (attempt {att}) started at t={first['t']:.3f} and t={e['t']:.3f}, long after the last fault (t={w.last_fault:.1f}): a second chain")
        # who should be alive at the end
        for key in sorted({o["key"] for o in w.ops.values()}):
            ops = sorted((o for o in w.ops.values() if o["key"] == key and o["status"] is not None), key=lambda o: o["inv"])
            alive: dict[str, bool] = {}  # chain -> surely alive (else: maybe)
            stopped: dict[str, str] = {}

            def stop(cid: str, why: str) -> None:
                stopped[cid] = why
                alive.pop(cid, None)

            for o in ops:
                sure = o["status"] in ("scheduled", "ok")
                if o["status"] in ("already_scheduled", "error"):
                    continue
                if o["op"] == "cancel":
                    for cid in list(alive):
                        if sure:
                            stop(cid, f"cancel {o['id']} acknowledged at t={o['tret']:.3f}")
                        else:
                            alive[cid] = False
                elif o["op"] == "replace":
                    for cid in list(alive):
                        if sure:
                            stop(cid, f"replacement {o['id']} acknowledged at t={o['tret']:.3f}")
                        else:
                            alive[cid] = False
                    alive[o["id"]] = sure
                else:
                    # accepted: whatever was there had ended
                    alive[o["id"]] = sure and not alive
            for cid in list(alive):
                o = w.ops[cid]
                n = o["script"]["stop"]
                if n and any(e["n"] >= n and e["out"] in ("ok", "fail") for e in ends.get(cid, [])):
                    stop(cid, f"it cancelled itself in link {n}")
            for cid, why in stopped.items():
                late = [e for e in starts.get(cid, []) if e["t"] > w.window]
                if late:
                    w.violate("undead-chain", f"chain {cid} (key {key}) still runs at t={late[0]['t']:.3f} (link {late[0]['n']}) though {why}")
            for cid in alive:
                if not alive[cid] or (w.ops[cid]["script"]["stop"]):
                    continue
                ts = [e["t"] for e in starts.get(cid, []) if e["t"] > w.window]
                gaps = [b - a for a, b in zip([w.window] + ts, ts + [w.closed])]
                if max(gaps) > link:
                    last = [e for e in starts.get(cid, [])][-1:]
                    w.violate("broken-chain", f"chain {cid} ({w.ops[cid]['fn']}, key {key}, every {every[w.ops[cid]['fn']]}s) made no step for {max(gaps):.1f}s before t={w.closed:.1f}; last start "
                              + (f"t={last[0]['t']:.3f} (link {last[0]['n']})" if last else "never") + f", last fault t={w.last_fault:.1f}")
        w.stats["links"] = most

    def nontrivial(self, w: World) -> bool:
        return w.stats.get("links", 0) >= 3


CHECK = C08()
