"""Automatic perpetual and cron tasks have exactly one live chain."""

import asyncio
from datetime import datetime, timedelta, timezone
from typing import Any
from zoneinfo import ZoneInfo

from sim.loop import EPOCH
from sim.net import Latency
from sim.world import World, sleep_until

from .base import gen_faults
from .flow import FlowCheck

HEAL = 150.0  # two reseeding periods (60 s), a lease, a lock (10 s) and slack


class Oops(Exception):
    pass


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import Cron, CurrentExecution, Perpetual, Retry
    from docket.execution import Execution

    s = lambda x: timedelta(seconds=x)  # noqa: E731
    p = w.plan["tasks"]

    async def body(name: str, ex: Any) -> None:
        w.sid = getattr(w, "sid", 0) + 1
        sid = w.sid
        k = w.counts[name] = w.counts.get(name, 0) + 1
        w.event("start", node=node, key=name, att=ex.attempt, sid=sid, tkey=ex.key, redel=bool(ex.redelivered), when=round(ex.when.timestamp() - EPOCH, 6), ok=not ex.args and not ex.kwargs)
        out = "ok"
        try:
            d = p[name]["durs"][k % len(p[name]["durs"])]
            if d:
                await asyncio.sleep(d)
            if p[name]["fail"] and k % p[name]["fail"] == 0:
                out = "fail"
                raise Oops(name)
        except asyncio.CancelledError:
            out = "cancelled"
            raise
        finally:
            w.event("end", node=node, key=name, sid=sid, out=out)

    async def auto(ex: Execution = CurrentExecution(), perp: Perpetual = Perpetual(every=s(p["auto"]["every"]), automatic=True)) -> None:
        await body("auto", ex)

    async def rauto(ex: Execution = CurrentExecution(), perp: Perpetual = Perpetual(every=s(p["rauto"]["every"]), automatic=True), retry: Retry = Retry(attempts=2, delay=s(0.5))) -> None:
        await body("rauto", ex)

    async def cron(ex: Execution = CurrentExecution(), perp: Cron = Cron(p["cron"]["expr"], tz=ZoneInfo(p["cron"]["tz"]))) -> None:
        await body("cron", ex)

    async def manual(ex: Execution = CurrentExecution(), perp: Perpetual = Perpetual(every=s(1))) -> None:
        await body("manual", ex)

    tasks = [auto, rauto, cron, manual]
    if w.plan["workers"].get(node, {}).get("old"):
        return [manual]  # from before the others were written
    return tasks


class C09(FlowCheck):
    id = "C09"
    title = "Automatic perpetual and cron tasks have exactly one live chain"
    rule = (
        "1-4 workers starting together or one after the other, crashing, stalling, restarting, cut off and some of an older version that does not know the tasks, declare automatic perpetual tasks (one failing and retrying now and then) and a "
        "cron task with a seeded expression in a seeded timezone; clients cancel chains at any moment.  Judged over some simulated minutes: every automatic task runs without anyone adding it and, 150 s after "
        "the last disturbance, keeps its interval without gap and without a second chain; cron runs carry an occurrence of their expression, start punctually after it, no occurrence twice, and none is skipped in the quiet window; a "
        "perpetual task that is not automatic is never started.  Non-trivial: a chain had at least two runs."
    )
    make_tasks = staticmethod(make_tasks)
    redelivery = (2.0, 4.0)
    max_pause = 6.0
    max_outage = 6.0
    runs_quick = 110
    runs_thorough = 4000
    shrink_fields = ("ops", "faults")

    def gen(self, rng: Any, tier: str, idx: int) -> dict[str, Any]:
        plan = super().gen(rng, tier, idx)
        names = [f"w{i}" for i in range(rng.choice([1, 2, 2, 3, 4]))]
        red = round(rng.uniform(*self.redelivery), 2)
        together = rng.random() < 0.5
        plan["workers"] = {
            n: {"concurrency": rng.choice([1, 3, 10]) if rng.random() < 0.3 else 10, "redelivery": red, "check": 0.5, "resolution": 0.5, "reconnect": 1.0,
                "start": 0.0 if together else round(rng.uniform(0, 30), 2)} for n in names}
        plan["workers"][names[0]]["concurrency"] = 10
        old = None
        if len(names) > 1 and rng.random() < 0.4:
            old = names[-1]
            plan["workers"][old]["old"] = True
        plan["tasks"] = {
            "auto": {"every": rng.choice([1, 3, 7, 20]), "durs": [0, 0.3, 1.2][: rng.randint(1, 3)], "fail": rng.choice([0, 0, 3])},
            "rauto": {"every": rng.choice([2, 5]), "durs": [0.1, 0], "fail": rng.choice([0, 2, 3])},
            "manual": {"durs": [0], "fail": 0},
        }
        tz = rng.choice(["UTC", "UTC", "Asia/Kathmandu", "America/New_York"])
        off = int(datetime.fromtimestamp(EPOCH, ZoneInfo(tz)).utcoffset().total_seconds() // 60)
        mins = sorted(rng.sample(range(1, 12), rng.randint(2, 10)))
        if rng.random() < 0.3:
            expr, mins = ("* * * * *", list(range(60)))
        elif rng.random() < 0.2:
            expr, mins = ("*/2 * * * *", [m for m in range(60) if (m + off) % 2 == 0])
        else:
            hour = "*" if rng.random() < 0.6 else str((off // 60) % 24)
            expr = ",".join(str((m + off) % 60) for m in mins) + f" {hour} * * *"
        plan["tasks"]["cron"] = {"expr": expr, "tz": tz, "minutes": mins, "durs": [rng.choice([0, 0.2, 2.0])], "fail": rng.choice([0, 3])}
        t_end = rng.choice([20.0, 70.0, 150.0])
        ops = []
        for i in range(rng.choice([0, 0, 1, 2, 3])):
            ops.append({"op": "cancel", "c": "c0", "t": round(rng.uniform(0.3, t_end), 3), "id": f"s{i}", "key": rng.choice(["auto", "rauto", "cron", "cron"])})
        plan["ops"] = sorted(ops, key=lambda o: o["t"])
        plan["faults"] = []
        if rng.random() < 0.6:
            plan["faults"] = gen_faults(rng, 0.05, t_end, rng.randint(1, 6), names, [], None, self.max_pause, self.max_outage, args=["perpetual:lock", "auto", "cron"])
            if rng.random() < 0.5:  # during start-up
                for f in plan["faults"][:3]:
                    f["t"] = round(rng.uniform(0.0, 0.1), 4)
            plan["faults"].sort(key=lambda f: f["t"])
        if rng.random() < 0.3:
            # in the middle of starting (or restarting) the chains, with the lock held
            f = {"t": rng.choice([0.0, 0.0, 58.0]), "node": rng.choice(names), "kind": rng.choice(["crash_after", "crash_before", "stall_before", "lose_reply"]), "nth": 1}
            f["cmd"], f["arg"] = rng.choice([("SET", "perpetual:lock"), ("HGET", "runs:auto"), ("HGET", "runs:cron"), ("EVALSHA", "perpetual:lock"), ("EVALSHA", "runs:rauto")])
            if f["kind"].startswith("crash"):
                f["down"] = round(rng.uniform(0.1, 3.0), 2)
            if f["kind"] == "stall_before":
                f["for"] = round(rng.uniform(0.5, 15.0), 2)
            plan["faults"] = sorted(plan["faults"] + [f], key=lambda f: f["t"])
        if old:
            plan["old_until"] = round(plan["workers"][old]["start"] + rng.uniform(5, t_end + 5), 2)
        plan["max_steps"] = 6_000_000
        return plan

    async def main(self, world: World) -> None:
        world.counts = {}
        await super().main(world)

    def retire(self, w: World, name: str) -> None:
        p = w.procs[name]
        w.mark_fault()
        p.spec.autorestart = False
        p.start = lambda: None  # a restart planned by some fault comes to nothing
        if not p.node.dead:
            p.crash(None)

    async def until_settled(self, w: World) -> None:
        plan = w.plan
        for n, c in plan["workers"].items():
            if c.get("old"):
                w.at(plan["old_until"], self.retire, w, n)
        await sleep_until(w, plan.get("old_until", 0))
        await sleep_until(w, max([o["t"] for o in plan["ops"]] + [f["t"] + f.get("for", 0) for f in plan["faults"]] + [c["start"] for c in plan["workers"].values()] + [1.0]))
        while any(not d and not w.node(c).dead for c, d in w.client_done.items()):
            await asyncio.sleep(0.5)
        disturbed = bool(plan["ops"] or plan["faults"] or "old_until" in plan)
        w.window = max(w.last_fault, w.now()) + (HEAL if disturbed else 10.0)
        await sleep_until(w, w.window + 125.0)
        w.closed = w.now()

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        await docket.cancel(o["key"])
        return "ok"

    def judge(self, w: World) -> None:
        if not hasattr(w, "closed"):
            return
        lat = Latency(**w.plan["latency"]).max()
        p = w.plan["tasks"]
        starts = self.starts(w)
        calm = not w.plan["faults"] and "old_until" not in w.plan and lat < 0.2
        slack = 2.5 + 30 * lat
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
        if starts.get("manual"):
            w.violate("uninvited", "the perpetual task that is not automatic was started by nobody")
        w.stats["links"] = max((len(v) for v in starts.values()), default=0)
        for name in ("auto", "rauto", "cron"):
            evs = starts.get(name, [])
            if any(e["tkey"] != name or not e["ok"] for e in evs):
                w.violate("wrong-key", f"{name} ran under another key or with arguments")
            if name == "cron":
                continue
            every = p[name]["every"]
            if calm and not w.plan["ops"]:
                first = min(c["start"] for c in w.plan["workers"].values() if not c.get("old"))
                if not evs or evs[0]["t"] > first + 1 + 40 * lat + slack:
                    w.violate("never-seeded", f"{name}: no run by t={first + 1 + 40 * lat + slack:.1f} though workers are up since t={first}")
            # one chain, without gaps, in the quiet window
            begin = w.window if not calm or w.plan["ops"] else 0.0
            longest = max(p[name]["durs"]) + every + slack + (1.5 if name == "rauto" else 0)
            ts = [e for e in evs if e["t"] > w.window]
            marks = [w.window] + [e["t"] for e in ts] + [w.closed]
            for a, b in zip(marks, marks[1:]):
                if b - a > longest:
                    w.violate("chain-lost", f"{name} (every {every}s) had no run from t={a:.1f} to t={b:.1f}; last disturbance t={w.window - HEAL:.1f}")
                    break
            firsts = [e for e in evs if e["att"] == 1 and e["t"] > begin]
            for a, b in zip(firsts, firsts[1:]):
                if b["t"] - a["t"] < every - 0.05 - 12 * lat and not b["redel"] and lat < 0.2 and not any(
                    c["key"] == name and c["tinv"] - 1 < b["t"] and c.get("tret", 1e9) > a["t"] - 2 for c in w.ops.values() if "tinv" in c
                ):
                    w.violate("two-chains", f"{name} (every {every}s) started at t={a['t']:.3f} ({a['node']}) and again at t={b['t']:.3f} ({b['node']})")
                    break
        # cron: at the right times only, once each, none skipped
        evs = [e for e in starts.get("cron", [])]
        mins = set(p["cron"]["minutes"])
        seen: dict[float, dict[str, Any]] = {}
        for e in evs:
            when = e["when"]
            if abs(when - round(when / 60) * 60) > 1e-3 or round(when / 60) % 60 not in mins:
                w.violate("not-an-occurrence", f"cron '{p['cron']['expr']}' ({p['cron']['tz']}) ran for t={when}: {datetime.fromtimestamp(EPOCH + when, timezone.utc).isoformat()}")
                break
            if e["t"] < when - 2e-5:
                w.violate("early-cron", f"cron run for t={when} started at t={e['t']:.4f}")
            if e["t"] > when + slack + max(p["cron"]["durs"]) and (calm or e["t"] > w.window) and e["att"] == 1 and not e["redel"]:
                w.violate("off-schedule", f"cron '{p['cron']['expr']}' started at t={e['t']:.2f}, which is no occurrence of it (it claims t={when:.0f})")
                break
            if e["att"] == 1 and not e["redel"] and lat < 0.2:
                if when in seen and (calm or e["t"] > w.window):
                    w.violate("occurrence-twice", f"cron occurrence t={when:.0f} started at t={seen[when]['t']:.3f} and t={e['t']:.3f}")
                seen[when] = e
        got = {e["when"] for e in evs}
        for m in range(int(w.window // 60) + 1, int(w.closed // 60) + 1):
            t = m * 60.0
            if m % 60 in mins and w.window < t < w.closed - slack - max(p["cron"]["durs"]) - 1 and t not in got and m < 60:
                w.violate("skipped-occurrence", f"cron '{p['cron']['expr']}' ({p['cron']['tz']}) did not run for t={t:.0f}; last disturbance t={w.window - HEAL:.1f}")
                break

    def nontrivial(self, w: World) -> bool:
        return w.stats.get("links", 0) >= 2


CHECK = C09()
