"""Retries follow their policy exactly."""

from __future__ import annotations

from datetime import datetime, timedelta, timezone
from typing import Any

from sim.net import Latency
from sim.world import World

from .flow import Boom, FlowCheck, body_factory

# fn -> (attempts, minimum delay, maximum delay or None for a fixed delay)
POLICY: dict[str, tuple[int | None, float, float | None]] = {
    "plain": (1, 0.0, None),
    "fix": (3, 0.7, None),
    "now": (4, 0.0, None),
    "forever": (None, 0.3, None),
    "exp": (6, 0.15, 1.0),
    "expinf": (None, 0.2, 2.0),
    "asks": (5, 0.25, None),
    "wide": (11, 0.01, 30.0),
}


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import CurrentExecution, ExponentialRetry, Retry
    from docket.execution import Execution

    body = body_factory(w, node)
    s = lambda x: timedelta(seconds=x)  # noqa: E731

    async def plain(val: str, script: dict[str, Any], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def fix(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), retry: Retry = Retry(attempts=3, delay=s(0.7))) -> Any:
        return await body(val, script, ex)

    async def now(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), retry: Retry = Retry(attempts=4)) -> Any:
        return await body(val, script, ex)

    async def forever(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), retry: Retry = Retry.forever(delay=s(0.3))) -> Any:
        return await body(val, script, ex)

    async def exp(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(),
                  retry: Retry = ExponentialRetry(attempts=6, minimum_delay=s(0.15), maximum_delay=s(1))) -> Any:
        return await body(val, script, ex)

    async def expinf(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(),
                     retry: Retry = ExponentialRetry.forever(delay=s(0.2), maximum_delay=s(2))) -> Any:
        return await body(val, script, ex)

    async def asks(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), retry: Retry = Retry(attempts=5, delay=s(0.25))) -> Any:
        try:
            return await body(val, script, ex)
        except Boom:
            want = script["ask"][(ex.attempt - 1) % len(script["ask"])]
            if want is None:
                raise
            how, d = want
            if how == "at":
                retry.at(datetime.now(timezone.utc) + s(d))
            elif how == "in":
                retry.in_(s(d))
            else:
                retry.after(s(d))

    async def wide(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(),
                   retry: Retry = ExponentialRetry(attempts=11, minimum_delay=s(0.01), maximum_delay=s(30))) -> Any:
        return await body(val, script, ex)

    return [plain, fix, now, forever, exp, expinf, asks, wide]


def delay_after(fn: str, script: dict[str, Any], att: int) -> float:
    _, lo, hi = POLICY[fn]
    if fn == "asks":
        want = script["ask"][(att - 1) % len(script["ask"])]
        return lo if want is None else max(0.0, want[1])
    return lo if hi is None else min(hi, lo * 2 ** min(att - 1, 60))


class C07(FlowCheck):
    id = "C07"
    title = "Retries follow their policy exactly"
    rule = (
        "Seeded tasks under fixed, immediate, unlimited, exponential and self-requested (after/at/in_) retry policies failing a seeded number of times, on 1-3 workers with crashes, stalls, lost "
        "messages and restarts.  Judged per task: attempts numbered consecutively from 1, attempt n+1 only after attempt n failed and never before the policy's delay, never beyond the configured "
        "number; exactly the needed attempts once each in fault-free runs; unlimited policies go on past 60 failures; 'failed' is published only after the last permitted attempt failed. "
        "Non-trivial: at least two attempts of one task ran."
    )
    weights = {"add": 1.0}
    fns = {"plain": 0.5, "fix": 1, "now": 1, "forever": 1, "exp": 1, "expinf": 1, "asks": 1, "wide": 0.7}
    n_ops = (1, 8)
    fault_prob = 0.65
    big_dur = 2.0
    runs_quick = 450
    runs_thorough = 12000
    attempts = {f: p[0] for f, p in POLICY.items()}
    make_tasks = staticmethod(make_tasks)

    def directed(self) -> list[dict[str, Any]]:
        base = {"latency": {"kind": "const", "scale": 1.0}, "resp2": False, "ttl": 900, "faults": [], "skews": {}, "max_steps": 3_000_000,
                "workers": {"w0": {"concurrency": 3, "redelivery": 3.0, "check": 0.1, "resolution": 0.1, "reconnect": 0.5}}}
        return [dict(base, ops=[{"op": "add", "c": "c0", "t": 0.5, "id": "s0", "key": "k0", "fn": fn, "delay": 0, "script": {"dur": 0.01, "fails": n}}])
                for fn, n in (("expinf", 75), ("forever", 120))]

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        for o in plan["ops"]:
            maxa = POLICY[o["fn"]][0]
            r = rng.random()
            o["script"]["fails"] = 0 if r < 0.1 else rng.randint(1, 9 if maxa is None else maxa + 1)
            if o["fn"] == "asks":
                o["script"]["ask"] = [rng.choice([None, ("after", 0.0), ("after", round(rng.uniform(0.05, 3), 3)), ("at", round(rng.uniform(-2, 2), 3)), ("in", round(rng.uniform(0.05, 1), 3))]) for _ in range(rng.randint(1, 4))]
                o["script"]["ask"] = [a and list(a) for a in o["script"]["ask"]]
        if rng.random() < 0.02:
            o = plan["ops"][0]
            o["fn"], o["script"] = "expinf", {"dur": 0.02, "fails": rng.randint(45, 80)}
        return plan

    def judge(self, w: World) -> None:
        starts, ends = self.starts(w), self.ends(w)
        lat = Latency(**w.plan["latency"]).max()
        calm = not w.plan["faults"]
        multi = 0
        work = sum(self.max_runs(o) * (o["script"]["dur"] + 0.1) for o in w.ops.values())
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
            if o["status"] not in ("scheduled", "maybe"):
                continue
            maxa = POLICY[o["fn"]][0]
            evs, es = starts.get(o["id"], []), ends.get(o["id"], [])
            if not all(e["ok"] for e in evs):
                w.violate("wrong-call", f"{o['id']}: an attempt ran with another function, key or arguments")
            seen: set[int] = set()
            for e in evs:
                n = e["att"]
                multi += n > 1
                if n < 1 or (maxa is not None and n > maxa):
                    w.violate("too-many-attempts", f"{o['id']} ({o['fn']}) ran attempt {n} of at most {maxa}")
                elif n > 1:
                    prev = [x for x in es if x["att"] == n - 1 and x["out"] == "fail" and x["seq"] < e["seq"]]
                    if not prev:
                        w.violate("unfounded-retry", f"{o['id']} ({o['fn']}) attempt {n} started at t={e['t']:.3f} but attempt {n - 1} had not failed")
                    else:
                        d = delay_after(o["fn"], o["script"], n - 1)
                        t0 = prev[0]["t"]
                        if e["t"] < t0 + d - 2e-5:
                            w.violate("early-retry", f"{o['id']} ({o['fn']}) attempt {n} started {e['t'] - t0:.4f}s after the failure; its policy says {d:.4f}s")
                        if calm and e["t"] > t0 + d + work + 3 + 10 * lat:
                            w.violate("late-retry", f"{o['id']} ({o['fn']}) attempt {n} started {e['t'] - t0:.4f}s after the failure; its policy says {d:.4f}s")
                if calm and n in seen and (lat < 0.3):
                    w.violate("attempt-repeated", f"{o['id']} ({o['fn']}) attempt {n} ran twice without any fault")
                seen.add(n)
            if calm and any(x["out"] == "ok" for x in es):
                t_ok = next(x["seq"] for x in es if x["out"] == "ok")
                if any(e["seq"] > t_ok for e in evs) and lat < 0.3:
                    w.violate("retry-after-success", f"{o['id']} ({o['fn']}) was started again after it had succeeded")
            last = [x for x in es if x["out"] == "fail" and maxa is not None and x["att"] >= maxa]
            for t, i, d in w.states(o["key"]):
                if d["state"] == "failed" and not any(x["seq"] < i for x in last):
                    w.violate("failed-too-soon", f"{o['id']} ({o['fn']}) was reported failed at t={t:.3f} ({d.get('error')}) though its attempts were not used up")
                    break
        for o in self.unfinished(w):
            w.violate("gave-up", f"{o['id']} ({o['fn']}, failing {o['script']['fails']} times) never reached its final outcome; attempts ended: {[(x['att'], x['out']) for x in ends.get(o['id'], [])][-3:]}")
        w.stats["retries"] = multi

    def nontrivial(self, w: World) -> bool:
        return w.stats["retries"] > 0


CHECK = C07()
