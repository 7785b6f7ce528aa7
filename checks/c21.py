"""Nothing is left behind in Redis."""

import asyncio
import re
from datetime import timedelta
from typing import Any

from sim.net import Latency
from sim.world import World

from .flow import FlowCheck, body_factory


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import ConcurrencyLimit, Cooldown, CurrentExecution, Debounce, Progress, RateLimit, Retry, Timeout
    from docket.execution import ExecutionProgress
    from docket.execution import Execution

    body = body_factory(w, node)
    s = lambda x: timedelta(seconds=x)  # noqa: E731

    async def job(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def rjob(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(), retry: Retry = Retry(attempts=3, delay=s(0.5))) -> Any:
        return await body(val, script, ex)

    async def r0job(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(), retry: Retry = Retry(attempts=3)) -> Any:
        return await body(val, script, ex)

    async def prog(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(), progress: ExecutionProgress = Progress()) -> Any:
        await progress.set_total(5)
        await progress.increment(1)
        try:
            return await body(val, script, ex)
        finally:
            await progress.set_message("almost")
            await progress.increment(2)

    async def timed(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(), t: Timeout = Timeout(s(0.6))) -> Any:
        return await body(val, script, ex)

    async def one(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(),
                  limit: ConcurrencyLimit = ConcurrencyLimit("cust", max_concurrent=1)) -> Any:
        return await body(val, script, ex)

    async def two(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(),
                  limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=2), retry: Retry = Retry(attempts=2)) -> Any:
        return await body(val, script, ex)

    async def cool(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(), gate: Cooldown = Cooldown(s(1))) -> Any:
        return await body(val, script, ex)

    async def rate(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(), gate: RateLimit = RateLimit(2, per=s(1))) -> Any:
        return await body(val, script, ex)

    async def last(val: str, script: dict[str, Any], cust: Any, ex: Execution = CurrentExecution(), gate: Debounce = Debounce(s(0.4))) -> Any:
        return await body(val, script, ex)

    return [job, rjob, r0job, prog, timed, one, two, cool, rate, last]


# key names a docket keeps for good, whatever runs on it
DOCKET_KEYS = re.compile(r"^d:(stream|queue|strikes|workers|worker-tasks:.*|task-workers:.*|cancel|perpetual.*)$")


class C21(FlowCheck):
    id = "C21"
    title = "Nothing is left behind in Redis"
    rule = (
        "Seeded adds, replaces and cancels (with reused keys) of plain, retrying, progress-reporting, timed, concurrency-limited, cooled, rate-limited and debounced tasks, retention 0-20 s, on 1-3 workers under the full fault "
        "model.  When all have ended and the retention, the gates' own periods and some redelivery timeouts have passed, Redis is searched: no key other than the docket's own, no stream entry, pending message or queue entry may be "
        "left; and while running, the record of a task that waits or runs has no expiry.  Non-trivial: at least one task ended and (with faults planned) a fault was injected."
    )
    weights = {"add": 1.0, "replace": 0.25, "cancel": 0.3}
    fns = {"job": 1, "rjob": 1, "r0job": 0.7, "prog": 1, "timed": 0.6, "one": 0.7, "two": 0.7, "cool": 0.4, "rate": 0.4, "last": 0.4}
    attempts = {"job": 1, "rjob": 3, "r0job": 3, "prog": 1, "timed": 1, "one": 1, "two": 2, "cool": 1, "rate": 1, "last": 1}
    make_tasks = staticmethod(make_tasks)
    n_ops = (3, 16)
    window = (0.5, 8.0)
    fault_prob = 0.7
    big_dur = 3.0
    redelivery = (1.0, 3.0)
    ttl_choices = [0, 0, 3, 20]
    runs_quick = 300
    runs_thorough = 8000

    def gen(self, rng: Any, tier: str, idx: int) -> dict[str, Any]:
        self.reuse_keys = rng.choice([0.0, 0.2, 0.5])
        self.max_pause = self.max_outage = rng.choice([0.8, 3.0, 6.0])
        return super().gen(rng, tier, idx)

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        seen: list[dict[str, Any]] = []
        for o in plan["ops"]:
            o["cust"] = rng.choice(["a", "b"])
            if o["op"] == "cancel":
                if seen:
                    o["key"] = rng.choice(seen[-4:])["key"]
                continue
            if o["op"] == "replace" and seen and rng.random() < 0.7:
                o["key"] = rng.choice(seen[-4:])["key"]
            seen.append(o)
        return plan

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        if o["op"] == "cancel":
            await docket.cancel(o["key"])
            return "ok"
        when = None if o["delay"] == 0 and o["op"] == "add" else w.dt(w.now() + o["delay"])
        o["when"] = w.now() + o["delay"]
        f = docket.add if o["op"] == "add" else docket.replace
        ex = await f(fns[o["fn"]], when=when, key=o["key"])(o["id"], o["script"], o["cust"])
        return ex.disposition.value

    def watch(self, w: World) -> None:
        """Records of tasks that wait or run never expire."""
        r = w.redis
        for k in list(r.data):
            if k.startswith(b"d:runs:") and k in r.expires:
                h = r.lookup(k)
                if h is None:
                    continue
                st = h.get(b"state", b"").decode()
                w.stats["seen_expiring"] = w.stats.get("seen_expiring", 0) + 1
                if st in ("scheduled", "queued", "running"):
                    w.violate("live-record-expires", f"t={w.now():.2f}: {k.decode()} is {st} but its record expires in {(r.expires[k] - r.now()) / 1000:.2f}s")
                    return
        w.at(w.now() + 0.37, self.watch, w)

    async def until_settled(self, w: World) -> None:
        w.at(0.3, self.watch, w)
        await super().until_settled(w)

    def slack(self, w: World) -> float:
        red = max(c["redelivery"] for c in w.plan["workers"].values())
        # leases run out, safeguards fire and end, what they leave behind expires, gates' own keys expire
        return 3 * w.plan["ttl"] + 8 * red + 25.0

    async def epilogue(self, w: World) -> None:
        await asyncio.sleep(self.slack(w))
        r = w.redis
        w.left = {}
        for k in sorted(r.data):
            v = r.lookup(k)
            if v is not None:
                w.left[k.decode()] = k in r.expires
        s = r.lookup(b"d:stream")
        w.left_stream = len(s.entries) if s is not None else 0
        w.left_pending = sum(len(g.pel) for g in s.groups.values()) if s is not None else 0
        q = r.lookup(b"d:queue")
        w.left_queue = sorted(m.decode() for m in q.d) if q is not None else []

    def judge(self, w: World) -> None:
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
        ends = self.ends(w)
        w.stats["ended"] = sum(1 for v in ends.values() if v)
        if not hasattr(w, "left"):
            return
        bad = [k for k in w.left if not DOCKET_KEYS.match(k)]
        if bad:
            w.violate("left-behind", f"{self.slack(w):.1f}s after everything ended Redis still has {[(k, 'expires' if w.left[k] else 'for good') for k in bad[:6]]}")
        if w.left_stream or w.left_pending or w.left_queue:
            w.violate("left-in-line", f"{self.slack(w):.1f}s after everything ended: {w.left_stream} stream entries, {w.left_pending} pending, queue {w.left_queue[:5]}")

    def nontrivial(self, w: World) -> bool:
        return w.stats.get("ended", 0) > 0


CHECK = C21()
