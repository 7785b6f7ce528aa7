"""States move legally and get_result returns that run's outcome."""

from __future__ import annotations

import asyncio
import threading
from datetime import timedelta
from typing import Any

from sim.net import Latency
from sim.world import World, sleep_until

from .flow import FlowCheck


class Odd(Exception):
    """An exception with state that cannot be pickled."""

    def __init__(self, msg: str):
        super().__init__(msg)
        self.lock = threading.Lock()


class Ident(Exception):
    pass


VALUES = ["ident", "ident", "ident", "none", "zero", "false", "empty", "list", "big", "exc"]
ERRORS = ["ident", "ident", "ident", "value", "timeout", "key", "odd", "conn"]


def value_of(kind: str, val: str, att: int, sid: int) -> Any:
    return {"ident": {"val": val, "att": att, "sid": sid}, "none": None, "zero": 0, "false": False, "empty": "", "list": [],
            "big": "x" * 150_000 + val, "exc": ValueError(val)}[kind]


def error_of(kind: str, val: str, att: int, sid: int) -> Exception:
    if kind == "ident":
        return Ident(val, att, sid)
    msg = f"{val}/{att}/{sid}"
    return {"value": ValueError, "timeout": TimeoutError, "key": KeyError, "odd": Odd, "conn": OSError}[kind](msg)


def plain(v: Any) -> Any:
    """A comparable, printable form of a result."""
    if isinstance(v, BaseException):
        return [type(v).__name__, list(map(str, v.args))]
    if isinstance(v, str) and len(v) > 100:
        return [len(v), v[-8:]]
    return v


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import CurrentExecution, Retry
    from docket.execution import Execution

    async def body(val: str, script: dict[str, Any], ex: Any) -> Any:
        w.sid = getattr(w, "sid", 0) + 1
        sid, att = w.sid, ex.attempt
        w.event("start", node=node, key=val, att=att, sid=sid, tkey=ex.key, fn=ex.function_name)
        try:
            if script["dur"]:
                await asyncio.sleep(script["dur"])
        except asyncio.CancelledError:
            w.event("end", node=node, key=val, att=att, sid=sid, out="cancelled")
            raise
        if att <= script["fails"]:
            e = error_of(script["err"], val, att, sid)
            w.event("end", node=node, key=val, att=att, sid=sid, out="fail", res=plain(e), full=f"{type(e).__name__}: {e}")
            raise e
        if script.get("gives_up"):
            w.event("end", node=node, key=val, att=att, sid=sid, out="cancelled", res="self")
            raise asyncio.CancelledError()
        r = value_of(script["val"], val, att, sid)
        w.event("end", node=node, key=val, att=att, sid=sid, out="ok", res=plain(r))
        return r

    async def job(val: str, script: dict[str, Any], ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def rjob(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), retry: Retry = Retry(attempts=3, delay=timedelta(seconds=0.5))) -> Any:
        return await body(val, script, ex)

    async def r0job(val: str, script: dict[str, Any], ex: Execution = CurrentExecution(), retry: Retry = Retry(attempts=2)) -> Any:
        return await body(val, script, ex)

    return [job, rjob, r0job]


WAITING = ("scheduled", "queued")
TERMINAL = ("completed", "failed", "cancelled")


class C15(FlowCheck):
    id = "C15"
    title = "States move legally and get_result returns that run's outcome"
    rule = (
        "Seeded adds (some replaces, cancels and re-adds of one key) of tasks returning or raising seeded values (falsy, large, exceptions as values, unpicklable exceptions, retries), with several concurrent "
        "get_result callers per task (from the handle or looked up, at any time before, during or after the run, with and without a limit) and state readers, under crashes, stalls, lost messages, pub/sub drops and restarts. "
        "Judged: every published state of every key in server order against the legal moves and what the bodies did, the stored state against the published one at every read, each get_result outcome against the recorded attempts, and that no get_result outlives its run. "
        "Non-trivial: a get_result returned a value or raised the task's exception."
    )
    weights = {"add": 1.0, "replace": 0.06, "cancel": 0.12}
    fns = {"job": 0.6, "rjob": 0.3, "r0job": 0.2}
    attempts = {"job": 1, "rjob": 3, "r0job": 2}
    make_tasks = staticmethod(make_tasks)
    n_ops = (2, 14)
    fault_prob = 0.6
    ttl_choices = [0, 5, 60, 900, 900, 900]
    tail = 8.0
    runs_quick = 400
    runs_thorough = 12000

    def gen(self, rng: Any, tier: str, idx: int) -> dict[str, Any]:
        self.reuse_keys = rng.choice([0.0, 0.0, 0.3, 0.7])
        return super().gen(rng, tier, idx)

    def directed(self) -> list[dict[str, Any]]:
        """One handle kept over several runs of its key: each get_result is about the last."""
        base = {"latency": {"kind": "const", "scale": 1.0}, "resp2": False, "ttl": 900, "faults": [], "skews": {}, "max_steps": 1_500_000,
                "workers": {"w0": {"concurrency": 3, "redelivery": 3.0, "check": 0.1, "resolution": 0.1, "reconnect": 0.5}}}
        get = {"after": 0.0, "how": "kept", "limit": None, "style": "timeout"}
        return [
            dict(base, ops=[
                {"op": "add", "c": "c0", "t": 0.5 + 3 * i, "id": f"s{i}", "key": "k", "fn": "job", "delay": 0, "gets": [dict(get), dict(get, after=1.5)], "peeks": [],
                 "script": {"dur": 0.3, "fails": int(v == "fails"), "val": v if v != "fails" else "ident", "err": "ident"}}
                for i, v in enumerate(vals)])
            for vals in (["ident", "none", "ident"], ["ident", "fails", "none"], ["fails", "none", "fails"], ["fails", "ident", "zero"])]

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        seen: list[dict[str, Any]] = []
        for o in plan["ops"]:
            if o["op"] == "cancel" and seen:
                o["key"] = rng.choice(seen)["key"]
            if o["op"] == "cancel":
                continue
            seen.append(o)
            s = o["script"]
            s.pop("ret", None)
            s["val"], s["err"] = rng.choice(VALUES), rng.choice(ERRORS)
            if rng.random() < 0.03:
                s["gives_up"] = True
            o["gets"] = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                o["gets"].append({
                    "after": round(rng.choice([0.0, 0.0, rng.uniform(0, 0.5), rng.uniform(0, 4)]), 3),
                    "how": rng.choice(["handle", "handle", "lookup", "kept"]),
                    "limit": rng.choice([None, None, None, 0.05, 1.0, 5.0]),
                    "style": rng.choice(["timeout", "deadline"]),
                })
            o["peeks"] = sorted(round(rng.uniform(0, 5), 3) for _ in range(rng.choice([0, 0, 1, 4])))
        return plan

    # ------------------------------------------------------------------ run

    async def main(self, world: World) -> None:
        world.gets = []
        world.kept = {}
        world.peeks = []
        await super().main(world)

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        r = await super().do_op(w, c, docket, fns, handles, o)
        if o["op"] != "cancel":
            for g in o["gets"]:
                w.kept.setdefault((c, o["key"]), handles[o["key"]])
                g = dict(g, of=o["id"], key=o["key"], c=c, done=False, called=None)
                w.gets.append(g)
                w.run_on(c, self.getter(w, docket, handles[o["key"]], g), name=f"get {o['key']}")
            if o["peeks"]:
                w.run_on(c, self.peeker(w, docket, o), name=f"peek {o['key']}")
        return r

    async def getter(self, w: World, docket: Any, handle: Any, g: dict[str, Any]) -> None:
        from docket.execution import ExecutionCancelled

        await asyncio.sleep(g["after"])
        g["called"], g["cseq"] = w.now(), len(w.history)
        kw: dict[str, Any] = {}
        try:
            ex = handle
            if g["how"] == "lookup":
                ex = await docket.get_execution(g["key"])
            if g["how"] == "kept":
                ex = w.kept[g["c"], g["key"]]
                await ex.sync()
            if ex is None:
                g["out"] = "none"
            else:
                if g["limit"] is not None:
                    if g["style"] == "timeout":
                        kw["timeout"] = timedelta(seconds=g["limit"])
                    else:
                        kw["deadline"] = w.dt(w.now() + g["limit"])
                g["called2"] = w.now()
                v = await ex.get_result(**kw)
                g["out"], g["res"] = "value", plain(v)
        except ExecutionCancelled:
            g["out"] = "cancelled"
        except Exception as e:  # noqa: BLE001
            if isinstance(e, TimeoutError) and str(e).startswith("Timeout waiting for execution"):
                g["out"] = "timeout"
            else:
                g["out"], g["res"], g["text"] = "raised", plain(e), str(e)
                if w.excusable(e, g["called"]) and not any(f"{v}/" in str(e) for v in w.ops):
                    g["conn"] = True
        g["done"], g["t"], g["seq"] = True, w.now(), len(w.history)
        w.event("got", node=g["c"], key=g["key"], of=g["of"], out=g["out"], res=repr(g.get("res"))[:80])

    async def peeker(self, w: World, docket: Any, o: dict[str, Any]) -> None:
        t0 = w.now()
        for d in o["peeks"]:
            await sleep_until(w, t0 + d)
            n = len(w.states(o["key"]))
            try:
                ex = await docket.get_execution(o["key"])
            except Exception as e:  # noqa: BLE001
                if not w.excusable(e, t0):
                    w.violate("api-error", f"get_execution({o['key']}) raised {type(e).__name__}: {e}")
                continue
            w.peeks.append((w.now(), o["key"], None if ex is None else ex.state.value, n, len(w.states(o["key"]))))

    def pending(self, w: World) -> Any:
        return self.unfinished(w)

    def final_end(self, o: dict[str, Any], ends: list[dict[str, Any]]) -> bool:
        return super().final_end(o, ends) or any(e["out"] == "cancelled" and e.get("res") == "self" for e in ends)

    # ---------------------------------------------------------------- judge

    def judge(self, w: World) -> None:
        starts, ends = self.starts(w), self.ends(w)
        lat = Latency(**w.plan["latency"]).max()
        calm = not w.plan["faults"]
        ttl = w.plan["ttl"]
        by_key: dict[str, list[dict[str, Any]]] = {}
        for o in w.ops.values():
            by_key.setdefault(o["key"], []).append(o)
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
        for key, ops in by_key.items():
            self.judge_states(w, key, ops, ends, calm, lat)
        for t, key, st, n0, n1 in w.peeks:
            pubs = [d["state"] for _, _, d in w.states(key)]
            near = pubs[max(0, n0 - 1): n1 + 1]
            if st is None:
                continue
            if any(o["op"] == "replace" or o["op"] == "cancel" and len(by_key[key]) > 2 for o in by_key[key]) or any(p["state"] in TERMINAL for _, _, p in w.states(key)[: max(0, n0 - 1)]) and len(by_key[key]) > 1:
                continue
            if st == "cancelled" and any(o["op"] == "cancel" and o["status"] is not None and o["tinv"] < t for o in by_key[key]):
                continue  # recorded at once, announced when the task has stopped
            if ttl < 60 and st == "scheduled":
                continue  # the record was just deleted
            if near and st not in near and n0:
                w.violate("stored-state", f"key {key} read as {st} at t={t:.3f} though its published states around then were {near}")
        # results
        useful = 0
        for g in w.gets:
            useful += self.judge_get(w, g, by_key[g["key"]], starts, ends, calm, lat, ttl)
        w.stats["results_seen"] = useful
        for o in self.unfinished(w):
            w.violate("lost-task", f"{o['op']} {o['id']} (key {o['key']}) was accepted but never ran to its final outcome")

    def judge_states(self, w: World, key: str, ops: list[dict[str, Any]], ends: dict[str, list[dict[str, Any]]], calm: bool, lat: float) -> None:
        es = [dict(e, op=o) for o in ops for e in ends.get(o["id"], [])]
        # a run which was replaced, or cancelled and followed by another, may report its end late
        replaced = any(o["op"] == "replace" for o in ops) or len(ops) > 2 and any(o["op"] == "cancel" for o in ops)
        prev: str | None = None
        far = 10**9
        for t, i, d in w.states(key):
            st = d["state"]
            before = [e for e in es if e["seq"] < i]
            sched = [o for o in ops if o["op"] in ("add", "replace") and o.get("inv", far) < i]
            cancels = [o for o in ops if o["op"] == "cancel" and o.get("inv", far) < i]
            failed = [e for e in before if e["out"] == "fail"]
            where = f"key {key} at t={t:.3f}: {prev} -> {st}"
            if st == "completed" and not any(e["out"] == "ok" for e in before):
                w.violate("false-completion", f"{where}, but no attempt had returned")
            if st == "failed" and not any(e["out"] == "fail" and e["att"] >= self.attempts[e["op"]["fn"]] for e in before):
                w.violate("false-failure", f"{where} ({d.get('error')}), but no last attempt had failed")
            if st == "cancelled" and not cancels and not any(e["out"] == "cancelled" and e.get("res") == "self" for e in before):
                w.violate("false-cancellation", f"{where}, but nobody had cancelled it")
            if st in WAITING and prev is not None and not replaced:
                if st == "queued" and prev == "scheduled":
                    pass
                elif prev == "running" and failed:
                    pass
                elif len(sched) > 1:
                    pass
                elif prev == st and not calm:
                    pass
                elif failed and not calm:
                    pass
                else:
                    w.violate("illegal-move", f"{where}, though it was scheduled once and no attempt had failed")
            if st == "running" and not replaced:
                if prev == "cancelled" and failed and cancels:
                    pass  # the signal of a cancel reached an attempt that had already been rescheduled
                elif prev in TERMINAL or prev is None:
                    w.violate("illegal-move", f"{where}: a run that had ended was started again")
                elif prev == "scheduled":
                    w.violate("illegal-move", f"{where}: started while it was waiting for its time")
                elif prev == "running" and calm and lat < 0.3:
                    w.violate("illegal-move", f"{where}: started twice without any fault")
            if st in TERMINAL and not replaced:
                if prev in TERMINAL and prev != "cancelled" and st != "cancelled" and prev != st:
                    w.violate("illegal-move", f"{where}: two different ends of one run")
                elif prev == "scheduled" and st != "cancelled":
                    w.violate("illegal-move", f"{where}: ended without running")
                elif calm and prev in TERMINAL and prev == st and lat < 0.3 and st != "cancelled":
                    w.violate("illegal-move", f"{where}: ended twice without any fault")
            prev = st

    def judge_get(self, w: World, g: dict[str, Any], ops: list[dict[str, Any]], starts: Any, ends: Any, calm: bool, lat: float, ttl: float) -> int:
        if g["called"] is None or w.node(g["c"]).dead:
            return 0
        far = 10**9
        own = w.ops[g["of"]]
        sched = [o for o in ops if o["op"] != "cancel" and o["status"] is not None]
        alone = len(sched) == 1
        cancels = [o for o in ops if o["op"] == "cancel" and o["status"] is not None]
        who = f"get_result of {g['of']} (key {g['key']}, {g['how']}, called t={g['called']:.3f}, limit {g['limit']})"
        final = [e for o in sched for e in ends.get(o["id"], []) if e["out"] == "ok" or e["out"] == "fail" and e["att"] >= self.attempts[o["fn"]] or e.get("res") == "self"]
        tol = 1.5 + 20 * lat
        if not g["done"]:
            ended = [e for e in final if e["t"] < w.settled_at + 0.1]
            if (ended or any(c["status"] == "ok" for c in cancels)) and alone and ttl >= 60 and w.now() > max(w.last_fault, w.settled_at) + tol + 3:
                if g["limit"] is not None or final:
                    w.violate("get-hangs", f"{who} had not returned by t={w.now():.3f}; the run ended at {[e['t'] for e in ended]}")
            return 0
        out = g["out"]
        if g["limit"] is not None and calm and g["t"] > g["called"] + g["limit"] + tol:
            w.violate("limit-exceeded", f"{who} took until t={g['t']:.3f}")
        if g.get("conn"):
            if calm:
                w.violate("get-error", f"{who} raised {g['res']}")
            return 0
        if out == "none":
            if calm and alone and own["status"] == "scheduled" and ttl >= 60 and g["t"] < own["tret"] + ttl:
                w.violate("no-record", f"{who}: no record found at t={g['t']:.3f}")
            return 0
        if out == "cancelled":
            if not any(c.get("inv", far) < g["seq"] for c in cancels) and not any(e.get("res") == "self" for e in final):
                w.violate("wrong-result", f"{who} raised ExecutionCancelled though nobody cancelled it")
            return 1
        if out == "timeout":
            if g["limit"] is None:
                w.violate("wrong-result", f"{who} timed out without a limit")
            elif g["t"] < g["called"] + g["limit"] - 1e-3:
                w.violate("wrong-result", f"{who} timed out early, at t={g['t']:.3f}")
            elif calm and alone and ttl >= 60 and g["limit"] > 0:
                done = [e for e in final if e["t"] < g["called"] + g["limit"] - tol]
                if done and g["limit"] >= tol:
                    w.violate("wrong-result", f"{who} timed out at t={g['t']:.3f} though the run had ended at t={done[0]['t']:.3f}")
            return 0
        # a value or the task's exception
        cand = [e for e in final if e["seq"] < g["seq"]]
        if out == "value":
            if ttl < 60 or not alone:
                ok = g["res"] is None and (ttl < 60) or any(e["out"] == "ok" and e["res"] == g["res"] for e in cand)
                if not ok:
                    w.violate("wrong-result", f"{who} returned {g['res']!r} at t={g['t']:.3f}; attempts ended with {[(e['out'], e.get('res')) for e in cand][-4:]}")
                if ok and not alone and ttl >= 60:
                    self.later_run(w, g, own, sched, ends, who)
            elif not any(e["out"] == "ok" and e["res"] == g["res"] for e in cand):
                w.violate("wrong-result", f"{who} returned {g['res']!r} at t={g['t']:.3f}; attempts ended with {[(e['out'], e.get('res')) for e in cand][-4:]}")
            return 1
        fails = [e for e in cand if e["out"] == "fail"]
        if not any(e["res"] == g["res"] or g["res"][0] == "Exception" and e["res"][0] == "Odd" and e["full"] in g["text"] for e in fails):
            if g["res"][0] == "Exception" and ttl < 60 and any(e["full"] in g["text"] for e in fails):
                return 1  # the record outlived the stored exception by a moment
            w.violate("wrong-result", f"{who} raised {g['res']!r} at t={g['t']:.3f}; attempts ended with {[(e['out'], e.get('res')) for e in cand][-4:]}")
        return 1

    def later_run(self, w: World, g: dict[str, Any], own: dict[str, Any], sched: list[dict[str, Any]], ends: Any, who: str) -> None:
        """Called after `own` was accepted and answered before any other schedule
        of the key was asked for: it can only be about `own` (or, were `own`
        refused, about whatever it was refused for)."""
        if own["status"] != "scheduled" or g["res"] is None or not isinstance(g["res"], dict):
            return
        if any(p is not own and p.get("inv", 10**9) < g["seq"] and p["ret"] > own["inv"] for p in sched):
            return
        if g["res"]["val"] != own["id"]:
            w.violate("other-runs-result", f"{who} returned {g['res']!r}, the result of an earlier run")

    def nontrivial(self, w: World) -> bool:
        return w.stats.get("results_seen", 0) > 0


CHECK = C15()
