"""Dependencies are entered once and always released."""

import asyncio
import inspect
from contextlib import asynccontextmanager, contextmanager
from datetime import timedelta
from typing import Annotated, Any

from sim.world import World
from sim.net import Latency

from .flow import Boom, FlowCheck

KINDS = ("value", "avalue", "scm", "acm", "acm", "shared", "sharedcm")


class Refused(Exception):
    """A dependency that can't be had."""


def exid(w: World, ex: Any) -> int:
    """Tells executions apart, redelivered and retried ones included."""
    n = ex.__dict__.get("_sim_id")
    if n is None:
        w.exids = n = getattr(w, "exids", 0) + 1
        ex.__dict__["_sim_id"] = n
    return n


def make_factories(w: World, node: str) -> dict[str, Any]:
    """The functions the dependencies are made of, one set per process."""
    from docket import CurrentExecution, Depends, Shared

    spec: dict[str, dict[str, Any]] = w.plan["deps"]
    made: dict[str, Any] = {}
    s = asyncio.sleep

    def build(name: str) -> Any:
        d = spec[name]
        kind = d["kind"]
        shared = kind.startswith("shared")

        def enter(kw: dict[str, Any]) -> Any:
            w.insts = getattr(w, "insts", 0) + 1
            inst = f"{name}#{w.insts}"
            ex = None if shared else kw["ex"]
            rec = {"node": node, "dep": name, "inst": inst, "x": None if shared else exid(w, ex), "got": {k: v for k, v in kw.items() if k != "ex"}}
            w.event("enter", **rec)
            return rec, ex

        def entered(rec: dict[str, Any], ex: Any) -> None:
            if shared:
                n = w.shared_tries[name] = w.shared_tries.get(name, 0) + 1
                fail = n <= d.get("fails", 0)
            else:
                o = w.ops.get(ex.args[0], {})
                fail = ex.attempt <= o.get("script", {}).get("refuse", {}).get(name, 0)
            w.event("refused" if fail else "entered", **rec)
            if fail:
                raise Refused(name)

        def leaving(rec: dict[str, Any], error: BaseException | None) -> None:
            w.event("exit", **rec, error=type(error).__name__ if error else None)

        def value(**kw: Any) -> Any:
            rec, ex = enter(kw)
            entered(rec, ex)
            return rec["inst"]

        async def avalue(**kw: Any) -> Any:
            rec, ex = enter(kw)
            if d["in"]:
                await s(d["in"])
            entered(rec, ex)
            return rec["inst"]

        @contextmanager
        def scm(**kw: Any) -> Any:
            rec, ex = enter(kw)
            entered(rec, ex)
            try:
                yield rec["inst"]
            except GeneratorExit:
                raise  # dropped, not released
            except BaseException as e:
                leaving(rec, e)
                if d.get("exit") == "swallow" and isinstance(e, Exception):
                    return
                raise
            else:
                leaving(rec, None)
            if d.get("exit") == "raise":
                raise Refused("leaving " + name)

        @asynccontextmanager
        async def acm(**kw: Any) -> Any:
            rec, ex = enter(kw)
            if d["in"]:
                await s(d["in"])
            entered(rec, ex)
            try:
                yield rec["inst"]
            except GeneratorExit:
                raise
            except BaseException as e:
                leaving(rec, e)
                if d["out"]:
                    await s(d["out"])
                if d.get("exit") == "swallow" and isinstance(e, Exception):
                    return
                raise
            else:
                leaving(rec, None)
                if d["out"]:
                    await s(d["out"])
            if d.get("exit") == "raise":
                raise Refused("leaving " + name)

        base = {"value": value, "avalue": avalue, "scm": scm, "acm": acm, "shared": avalue, "sharedcm": acm}[kind]

        def factory(**kw: Any) -> Any:
            return base(**kw)

        K = inspect.Parameter.KEYWORD_ONLY
        params = [] if shared else [inspect.Parameter("ex", K, default=CurrentExecution())]
        params += [inspect.Parameter(x, K, default=declare(x)) for x in d["subs"]]
        factory.__name__ = factory.__qualname__ = name
        factory.__signature__ = inspect.Signature(params)  # type: ignore[attr-defined]
        return factory

    def declare(name: str) -> Any:
        if name not in made:
            made[name] = build(name)
        return (Shared if spec[name]["kind"].startswith("shared") else Depends)(made[name])

    return {n: declare(n) for n in spec}


def worker_mark(w: World, node: str) -> Any:
    """A user's own dependency that a worker adds to each task; one object serves them all."""
    from docket.dependencies import Dependency, current_execution

    class WorkerMark(Dependency[Any]):
        def __init__(self) -> None:
            self.recs: dict[int, dict[str, Any]] = {}

        async def __aenter__(self) -> Any:
            x = exid(w, current_execution.get())
            w.insts = getattr(w, "insts", 0) + 1
            rec = self.recs[x] = {"node": node, "dep": "wmark", "inst": f"wmark#{w.insts}", "x": x, "got": {}}
            w.event("enter", **rec)
            await asyncio.sleep(0.01)
            w.event("entered", **rec)

        async def __aexit__(self, t: Any, e: Any, tb: Any) -> None:
            w.event("exit", **self.recs.pop(exid(w, current_execution.get())), error=t.__name__ if t else None)

    return WorkerMark()


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import ConcurrencyLimit, CurrentExecution, RateLimit, Retry, Timeout
    from docket.dependencies import Dependency

    deps = make_factories(w, node)
    if node in w.wd:
        # worker-level dependencies are made anew for each process, as its tasks are
        w.wd[node].clear()
        w.wd[node].update({n: deps[n] for n in w.plan["wdeps"]})
        if w.plan.get("wmark"):
            w.wd[node]["wmark"] = worker_mark(w, node)

    class Mark(Dependency[Any]):
        """A user's own dependency on a parameter."""

        def __init__(self, name: str, seen: Any = None):
            self.name, self.seen = name, seen

        def bind_to_parameter(self, name: str, value: Any) -> "Mark":
            return Mark(self.name, value)

        async def __aenter__(self) -> Any:
            from docket.dependencies import current_execution

            w.insts = getattr(w, "insts", 0) + 1
            self.rec = {"node": node, "dep": self.name, "inst": f"{self.name}#{w.insts}", "x": exid(w, current_execution.get()), "got": {}}
            w.event("enter", **self.rec)
            await asyncio.sleep(0.01)
            w.event("entered", **self.rec, seen=self.seen)

        async def __aexit__(self, t: Any, e: Any, tb: Any) -> None:
            w.event("exit", **self.rec, error=t.__name__ if t else None)

    async def body(val: str, script: dict[str, Any], ex: Any, got: dict[str, Any]) -> Any:
        w.sid = getattr(w, "sid", 0) + 1
        sid = w.sid
        att = ex.attempt
        op = w.ops.get(val)
        rec = {"node": node, "key": val, "att": att, "sid": sid, "x": exid(w, ex)}
        w.event("start", **rec, redel=bool(ex.redelivered), got=got, ok=bool(op and op["script"] == script and op["key"] == ex.key and op["fn"] == ex.function_name))
        try:
            if script["dur"]:
                await asyncio.sleep(script["dur"])
        except asyncio.CancelledError:
            w.event("end", **rec, out="cut")
            raise
        if att <= script["fails"]:
            w.event("end", **rec, out="fail")
            raise Boom(val, att)
        w.event("end", **rec, out="ok")
        return {"val": val, "att": att}

    out = []
    for name, f in w.plan["fns"].items():
        out.append(build_task(w, name, f, deps, body, Mark, CurrentExecution, ConcurrencyLimit, RateLimit, Retry, Timeout))
    return out


def build_task(w: World, name: str, f: dict[str, Any], deps: dict[str, Any], body: Any, Mark: Any, CurrentExecution: Any, ConcurrencyLimit: Any, RateLimit: Any, Retry: Any, Timeout: Any) -> Any:
    s = lambda x: timedelta(seconds=x)  # noqa: E731

    async def task(val: str, script: dict[str, Any], arg: Any, **kw: Any) -> Any:
        got = {k: v for k, v in kw.items() if k in deps}
        return await body(val, script, kw["ex"], got)

    P = inspect.Parameter
    K = P.KEYWORD_ONLY
    params = [P(n, P.POSITIONAL_OR_KEYWORD) for n in ("val", "script", "arg")] + [P("ex", K, default=CurrentExecution())]
    for d in f["deps"]:
        if d == "retry":
            v: Any = Retry(attempts=f["attempts"], delay=s(0.2))
        elif d == "timeout":
            v = Timeout(s(f["timeout"]))
        elif d == "limit":
            v = ConcurrencyLimit(max_concurrent=1)
        elif d == "rate":
            v = RateLimit(1, per=s(0.6))
        else:
            v = deps[d]
        params.append(P(d, K, default=v))
    task.__name__ = task.__qualname__ = name
    task.__signature__ = inspect.Signature(params)  # type: ignore[attr-defined]
    if f["mark"]:
        task.__annotations__ = {"arg": Annotated[Any, Mark("mark")]}
        task.__signature__ = inspect.Signature([p.replace(annotation=Annotated[Any, Mark("mark")]) if p.name == "arg" else p for p in params])  # type: ignore[attr-defined]
    else:
        task.__annotations__ = {}
    return task


class C20(FlowCheck):
    id = "C20"
    title = "Dependencies are entered once and always released"
    rule = (
        "Seeded dependency graphs (values, coroutines, sync and async context managers, nested and shared ones, users' own Dependency classes on parameters and on workers, worker-level ones) on tasks with retries, timeouts, concurrency and rate limits; dependencies that refuse, that raise on release "
        "or swallow the task's exception; tasks succeed, fail, overrun or are cancelled at any point; 1-3 workers, half of the runs with crashes, shutdowns, stalls and lost messages. Judged per execution: every declared dependency created at most once and given to all who asked for it, the body only runs with all of them, "
        "each released exactly once, in reverse order, after the body ended and soon; shared ones created once per worker, kept while it runs, and released once when it stops; a refused dependency fails (or retries) its own execution only, and without faults every task ends with the outcome its script says. Non-trivial: a context manager was released after something other than success."
    )
    weights = {"add": 1.0}
    fns = {"t0": 1.0, "t1": 0.7, "t2": 0.5}
    attempts = {"t0": 1, "t1": 1, "t2": 1}
    n_ops = (1, 10)
    window = (0.5, 5.0)
    fault_prob = 0.5
    ttl_choices = [900]
    runs_quick = 350
    runs_thorough = 8000
    make_tasks = staticmethod(make_tasks)

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        deps: dict[str, Any] = {}
        for i in range(rng.randint(1, 6)):
            kind = rng.choice(KINDS)
            low = [n for n in deps if deps[n]["kind"].startswith("shared")] if kind.startswith("shared") else list(deps)
            d: dict[str, Any] = {"kind": kind, "in": rng.choice([0, 0, 0.01, 0.1, 0.5]), "out": rng.choice([0, 0, 0.01, 0.1, 0.5]), "subs": sorted(rng.sample(low, min(len(low), rng.choice([0, 0, 1, 2]))))}
            if kind in ("scm", "acm") and rng.random() < 0.25:
                d["exit"] = rng.choice(["swallow", "swallow", "raise"])
            if kind.startswith("shared") and rng.random() < 0.25:
                d["fails"] = rng.randint(1, 2)
            deps[f"d{i}"] = d
        plan["deps"] = deps
        plan["fns"] = {}
        for f in self.fns:
            ds = rng.sample(list(deps), rng.randint(1, len(deps)))
            extra = [x for x, p in (("retry", 0.5), ("timeout", 0.35), ("limit", 0.25), ("rate", 0.1)) if rng.random() < p]
            if "limit" in extra and "rate" in extra:
                extra.remove("rate")
            for x in extra:
                ds.insert(rng.randint(0, len(ds)), x)
            plan["fns"][f] = {"deps": ds, "attempts": rng.choice([2, 3]) if "retry" in extra else 1, "timeout": rng.choice([0.2, 0.6]), "mark": rng.random() < 0.4}
        plan["wdeps"] = [n for n in deps if rng.random() < 0.5][:2] if rng.random() < 0.25 else []
        for o in plan["ops"]:
            o["script"] = {"dur": o["script"]["dur"] if rng.random() < 0.5 else round(rng.uniform(0, 1.0), 3), "fails": rng.choice([0, 0, 0, 1, 2, 5]), "refuse": {n: rng.choice([1, 2, 9]) for n in deps if rng.random() < 0.08}}
        ops = list(plan["ops"])
        for o in ops:
            if rng.random() < 0.2:
                t = o["t"] + max(0.0, o["delay"]) + rng.uniform(0, 1.5)
                plan["ops"].append({"op": "cancel", "c": rng.choice(ops)["c"], "t": round(t, 3), "id": "x" + o["id"], "key": o["key"]})
        plan["ops"].sort(key=lambda o: o["t"])
        if rng.random() < 0.4:
            for f in plan["faults"]:
                if "node" in f and f["node"] in plan["workers"] and rng.random() < 0.4:
                    f.clear()
                    f.update({"t": round(rng.uniform(0.3, 8), 3), "kind": "sigterm", "node": rng.choice(list(plan["workers"])), "for": round(rng.uniform(0.5, 4), 2)})
            plan["faults"].sort(key=lambda f: f["t"])
        plan["wmark"] = rng.random() < 0.2
        return plan

    def max_runs(self, o: dict[str, Any]) -> int:
        return self.W.plan["fns"][o["fn"]]["attempts"]

    def worker_kwargs(self, cfg: dict[str, Any]) -> dict[str, Any]:
        kw = super().worker_kwargs(cfg)
        w = self.W
        if w.plan["wdeps"] or w.plan.get("wmark"):
            name = next(n for n, c in w.plan["workers"].items() if c is cfg)
            w.wd[name] = kw["dependencies"] = {}
        return kw

    async def main(self, world: World) -> None:
        self.W = world
        world.shared_tries = {}
        world.dockets = {}
        world.got = {}
        world.wd = {}
        await super().main(world)

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        w.dockets.setdefault(c, docket)
        if o["op"] == "cancel":
            await docket.cancel(o["key"])
            return "ok"
        when = None if o["delay"] == 0 else w.dt(w.now() + o["delay"])
        ex = await docket.add(fns[o["fn"]], when=when, key=o["key"])(o["id"], o["script"], "A" + o["id"])
        return ex.disposition.value

    async def epilogue(self, w: World) -> None:
        if w.plan["faults"]:
            return

        async def ask(c: str) -> None:
            for o in w.ops.values():
                if o["op"] != "add" or o["c"] != c or o["status"] != "scheduled":
                    continue
                ex = await w.dockets[c].get_execution(o["key"])
                try:
                    w.got[o["id"]] = ("value", await ex.get_result(timeout=timedelta(seconds=5)))
                except Exception as e:  # noqa: BLE001
                    w.got[o["id"]] = ("error", e)

        todo = [w.run_on(c, ask(c), name=f"ask {c}") for c in w.dockets]
        for _ in range(200):
            if all(t.done() for t in todo):
                break
            await asyncio.sleep(0.5)

    # what a task needs, directly or not
    def closure(self, plan: dict[str, Any], names: list[str]) -> set[str]:
        out: set[str] = set()
        todo = [n for n in names if n in plan["deps"]]
        while todo:
            n = todo.pop()
            if n not in out:
                out.add(n)
                todo += plan["deps"][n]["subs"]
        return out

    def tail_raises(self, plan: dict[str, Any], fn: str) -> bool:
        return any(plan["deps"][n].get("exit") == "raise" for n in self.closure(plan, plan["fns"][fn]["deps"] + plan["wdeps"]))

    def expected(self, w: World, o: dict[str, Any]) -> list[str] | None:
        plan = w.plan
        f = plan["fns"][o["fn"]]
        needs = self.closure(plan, f["deps"] + plan["wdeps"])
        if self.tail_raises(plan, o["fn"]) or any(plan["deps"][n].get("fails") for n in needs):
            return None
        out = []
        for n in range(1, f["attempts"] + 1):
            if any(n <= k for d, k in o["script"]["refuse"].items() if d in needs and not plan["deps"][d]["kind"].startswith("shared")):
                out.append("refused")
            elif "timeout" in f["deps"] and o["script"]["dur"] > f["timeout"] - 0.01:
                if o["script"]["dur"] < f["timeout"] + 0.01:
                    return None
                out.append("cut")
            elif n <= o["script"]["fails"]:
                out.append("fail")
            else:
                out.append("ok")
                break
        return out

    def unfinished(self, w: World) -> list[dict[str, Any]]:
        out = []
        for o in w.ops.values():
            if o["op"] != "add" or o["status"] != "scheduled" or self.excused(w, o):
                continue
            st = [d["state"] for _, _, d in w.states(o["key"])]
            if not st or st[-1] not in ("completed", "failed", "cancelled"):
                out.append(o)
        return out

    # ---------------------------------------------------------------- judge

    def judge(self, w: World) -> None:
        plan = w.plan
        calm = not plan["faults"]
        lat = Latency(**plan["latency"]).max()
        H = w.history
        gone: dict[str, list[int]] = {}  # when a process stopped existing, or was asked to
        pauses: dict[str, list[tuple[float, float]]] = {}
        inc: dict[str, int] = {}
        of: dict[int, int] = {}
        for i, e in enumerate(H):
            if e["ev"] in ("crash", "worker-died", "worker-exit"):
                gone.setdefault(e["node"], []).append(i)
                inc[e["node"]] = inc.get(e["node"], 0) + 1
            if e["ev"] == "pause":
                pauses.setdefault(e["node"], []).append((e["t"], e["t"] + e["secs"]))
            if "node" in e:
                of[i] = inc.get(e["node"], 0)
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
        ends = {e["sid"]: dict(e, i=i) for i, e in enumerate(H) if e["ev"] == "end"}
        runs: dict[int, dict[str, Any]] = {}
        for i, e in enumerate(H):
            if e["ev"] == "start":
                if e["x"] in runs:
                    w.violate("body-twice", f"one execution of {e['key']} ran the body twice")
                runs[e["x"]] = dict(e, i=i, end=ends.get(e["sid"]))
        enters: dict[int, list[dict[str, Any]]] = {}
        state: dict[str, dict[str, Any]] = {}
        for i, e in enumerate(H):
            if e["ev"] == "enter":
                enters.setdefault(e["x"], []).append(dict(e, i=i))
                state[e["inst"]] = {"enter": i, "e": e}
            elif e["ev"] in ("entered", "refused"):
                state[e["inst"]][e["ev"]] = i
                if e["ev"] == "entered" and "seen" in e and e["x"] in runs and e["seen"] != "A" + runs[e["x"]]["key"]:
                    w.violate("wrong-binding", f"{runs[e['x']]['key']}: the dependency on its argument was bound to {e['seen']!r}")
            elif e["ev"] == "exit":
                s = state[e["inst"]]
                if "exit" in s:
                    w.violate("released-twice", f"{e['inst']} on {e['node']} was released twice, at t={H[s['exit']]['t']:.3f} and t={e['t']:.3f}")
                s["exit"] = i
        released_after_trouble = 0
        # per execution
        for x, es in enters.items():
            if x is None:
                continue
            run = runs.get(x)
            who = run["key"] if run else f"an execution on {es[0]['node']}"
            names = [e["dep"] for e in es]
            for n in set(names):
                if names.count(n) > 1 and not any("refused" in state[e["inst"]] for e in es if e["dep"] == n):
                    w.violate("entered-twice", f"{n} was created {names.count(n)} times for one execution of {who}")
            node = es[0]["node"]
            last = max([state[e["inst"]].get("exit", e["i"]) for e in es] + ([run["end"]["i"]] if run and run["end"] else []) + ([run["i"]] if run else []))
            held = [state[e["inst"]] for e in es if "entered" in state[e["inst"]] and (e["dep"] in ("mark", "wmark") or plan["deps"][e["dep"]]["kind"] in ("scm", "acm"))]
            crashed = any(g > es[0]["i"] for g in gone.get(node, []))
            for s in held:
                e = s["e"]
                if "exit" not in s:
                    if not crashed and w.now() > H[last]["t"] + 5 and (run is None or run["end"]):
                        w.violate("not-released", f"{e['inst']} of {who}, created at t={e['t']:.3f} on {node}, was never released" + (f" though the body ended at t={run['end']['t']:.3f}" if run else ""))
                    continue
                if run and run["end"] and s["exit"] < run["end"]["i"]:
                    w.violate("released-early", f"{e['inst']} of {who} was released at t={H[s['exit']]['t']:.3f}, before the body ended at t={run['end']['t']:.3f}")
                if run and not run["end"] and s["exit"] > run["i"] and not crashed:
                    w.violate("released-early", f"{e['inst']} of {who} was released at t={H[s['exit']]['t']:.3f} while its body was running")
                if not run or not run["end"] or run["end"]["out"] != "ok":
                    released_after_trouble += 1
                slept = sum(z - a for a, z in pauses.get(node, []))
                if run and run["end"] and H[s["exit"]]["t"] > run["end"]["t"] + 0.7 * len(held) + 5 + slept + 20 * lat and calm:
                    w.violate("released-late", f"{e['inst']} of {who} was released {H[s['exit']]['t'] - run['end']['t']:.3f}s after the body ended")
            out = sorted((s for s in held if "exit" in s), key=lambda s: s["exit"])
            back = [s["e"]["inst"] for s in sorted(out, key=lambda s: -s["entered"])]
            if [s["e"]["inst"] for s in out] != back:
                w.violate("release-order", f"the dependencies of {who} were released in the order {[s['e']['inst'] for s in out]}, not in reverse order of their creation {back}")
            # everybody gets the execution's own
            mine = {e["dep"]: e["inst"] for e in es if "entered" in state[e["inst"]]}
            for e in es:
                for k, v in e["got"].items():
                    if not plan["deps"][k]["kind"].startswith("shared") and mine.get(k) != v:
                        w.violate("wrong-instance", f"{e['inst']} of {who} was given {v} for {k}; the execution's own is {mine.get(k)}")
        # shared ones, by process
        alive: dict[tuple[str, int, str], list[dict[str, Any]]] = {}
        for inst, s in state.items():
            e = s["e"]
            if e["x"] is None and "entered" in s:
                alive.setdefault((e["node"], of[s["enter"]], e["dep"]), []).append(dict(s, inst=inst))
        for (node, k, dep), ss in alive.items():
            if len(ss) > 1:
                w.violate("shared-twice", f"{dep} was created {len(ss)} times by one worker process ({node}): {[x['inst'] for x in ss]}")
            s = ss[0]
            if plan["deps"][dep]["kind"] != "sharedcm":
                continue
            end = next((g for g in gone.get(node, []) if g > s["enter"]), None)
            if "exit" in s:
                late = [r for r in runs.values() if r["node"] == node and of[r["i"]] == k and (r["end"]["i"] if r["end"] else 10**9) > s["exit"] and (r["end"] or not gone.get(node))]
                asked = any(e["ev"] == "sigterm" and e["node"] == node for e in H[: s["exit"]]) or end is not None
                if late:
                    w.violate("shared-released-early", f"{s['inst']} of {node} was released at t={H[s['exit']]['t']:.3f}, before {late[0]['key']} ended there")
                elif not asked:
                    w.violate("shared-released-early", f"{s['inst']} of {node} was released at t={H[s['exit']]['t']:.3f} though the worker was not asked to stop")
            elif end is not None and H[end]["ev"] == "worker-exit":
                w.violate("shared-not-released", f"{s['inst']} of {node} was not released when the worker stopped at t={H[end]['t']:.3f}")
        # bodies run with all they need
        for x, r in runs.items():
            o = w.ops[r["key"]]
            if not r["ok"]:
                w.violate("wrong-call", f"{r['key']}: ran with another function, key or arguments")
            have = {e["dep"]: e["inst"] for e in enters.get(x, []) if "entered" in state[e["inst"]] and state[e["inst"]]["entered"] < r["i"]}
            for d in (n for n in plan["fns"][o["fn"]]["deps"] if n in plan["deps"]):
                if plan["deps"][d]["kind"].startswith("shared"):
                    ss = alive.get((r["node"], of[r["i"]], d), [])
                    if not ss or r["got"].get(d) != ss[0]["inst"] or ss[0]["entered"] > r["i"]:
                        w.violate("wrong-instance", f"{r['key']} was given {r['got'].get(d)} for {d}; its worker's shared one is {ss[0]['inst'] if ss else None}")
                elif d not in have or r["got"].get(d) != have[d]:
                    w.violate("wrong-instance", f"{r['key']} was given {r['got'].get(d)} for {d}; the execution's own is {have.get(d)}")
            for d in plan["wdeps"]:
                if not plan["deps"][d]["kind"].startswith("shared") and d not in have:
                    w.violate("wrong-instance", f"{r['key']} ran without the worker-level dependency {d}")
            if plan.get("wmark") and "wmark" not in have:
                w.violate("wrong-instance", f"{r['key']} ran without the worker's own dependency class")
            if plan["fns"][o["fn"]]["mark"] and "mark" not in have:
                w.violate("wrong-instance", f"{r['key']} ran without the dependency on its parameter")
        # outcomes
        if calm and lat < 0.2:
            for o in w.ops.values():
                if o["op"] != "add" or o["status"] != "scheduled" or any(p["op"] == "cancel" and p["key"] == o["key"] for p in w.ops.values()):
                    continue
                want = self.expected(w, o)
                if want is None:
                    continue
                outs = [r["end"]["out"] if r["end"] else None for r in runs.values() if r["key"] == o["id"]]
                if outs != [x for x in want if x != "refused"]:
                    w.violate("attempts", f"{o['id']} ({o['fn']}): its bodies ended {outs}, expected {want}")
                    continue
                kind, val = w.got.get(o["id"], ("nothing", None))
                good = kind == "value" and val == {"val": o["id"], "att": len(want)} if want[-1] == "ok" else kind == "error"
                if not good:
                    w.violate("wrong-result", f"{o['id']} ({o['fn']}): its attempts ended {want} but get_result gave {kind} {val!r}")
        for o in self.unfinished(w):
            st = [d["state"] for _, _, d in w.states(o["key"])]
            w.violate("gave-up", f"{o['id']} ({o['fn']}) never reached a final state; its states were {st[-4:]}")
        w.stats["trouble"] = released_after_trouble

    def nontrivial(self, w: World) -> bool:
        return w.stats["trouble"] > 0


CHECK = C20()
