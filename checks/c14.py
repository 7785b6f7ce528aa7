"""Strikes converge on every process and are enforced."""

from __future__ import annotations

import asyncio
from typing import Any

from sim.loop import EPOCH
from sim.net import Latency
from sim.world import World, is_conn_error, sleep_until

from .base import gen_faults
from .flow import FlowCheck, body_factory

XS = [1, 2, 3, "a"]
OPERATORS = ["==", "!=", ">", ">=", "<", "<=", "between"]
Rule = tuple  # (function or None, parameter or None, operator, value)


def _explode() -> Any:
    raise RuntimeError("this value can't be loaded here")


class Unloadable:
    """A strike value that only the process that made it understands."""

    def __reduce__(self) -> Any:
        return (_explode, ())


def make_tasks(w: World, node: str) -> list[Any]:
    from docket import CurrentExecution
    from docket.execution import Execution

    body = body_factory(w, node)

    async def f(val: str, script: dict[str, Any], x: Any, ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def g(val: str, script: dict[str, Any], x: Any = 2, ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    async def h(val: str, script: dict[str, Any], y: Any = 2, ex: Execution = CurrentExecution()) -> Any:
        return await body(val, script, ex)

    return [f, g, h]


def matches(rule: Rule, fn: str, x: Any) -> bool:
    rfn, par, op, v = rule
    if rfn is not None and rfn != fn:
        return False
    if par is None:
        return rfn is not None
    if fn == "h":
        return False
    try:
        if op == "==":
            return x == v
        if op == "!=":
            return x != v
        if op == ">":
            return x > v
        if op == ">=":
            return x >= v
        if op == "<":
            return x < v
        if op == "<=":
            return x <= v
        return v[0] <= x <= v[1]
    except (TypeError, ValueError):
        return False


def rule_of(o: dict[str, Any]) -> Rule:
    if o["par"] is None:
        return (o["sfn"], None, None, None)
    v = o["value"]
    if o["value"] == "unloadable":
        v = None if o["oper"] == "==" else "zz"
        return (o["sfn"], o["par"], "unloadable", v)
    return (o["sfn"], o["par"], o["oper"], tuple(v) if isinstance(v, list) else v)


class C14(FlowCheck):
    id = "C14"
    title = "Strikes converge on every process and are enforced"
    rule = (
        "1-3 clients issue conflicting strikes and restores (whole tasks, parameters of one task or of all, every operator, values of mixed types, one the others can't load) and add tasks while 1-3 workers run, with "
        "crashes, restarts, cut connections and lost replies. Oracle: the instruction stream replayed by a reference model that keeps each rule apart. Judged: every acknowledged instruction is in the stream as it was given; a process's own "
        "acknowledged strike binds it from then on; in undisturbed stretches each add is refused, and each due task started, just as the model says; a task no strike ever matched runs, a refused key can be used again; and at the end every "
        "client, a docket and a bare StrikeList opened late, and the workers (by tasks added before the first strike) agree with the model about every combination of task and argument. "
        "Non-trivial: at least one strike was in effect at the end or some task was refused."
    )
    make_tasks = staticmethod(make_tasks)
    weights = {"add": 1.0, "strike": 1.0, "restore": 0.6}
    fns = {"f": 1, "g": 1, "h": 0.2}
    attempts = {"f": 1, "g": 1, "h": 1}
    ttl_choices = [60, 900]
    n_ops = (4, 24)
    window = (0.8, 10.0)
    big_dur = 0.4
    runs_quick = 300
    runs_thorough = 8000
    redelivery = (1.5, 4.0)
    fault_prob = 0.5
    shrink_fields = ("ops", "faults")

    def gen_op(self, rng: Any, i: int, t: float, clients: list[str], keys: list[str], fns: list[str]) -> dict[str, Any]:
        o = super().gen_op(rng, i, t, clients, keys, fns)
        if o["op"] == "add":
            o["x"] = rng.choice(XS)
            o["how"] = rng.choice(["pos", "kw", "kw"])
            o["script"]["fails"] = 0
            o["delay"] = 0 if rng.random() < 0.5 else round(rng.uniform(0.05, 4), 3)
        return o

    def tweak(self, rng: Any, plan: dict[str, Any]) -> dict[str, Any]:
        pool = []
        for _ in range(rng.randint(1, 5)):
            par = rng.choice([None, "x", "x"])
            fn = rng.choice(["f", "f", "g", None]) if par else rng.choice(["f", "f", "g"])
            op = rng.choice(["==", rng.choice(OPERATORS)])
            pool.append({"sfn": fn, "par": par, "oper": op, "value": sorted(rng.sample([1, 2, 3], 2)) if op == "between" else rng.choice(XS)})
        if rng.random() < 0.1:
            pool.append({"sfn": rng.choice(["f", None]), "par": "x", "oper": "==", "value": "unloadable"})
        pairs = rng.random() < 0.3
        last = None
        for o in plan["ops"]:
            if o["op"] in ("strike", "restore"):
                rule = rng.choice(pool)
                o.update(rule)
                if pairs and last is not None and rng.random() < 0.6:
                    # somebody countermands the last one at about the same time
                    o.update({k: last[k] for k in rule}, op="restore" if last["op"] == "strike" else "strike", t=round(last["t"] + rng.uniform(0, 0.01), 4))
                last = o
            elif last is not None and rng.random() < 0.5:
                o["t"] = round(max(last["t"], 0.5) + rng.uniform(0.0, 0.1), 3)
        for o in plan["ops"]:
            o["t"] = max(o["t"], 0.6)
        plan["ops"].sort(key=lambda o: o["t"])
        end = max([o["t"] for o in plan["ops"]] + [1.0])
        names = list(plan["workers"])
        if plan["faults"]:
            clients = sorted({o["c"] for o in plan["ops"]})
            plan["faults"] = gen_faults(rng, 0.6, end + 1, rng.randint(1, 5), names, clients, None, 2.0, 3.0,
                                        cmds=["XREAD", "XADD", "XREADGROUP", None], args=["strikes"])
        for f in plan["faults"]:
            f.pop("gone", None)
        for n in names[1:]:
            if rng.random() < 0.4:
                plan["workers"][n]["start"] = round(rng.uniform(0.5, end), 2)
        plan["T"] = round(end + 90.0, 2)
        plan["copies"] = rng.choice([1, 2, 3])
        return plan


    # ------------------------------------------------------------------- run

    async def main(self, world: World) -> None:
        world.dockets = {}
        world.early = None
        world.sleepers = {}
        world.run_on("early", self.sleepers(world), name="early")
        await super().main(world)

    async def sleepers(self, w: World) -> None:
        """One task of every kind, added before the first strike and due when all has calmed down."""
        w.sleepers = {}
        w.early = docket = await w.open_docket("early", **self.docket_kwargs(w.plan))
        fns = {f.__name__: f for f in self.make_tasks(w, "early")}

        async def one(fn: str, x: Any, k: int) -> None:
            i = f"z{fn}{x}{k}"
            o = {"id": i, "op": "sleeper", "c": "early", "fn": fn, "key": i, "x": x, "script": {"dur": 0.01}, "status": "pending", "t": 0.1, "delay": 0}
            w.ops[i] = o
            try:
                ex = await docket.add(fns[fn], when=w.dt(w.plan["T"] + 0.05 * k), key=i)(i, o["script"], x)
            except Exception as e:  # noqa: BLE001
                o["status"] = "maybe"
                if not w.excusable(e, 0.0):
                    w.violate("api-error", f"add raised {type(e).__name__}: {e}")
                return
            o["status"] = ex.disposition.value
            # (latency may take it past the first strikes)
            if o["status"] == "scheduled" or w.now() < 0.6:
                w.sleepers[i] = o

        await asyncio.gather(*(one(fn, x, k) for fn in ("f", "g") for x in XS for k in range(w.plan["copies"])))

    async def do_op(self, w: World, c: str, docket: Any, fns: dict[str, Any], handles: dict[str, Any], o: dict[str, Any]) -> str:
        if c not in w.dockets:
            await docket.wait_for_strikes_loaded()
            w.dockets[c] = docket
            o["tinv"] = w.now()
        if o["op"] == "add":
            return await self.add(w, docket, fns, o)
        v = Unloadable() if o["value"] == "unloadable" else tuple(o["value"]) if isinstance(o["value"], list) else o["value"]
        target = fns[o["sfn"]] if o["sfn"] and o["id"][-1] in "02468" else o["sfn"]
        await getattr(docket, o["op"])(target, *([o["par"], o["oper"], v] if o["par"] else []))
        return "ok"

    async def add(self, w: World, docket: Any, fns: dict[str, Any], o: dict[str, Any]) -> str:
        when = None if o["delay"] == 0 else w.dt(w.now() + o["delay"])
        o["when"] = w.now() + o["delay"]
        add = docket.add(fns[o["fn"]], when=when, key=o["key"])
        if o["fn"] == "h":
            ex = await add(o["id"], o["script"], o["x"])
        elif o["fn"] == "g" and o["x"] == 2 and o["how"] == "kw":
            ex = await add(o["id"], o["script"])
        elif o["how"] == "kw":
            ex = await add(o["id"], o["script"], x=o["x"])
        else:
            ex = await add(o["id"], o["script"], o["x"])
        return ex.disposition.value

    async def until_settled(self, w: World) -> None:
        await sleep_until(w, w.plan["T"] + 15.0)
        w.probes = []
        ts = [w.run_on(c, self.probe(w, c, d), name=f"probe {c}") for c, d in [*w.dockets.items(), *([("early", w.early)] if w.early else [])] if not w.node(c).dead]
        ts.append(w.run_on("late", self.late(w), name="late"))
        await asyncio.wait(ts, timeout=60)
        await sleep_until(w, w.now() + 20.0)
        w.settled_at = w.now()

    async def late(self, w: World) -> None:
        from docket import StrikeList

        docket = await w.open_docket("late", **self.docket_kwargs(w.plan))
        await docket.wait_for_strikes_loaded()
        await self.probe(w, "late", docket)
        async with StrikeList(url=w.url, name="d") as bare:
            await bare.wait_for_strikes_loaded()
            for x in XS:
                w.probes.append(("a bare strike list", None, x, bare.is_stricken({"x": x, "y": 1})))
        # keys whose task was refused by a worker can be used again
        fns = {f.__name__: f for f in self.make_tasks(w, "late")}
        started = set(self.starts(w))
        for i, o in list(w.ops.items()):
            if o["op"] in ("add", "sleeper") and o["status"] == "scheduled" and i not in started and any(d["state"] == "cancelled" for _, _, d in w.states(o["key"])):
                a = {"id": f"again-{i}", "op": "again", "c": "late", "fn": "h", "key": o["key"], "x": 1, "how": "pos", "script": {"dur": 0.0}, "delay": 0, "t": w.now()}
                w.ops[a["id"]] = a
                a["tinv"] = w.now()
                a["status"] = await self.add(w, docket, fns, a)
                a["tret"] = w.now()

    async def probe(self, w: World, c: str, docket: Any) -> None:
        fns = {f.__name__: f for f in self.make_tasks(w, c)}
        for fn in ("f", "g", "h"):
            for x in XS:
                for left in (2, 1, 0):
                    try:
                        ex = await docket.add(fns[fn], when=w.dt(w.now() + 5000))("probe", {}, x)
                        break
                    except Exception as e:  # noqa: BLE001  (a pooled connection may be found broken once)
                        if not left or not is_conn_error(e):
                            w.violate("api-error", f"add on {c} raised {type(e).__name__}: {e}")
                            raise
                w.probes.append((c, fn, x, ex.disposition.value == "struck"))

    # ----------------------------------------------------------------- judge

    def log(self, w: World) -> list[tuple[float, str, Rule, Any]]:
        from docket.strikelist import StrikeInstruction

        out = []
        s = w.redis.lookup(b"d:strikes")
        if s is None:
            return out
        for (ms, _), fields in self.entries(s):
            try:
                m = StrikeInstruction.from_message(fields)
                got = (m.direction, m.function, m.parameter, str(getattr(m.operator, "value", m.operator)), m.value)
            except RuntimeError:
                got = (fields[b"direction"].decode(), fields[b"function"].decode() if b"function" in fields else None, "x", "==", "unloadable")
            out.append((ms / 1000.0 - EPOCH, got))
        return out

    def entries(self, s: Any) -> Any:
        for e in s.entries.items() if isinstance(s.entries, dict) else s.entries:
            i, fields = e[0], e[1]
            if isinstance(fields, (list, tuple)):
                fields = dict(zip(fields[::2], fields[1::2]))
            yield (i, fields)

    def judge(self, w: World) -> None:
        lat = Latency(**w.plan["latency"]).max()
        calm = not w.plan["faults"]
        log = []
        for t, (direction, fn, par, oper, value) in self.log(w):
            # which of the operations in flight at the time it is
            for o in w.ops.values():
                if o["op"] != direction or o.get("tinv") is None:
                    continue
                v = tuple(o["value"]) if isinstance(o["value"], list) else o["value"]
                if o["tinv"] - 0.002 <= t and (fn, par) == (o["sfn"], o["par"]) and (par is None or (oper == o["oper"] and value == v and type(value) is type(v))):
                    o.setdefault("logged", []).append(t)
                    break
            else:
                w.violate("wrong-instruction", f"an instruction nobody gave is in effect: {direction} {fn} {par} {oper} {value!r}")
            log.append((t, direction, rule_of({"sfn": fn, "par": par, "oper": oper, "value": value})))
        for o in w.ops.values():
            if o["status"] == "error":
                w.violate("api-error", f"{o['op']} {o['id']} raised {o['error']}")
            if o["op"] in ("strike", "restore") and o["status"] == "ok":
                r = rule_of(o)
                at = [t for t, d, s in log if d == o["op"] and s == r and o["tinv"] - 0.002 <= t <= o["tret"] + 0.002]
                if not at:
                    w.violate("instruction-lost", f"{o['op']} {r} of {o['c']} was acknowledged at t={o['tret']:.3f}, but isn't in the stream as given")
                else:
                    o["at"] = at[0]

        def spans(fn: str, x: Any) -> list[tuple[float, float]]:
            """When the model has the task stricken."""
            rules: set[Rule] = set()
            out: list[list[float]] = []
            on = False
            for t, d, r in log:
                (rules.add if d == "strike" else rules.discard)(r)
                m = any(matches(r, fn, x) for r in rules)
                if m and not on:
                    out.append([t, 1e9])
                elif on and not m:
                    out[-1][1] = t
                on = m
            return [(a, b) for a, b in out]

        memo: dict[Any, list[tuple[float, float]]] = {}

        def sp(fn: str, x: Any) -> list[tuple[float, float]]:
            k = (fn, x)
            if k not in memo:
                memo[k] = spans(fn, x)
            return memo[k]

        def always(fn: str, x: Any, a: float, b: float) -> bool:
            return any(p + 0.002 <= a and b < q for p, q in sp(fn, x))  # (the stream has milliseconds)

        def never(fn: str, x: Any, a: float, b: float) -> bool:
            return not any(p - 0.002 <= b and a <= q + 0.002 for p, q in sp(fn, x))

        T = w.plan["T"]
        lag = 0.05 + 12 * lat
        refused = 0
        sts = self.starts(w)
        for o in w.ops.values():
            if o["op"] not in ("add", "again") or o["status"] not in ("scheduled", "struck", "already_scheduled"):
                continue
            refused += o["status"] == "struck"
            what = f"{o['fn']}(x={o['x']!r}) at t={o['tinv']:.3f}-{o['tret']:.3f} by {o['c']}"
            settled = calm or o["op"] == "again"
            if settled and o["status"] == "struck" and never(o["fn"], o["x"], o["tinv"] - lag, o["tret"]):
                w.violate("wrongly-refused", f"add of {what} was refused though no strike matched it")
            if settled and o["status"] != "struck" and always(o["fn"], o["x"], o["tinv"] - lag, o["tret"]):
                w.violate("strike-ignored", f"add of {what} was {o['status']} though it had been stricken for longer")
            if never(o["fn"], o["x"], -1, 1e9) and o["status"] == "struck":
                w.violate("wrongly-refused", f"add of {what} was refused though no strike ever matched it")
            if o["status"] != "struck":
                for s in w.ops.values():
                    # its own acknowledged strike
                    if s["op"] == "strike" and s["c"] == o["c"] and s["status"] == "ok" and s["ret"] <= o.get("inv", 1e9) and s.get("at") is not None and matches(rule_of(s), o["fn"], o["x"]):
                        if not any(d == "restore" and r == rule_of(s) and s["at"] - 0.002 <= t <= o["tret"] + 0.002 for t, d, r in log):
                            w.violate("strike-ignored", f"add of {what} was {o['status']} though the same process's strike {rule_of(s)} had been acknowledged at t={s['tret']:.3f}")
                            break
            if o["status"] == "scheduled":
                evs = sts.get(o["id"], [])
                if not evs and never(o["fn"], o["x"], o["tinv"] - lag, 1e9) and not self.reused(w, o):
                    # tasks that fail to run for the faults' sake are recorded as failed
                    if calm or not any(d["state"] == "failed" for _, _, d in w.states(o["key"])):
                        w.violate("lost-task", f"{what} was never stricken and never ran")
                if o["op"] == "again" and not evs:
                    w.violate("key-lost", f"key {o['key']}, whose stricken task was dropped, was used again, but the task never ran")
            if o["op"] == "again" and o["status"] != "scheduled":
                w.violate("key-lost", f"key {o['key']}, whose stricken task was dropped, can't be used again: {o['status']}")
        for o in w.ops.values():
            for e in sts.get(o["id"], []):
                if o["op"] not in ("add", "sleeper") or e["redel"]:
                    continue
                if not e["ok"]:
                    w.violate("wrong-call", f"{o['id']}: ran with another function, key or arguments")
                if (calm or e["t"] >= T - 1) and always(o["fn"], o["x"], e["t"] - lag, e["t"]):
                    w.violate("stricken-task-ran", f"{o['fn']}(x={o['x']!r}) ({o['id']}) started on {e['node']} at t={e['t']:.3f} though it had been stricken for longer than {lag:.2f}s")
        for i, o in w.sleepers.items():
            if o["status"] != "scheduled":
                w.violate("wrongly-refused", f"{i} was {o['status']} before any strike")
            elif not sts.get(i) and never(o["fn"], o["x"], T - 20, 1e9):
                w.violate("restore-ignored", f"{o['fn']}(x={o['x']!r}) ({i}), due at t={T}, never ran though no strike was in effect for it any more")
        struck = 0
        for c, fn, x, s in w.probes:
            if fn is None:
                rules: set[Rule] = set()
                for _, d, r in log:
                    (rules.add if d == "strike" else rules.discard)(r)
                want = any(r[0] is None and matches(r, "any", x) for r in rules)
            else:
                want = always(fn, x, T, T + 60)
            struck += want
            if s != want:
                w.violate("diverged", f"{c} has {fn or 'the parameter'}(x={x!r}) {'stricken' if s else 'not stricken'} at the end, though it is{'' if want else ' not'} after {[(round(t, 3), d, r) for t, d, r in log if matches(r, fn or 'any', x)]}")
                break
        alive = sum(1 for c in w.dockets if not w.node(c).dead) + 1 + (w.early is not None)
        if len(w.probes) != alive * 3 * len(XS) + len(XS):
            w.violate("api-error", f"only {len(w.probes)} of the probes at the end were answered by {alive} processes")
        w.stats["struck"] = struck
        w.stats["refused"] = refused

    def reused(self, w: World, o: dict[str, Any]) -> bool:
        return any(p is not o and p["key"] == o["key"] for p in w.ops.values())

    def nontrivial(self, w: World) -> bool:
        return w.stats.get("struck", 0) > 0 or w.stats.get("refused", 0) > 0


CHECK = C14()
