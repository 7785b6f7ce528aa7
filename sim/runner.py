"""Run many seeded simulations in forked children, minimise, report."""

from __future__ import annotations

import argparse
import copy
import faulthandler
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import sys
import traceback
from typing import Any

from . import determinism as det

det.install()

from .determinism import real_perf  # noqa: E402

CHILD_WALL = float(os.environ.get("SIM_CHILD_WALL", "150"))


def load_check(pid: str) -> Any:
    return importlib.import_module(f"checks.{pid.lower()}").CHECK


def warm() -> None:
    """Import everything once, before forking."""
    from .world import silence_logging

    silence_logging()
    import docket  # noqa: F401
    import docket.worker  # noqa: F401
    import redis.asyncio  # noqa: F401


# --------------------------------------------------------------------------
# one run


def run_plan(check: Any, plan: dict[str, Any], verbose: bool = False, keep_log: int = 0) -> dict[str, Any]:
    from .world import World

    gc.disable()  # collection times depend on the process's history, not on the seed
    t0 = real_perf()
    world = World(plan, verbose=verbose)
    world.net.keep_log = keep_log
    check.prepare(world)
    world.run(check.main)
    check.judge(world)
    res = {
        "violations": world.violations,
        "digest": world.net.digest.hexdigest(),
        "steps": world.loop.steps,
        "requests": world.net.requests,
        "sim_s": world.now(),
        "injected": world.net.injected,
        "shape": world.shape(),
        "nontrivial": bool(check.nontrivial(world)),
        "stats": world.stats,
        "events": len(world.history),
        "deaths": sum(p.deaths for p in world.procs.values()),
        "unhandled": len(world.loop.unhandled),
        "wall": real_perf() - t0,
    }
    if keep_log:
        res["log"] = world.net.log_tail
    return res


class Child:
    def __init__(self, idx: Any, plan: dict[str, Any], pid: int, fd: int):
        self.idx, self.plan, self.pid, self.fd = idx, plan, pid, fd
        self.buf = bytearray()
        self.t0 = real_perf()


def precompile_from(check: Any, plans: list[dict[str, Any]]) -> None:
    """Run a few plans in a child to learn which Lua scripts are in use and
    compile those here, once, so that children inherit them."""
    from . import redisd

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(int(CHILD_WALL))
            for plan in plans:
                try:
                    run_plan(check, plan)
                except BaseException:  # noqa: BLE001
                    pass
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps([s.decode() for s in redisd.SOURCES.values()]).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if data:
        redisd.precompile([s.encode() for s in json.loads(data)])


class Pool:
    def __init__(self, check: Any, jobs: int):
        self.check = check
        self.jobs = jobs
        self.live: dict[int, Child] = {}

    def spawn(self, idx: Any, plan: dict[str, Any], keep_log: int = 0) -> None:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for c in self.live.values():
                    try:
                        os.close(c.fd)
                    except OSError:
                        pass
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                gc.disable()
                sys.stdin = None
                try:
                    res = run_plan(self.check, plan, keep_log=keep_log)
                    out = {"ok": res}
                except BaseException:  # noqa: BLE001
                    out = {"error": traceback.format_exc()[-6000:]}
                data = json.dumps(out, default=repr).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:  # noqa: BLE001
                code = 3
            os._exit(code)
        os.close(w)
        self.live[r] = Child(idx, plan, pid, r)

    def wait(self, timeout: float = 1.0) -> list[tuple[Child, dict[str, Any]]]:
        done: list[tuple[Child, dict[str, Any]]] = []
        if not self.live:
            return done
        rd, _, _ = select.select(list(self.live), [], [], timeout)
        now = real_perf()
        for fd in rd:
            c = self.live[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                c.buf += chunk
                continue
            os.close(fd)
            del self.live[fd]
            os.waitpid(c.pid, 0)
            try:
                out = json.loads(bytes(c.buf))
            except ValueError:
                out = {"error": "child died without a result"}
            done.append((c, out))
        for fd, c in list(self.live.items()):
            if now - c.t0 > CHILD_WALL:
                os.kill(c.pid, signal.SIGKILL)
                os.close(fd)
                del self.live[fd]
                os.waitpid(c.pid, 0)
                done.append((c, {"error": f"wall timeout after {CHILD_WALL}s"}))
        return done

    def kill_all(self) -> None:
        for fd, c in list(self.live.items()):
            try:
                os.kill(c.pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(c.pid, 0)
            os.close(fd)
        self.live.clear()

    def run_all(self, plans: list[dict[str, Any]], keep_log: int = 0) -> list[dict[str, Any]]:
        out: list[Any] = [None] * len(plans)
        nxt = 0
        while nxt < len(plans) or self.live:
            while nxt < len(plans) and len(self.live) < self.jobs:
                self.spawn(nxt, plans[nxt], keep_log)
                nxt += 1
            for c, o in self.wait():
                out[c.idx] = o
        return out


# --------------------------------------------------------------------------
# minimisation


def kinds_of(o: dict[str, Any]) -> set[str]:
    if "ok" not in o:
        return set()
    return {v["kind"] for v in o["ok"]["violations"]}


def minimise(check: Any, pool: Pool, plan: dict[str, Any], kind: str, budget: float) -> dict[str, Any]:
    t_end = real_perf() + budget
    best = plan

    def try_batch(cands: list[dict[str, Any]]) -> dict[str, Any] | None:
        """First candidate (in order) which still fails the same way."""
        for i in range(0, len(cands), pool.jobs):
            if real_perf() > t_end:
                return None
            outs = pool.run_all(cands[i : i + pool.jobs])
            for c, o in zip(cands[i : i + pool.jobs], outs):
                if kind in kinds_of(o):
                    return c
        return None

    # 1. simplify the environment
    simple = []
    for key, val in (("latency", {"kind": "zero", "scale": 1.0}), ("latency", {"kind": "const", "scale": 1.0}),
                     ("skews", {}), ("resp2", False)):
        if best.get(key) not in (None, val):
            p = copy.deepcopy(best)
            p[key] = val
            simple.append(p)
    for p in simple:
        got = try_batch([p])
        if got is not None:
            best = got
    # 2. ddmin over list-valued fields
    for field in check.shrink_fields:
        items = best.get(field)
        if not isinstance(items, list) or not items:
            continue
        n = 2
        while len(best[field]) >= 1 and real_perf() < t_end:
            cur = best[field]
            n = min(n, len(cur))
            size = max(1, (len(cur) + n - 1) // n)
            cands = []
            for i in range(0, len(cur), size):
                p = copy.deepcopy(best)
                p[field] = cur[:i] + cur[i + size :]
                cands.append(p)
            got = try_batch(cands)
            if got is not None:
                best = got
                n = max(n - 1, 2)
                if not best[field]:
                    break
            else:
                if size == 1:
                    break
                n = min(len(cur), n * 2)
    # 3. check-specific simplifications
    for _ in range(4):
        if real_perf() > t_end:
            break
        cands = check.simplify(copy.deepcopy(best))
        got = try_batch(cands) if cands else None
        if got is None:
            break
        best = got
    return best


# --------------------------------------------------------------------------


def known_findings(here: str, pid: str) -> list[dict[str, Any]]:
    p = os.path.join(here, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        doc = json.load(f)
    return [k for k in doc.get("findings", []) if k["property"] == pid]


def match_finding(check: Any, plan: dict[str, Any], v: dict[str, Any], findings: list[dict[str, Any]]) -> Any:
    for k in findings:
        if check.finding_matches(k, plan, v):
            return k
    return None


def cli(argv: list[str], here: str) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--one", type=int)
    ap.add_argument("--only", type=int, help="search just this index (with minimisation)")
    ap.add_argument("--directed", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SIM_JOBS", "8")))
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    os.chdir(here)
    faulthandler.enable()
    pid = a.id.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        check = load_check(pid)
        check.load()
        warm()
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={pid}: could not import the code under test", file=sys.stderr)
        return 2
    if a.replay:
        with open(a.replay) as f:
            doc = json.load(f)
        res = run_plan(check, doc["plan"], verbose=a.v)
        same = doc.get("digest") in (None, res["digest"])
        for v in res["violations"]:
            print(f"{v['kind']} at t={v['t']}: {v['detail']}")
        print(f"digest {res['digest']} {'== recorded' if same else '!= recorded ' + str(doc.get('digest'))}")
        if any(v["kind"] == doc["violation"]["kind"] for v in res["violations"]):
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        print("not reproduced")
        return 0
    if a.one is not None or a.directed is not None:
        if a.directed is not None:
            plan = check.directed()[a.directed]
        else:
            plan = make_plan(check, pid, seed, tier, a.one)
        if a.v:
            print(json.dumps(plan, indent=1)[:20000], file=sys.stderr)
        res = run_plan(check, plan, verbose=a.v)
        print(json.dumps({k: v for k, v in res.items() if k != "log"}, indent=1))
        return 1 if res["violations"] else 0
    return search(check, pid, seed, tier, a, here)


def make_plan(check: Any, pid: str, seed: int, tier: str, i: int) -> dict[str, Any]:
    rng = random.Random(f"{pid}/{seed}/{i}")
    plan = check.gen(rng, tier, i)
    plan.setdefault("seed", f"{pid}/{seed}/{i}")
    return json.loads(json.dumps(plan))


def search(check: Any, pid: str, seed: int, tier: str, a: Any, here: str) -> int:
    t0 = real_perf()
    print(f"# property={pid} VERIF_SEED={seed} tier={tier}", flush=True)
    n = a.runs if a.runs is not None else (check.runs_quick if tier == "quick" else check.runs_thorough)
    wall_cap = float(os.environ.get("SIM_WALL", "300" if tier == "quick" else "3000"))
    findings = known_findings(here, pid)
    directed = [json.loads(json.dumps(p)) for p in check.directed()] if a.runs is None or a.runs > 0 else []
    for j, p in enumerate(directed):
        p.setdefault("seed", f"{pid}/directed/{j}")
    precompile_from(check, [make_plan(check, pid, seed, tier, 0)])
    gc.collect()
    gc.freeze()
    pool = Pool(check, a.jobs)
    results: dict[int, dict[str, Any]] = {}
    errors: list[str] = []
    first_bad: int | None = None
    plans: dict[int, dict[str, Any]] = {}
    bad: dict[int, list[dict[str, Any]]] = {}
    known_hits: dict[str, int] = {}
    nxt = -len(directed)
    if a.only is not None:
        nxt, n = a.only, a.only + 1
    while True:
        while (
            nxt < n
            and len(pool.live) < pool.jobs
            and (first_bad is None or a.keep_going)
            and len(errors) < 3
            and real_perf() - t0 < wall_cap
        ):
            plan = directed[nxt + len(directed)] if nxt < 0 else make_plan(check, pid, seed, tier, nxt)
            plans[nxt] = plan
            pool.spawn(nxt, plan)
            nxt += 1
        if not pool.live:
            break
        for c, o in pool.wait():
            if "error" in o:
                errors.append(f"run {c.idx}: {o['error']}")
                continue
            r = o["ok"]
            results[c.idx] = r
            rest = []
            for v in r["violations"]:
                k = match_finding(check, c.plan, v, findings)
                if k is None:
                    rest.append(v)
                else:
                    known_hits[k["id"]] = known_hits.get(k["id"], 0) + 1
            if rest:
                bad[c.idx] = rest
                first_bad = c.idx if first_bad is None else min(first_bad, c.idx)
    if a.digests:
        for i in sorted(results):
            print(f"DIGEST {i} {results[i]['digest']}")
    status = 0
    for k in findings:
        hits = known_hits.get(k["id"], 0)
        if hits:
            print(f"KNOWN-FINDING: property={pid} {k['what']} (seen in {hits} runs)")
    if a.keep_going and bad:
        by: dict[str, list[int]] = {}
        for i in sorted(bad):
            for v in bad[i]:
                by.setdefault(v["kind"], []).append(i)
        for k, ii in sorted(by.items()):
            i = ii[0]
            d = next(v for v in bad[i] if v["kind"] == k)
            print(f"  {k}: {len(set(ii))} runs {sorted(set(ii))[:12]} e.g. t={d['t']} {d['detail'][:300]}")
    replay_path = None
    if first_bad is not None:
        v = bad[first_bad][0]
        plan = plans[first_bad]
        outs = pool.run_all([plan, plan])
        digs = {o["ok"]["digest"] for o in outs if "ok" in o} | {results[first_bad]["digest"]}
        if len(digs) != 1:
            print(f"ERROR property={pid}: run {first_bad} is not deterministic: {digs}", file=sys.stderr)
            return 2
        if a.no_shrink or a.keep_going:
            small = plan
        else:
            small = minimise(check, pool, plan, v["kind"], float(os.environ.get("SIM_SHRINK", "40")))
        (o1,) = pool.run_all([small], keep_log=400)
        if "ok" not in o1 or v["kind"] not in kinds_of(o1):
            small = plan
            (o1,) = pool.run_all([small], keep_log=400)
        r1 = o1["ok"]
        vv = next(x for x in r1["violations"] if x["kind"] == v["kind"])
        os.makedirs("replays", exist_ok=True)
        h = hashlib.blake2b(json.dumps(small, sort_keys=True).encode(), digest_size=4).hexdigest()
        replay_path = f"replays/{pid}-{h}.json"
        with open(replay_path, "w") as f:
            json.dump(
                {"property": pid, "violation": vv, "digest": r1["digest"], "plan": small,
                 "found_by": {"seed": seed, "index": first_bad, "tier": tier},
                 "all_violations": r1["violations"][:20], "log_tail": r1["log"]},
                f, indent=1)
        print(f"{vv['kind']} at t={vv['t']}: {vv['detail']}")
        print(f"found by index {first_bad}; minimised to "
              + ", ".join(f"{len(small.get(f) or [])} {f}" for f in check.shrink_fields if isinstance(small.get(f), list)))
        print(f"VIOLATION property={pid} replay={replay_path}")
        status = 1
    if errors:
        for e in errors:
            print(f"ERROR property={pid}: {e}", file=sys.stderr)
        status = status or 2
    wall = real_perf() - t0
    if os.environ.get("SIM_EVIDENCE") != "0":
        write_evidence(check, pid, seed, tier, results, directed, plans, wall, len(bad), known_hits, errors, here, n)
    if status == 0:
        print(f"OK property={pid} runs={len(results)} wall={wall:.1f}s")
    return status


def write_evidence(check: Any, pid: str, seed: int, tier: str, results: dict[int, dict[str, Any]], directed: list[Any],
                   plans: dict[int, Any], wall: float, nbad: int, known_hits: dict[str, int], errors: list[str],
                   here: str, wanted: int) -> None:
    inj: dict[str, int] = {}
    stats: dict[str, Any] = {}
    sim = steps = req = deaths = 0.0
    shapes: set[str] = set()
    shapes_nt: set[str] = set()
    for r in results.values():
        for k, v in r["injected"].items():
            inj[k] = inj.get(k, 0) + v
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                stats[k] = stats.get(k, 0) + v
        sim += r["sim_s"]
        steps += r["steps"]
        req += r["requests"]
        deaths += r["deaths"]
        shapes.add(r["shape"])
        if r["nontrivial"]:
            shapes_nt.add(r["shape"])
    per_h = len(results) / wall * 3600 if wall else 0.0
    samples = []
    for i in sorted(results)[:: max(1, len(results) // 3)][:3]:
        samples.append({"index": i, "plan": trim(plans[i]), "digest": results[i]["digest"],
                        "events": results[i]["events"], "sim_s": round(results[i]["sim_s"], 3)})
    doc = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(shapes_nt),
            "rule": check.rule + "  Distinct = distinct hash of the ordered sequence of observed events (kind, node, key) of the run.",
            "samples": samples,
            "directed_runs": len(directed),
            "runs_wanted": wanted,
            "runs_per_hour": round(per_h),
            "simulated_seconds": round(sim, 1),
            "simulated_hours_per_wall_hour": round(sim / wall, 1) if wall else 0,
            "faults_injected": dict(sorted(inj.items())),
            "worker_process_deaths": int(deaths),
            "distinct_interleavings": len(shapes),
            "scheduler_steps": int(steps),
            "server_commands": int(req),
            "probes": dict(sorted(stats.items())),
            "max_steps_in_one_run": max((r["steps"] for r in results.values()), default=0),
            "known_findings_seen": known_hits,
            "harness_errors": len(errors),
            "real_components": "all of docket (Docket, Worker, Execution, Lua scripts as written, dependencies), redis-py 8 asyncio client incl. pools, retries, RESP parsers, locks and pubsub, asyncio primitives, cloudpickle, cronsim, croniter, py-key-value store",
            "stubbed_components": "Redis server (SimRedis, incl. Lua interpreter), TCP (SimNet), event loop and clocks (SimLoop), entropy, process boundaries",
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": nbad,
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    path = os.path.join(here, "evidence", f"{pid}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, path)


def trim(plan: Any) -> Any:
    s = json.dumps(plan)
    return plan if len(s) < 2500 else json.loads(json.dumps({"truncated": s[:2400]}))
