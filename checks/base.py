from __future__ import annotations

import re
from typing import Any


class Check:
    id = ""
    title = ""
    rule = ""
    assumptions: list[str] = [
        "SimRedis executes commands and Lua scripts atomically in arrival order, as a single Redis 7 primary does (differentially tested against burner-redis and unit-tested in setup).",
        "A process crash loses all of its memory and connections; Redis itself loses nothing (restart keeps data, drops connections and the script cache) unless a check says otherwise.",
        "Sampling, not enumeration: a clean batch is evidence over the executions explored only.",
    ]
    runs_quick = 200
    runs_thorough = 4000
    shrink_fields: tuple[str, ...] = ("ops", "faults")

    def load(self) -> None:
        """Import what needs docket (after determinism.install())."""

    def directed(self) -> list[dict[str, Any]]:
        return []

    def gen(self, rng: Any, tier: str, idx: int) -> dict[str, Any]:
        raise NotImplementedError

    def prepare(self, world: Any) -> None:
        pass

    async def main(self, world: Any) -> None:
        raise NotImplementedError

    def judge(self, world: Any) -> None:
        pass

    def nontrivial(self, world: Any) -> bool:
        return True

    def simplify(self, plan: dict[str, Any]) -> list[dict[str, Any]]:
        return []

    def finding_matches(self, k: dict[str, Any], plan: dict[str, Any], v: dict[str, Any]) -> bool:
        m = k["match"]
        if v["kind"] != m["kind"]:
            return False
        if "detail" in m and not re.search(m["detail"], v["detail"]):
            return False
        return all(plan.get(a) == b for a, b in m.get("plan", {}).items())


# -- fault generation ---------------------------------------------------------

WORKER_CMDS = ["EVALSHA", "EVALSHA", "EVALSHA", "XREADGROUP", "XAUTOCLAIM", "HGETALL", "XCLAIM", "SET", "GET", "MULTI",
               "ZADD", "SADD", None]
CLIENT_CMDS = ["EVALSHA", "EVALSHA", "SET", "PUBLISH", "EXPIRE", "HGETALL", None]


def gen_latency(rng: Any) -> dict[str, Any]:
    return {
        "kind": rng.choice(["zero", "const", "lan", "lan", "exp", "spiky"]),
        "scale": rng.choice([0.5, 1.0, 1.0, 3.0]),
    }


def gen_faults(
    rng: Any,
    t0: float,
    t1: float,
    n: int,
    workers: list[str],
    clients: list[str] = [],
    kinds: list[str] | None = None,
    max_pause: float = 3.0,
    max_outage: float = 4.0,
    cmds: list[Any] | None = None,
    args: list[str] | None = None,
) -> list[dict[str, Any]]:
    allk = kinds or ["crash", "crash_before", "crash_after", "lose_request", "lose_reply", "pause", "reset", "partition",
                     "server_restart", "script_flush", "slow", "stall_before", "delay_request"]
    # swarm: a random subset of kinds per run
    sub = [k for k in allk if rng.random() < 0.5] or [rng.choice(allk)]
    out = []
    for _ in range(n):
        k = rng.choice(sub)
        if k == "script_flush" and any(f["kind"] == k for f in out):
            continue  # a flush between SCRIPT LOAD and the retried EVALSHA is an error redis-py reports, rightly
        node = rng.choice(workers) if (not clients or rng.random() < 0.75) else rng.choice(clients)
        is_w = node in workers
        f: dict[str, Any] = {"t": round(rng.uniform(t0, t1), 3), "kind": k, "node": node}
        if k in ("crash_before", "crash_after", "lose_request", "lose_reply", "stall_before", "delay_request"):
            c = rng.choice(cmds if cmds and is_w else (WORKER_CMDS if is_w else CLIENT_CMDS))
            if c:
                f["cmd"] = c
            f["nth"] = rng.choice([1, 1, 1, 2, 3, 5])
            if args and rng.random() < 0.3:
                f["arg"] = rng.choice(args)
            if k.startswith("crash"):
                f["down"] = round(rng.uniform(0.1, 3.0), 2)
            if k in ("stall_before", "delay_request"):
                f["for"] = round(rng.uniform(0.05, max_pause), 2)
        elif k == "crash":
            f["for"] = round(rng.uniform(0.1, 3.0), 2)
        elif k in ("pause", "partition"):
            f["for"] = round(rng.uniform(0.1, max_pause), 2)
        elif k == "server_restart":
            f["for"] = round(rng.uniform(0.05, max_outage), 2)
            f.pop("node")
        elif k == "script_flush":
            f.pop("node")
        elif k == "slow":
            f["delay"] = round(rng.uniform(0.01, 0.4), 3)
            f["for"] = round(rng.uniform(0.2, 5.0), 2)
        elif k == "reset":
            f["which"] = rng.choice(["all", "all", "blocked", "pubsub"])
        elif k == "skew":
            f["skew"] = round(rng.uniform(-2.0, 2.0), 2)
        elif k == "sigterm":
            f["for"] = round(rng.uniform(0.5, 4.0), 2)
        out.append(f)
    out.sort(key=lambda f: f["t"])
    return out
