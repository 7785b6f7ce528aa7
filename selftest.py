#!/usr/bin/env python3
"""setup_cmd: self-tests of the simulator (determinism; more in sim/tests)."""
from __future__ import annotations

import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def digests(hashseed: str, jobs: str) -> list[str]:
    env = dict(os.environ, PYTHONHASHSEED=hashseed, SIM_JOBS=jobs, SIM_EVIDENCE="0")
    r = subprocess.run([sys.executable, os.path.join(HERE, "run_check.py"), "C01", "--runs", "24", "--digests", "--keep-going"],
                       env=env, cwd=HERE, capture_output=True, text=True)
    out = [x for x in r.stdout.splitlines() if x.startswith("DIGEST")]
    if len(out) < 24:
        print(r.stdout[-3000:], r.stderr[-3000:])
        sys.exit(1)
    return out


def main() -> None:
    a = digests("0", "8")
    b = digests("77", "3")
    if a != b:
        print("simulation is not deterministic across processes, hash seeds and job counts")
        for x, y in zip(a, b):
            if x != y:
                print(x, y)
        sys.exit(1)
    print(f"determinism: {len(a)} runs identical under two hash seeds and two job counts")


main()
