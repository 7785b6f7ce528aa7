#!/usr/bin/env python3
"""Seeded search over simulated executions for one property.

    run_check.py ID [--runs N] [--one IDX] [--directed] [-v]
    run_check.py ID --replay FILE [-v]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the harness itself failed.
"""

from __future__ import annotations

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO_SRC = os.environ.get("DOCKET_SRC", "/repo/src")
PY = "/opt/venv/bin/python"

if os.environ.get("SIM_REEXEC") != "1":
    env = dict(os.environ)
    env["SIM_REEXEC"] = "1"
    env.setdefault("PYTHONHASHSEED", "0")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["TZ"] = "UTC"
    for k in list(env):
        if k.startswith(("OTEL_", "DOCKET_", "REDIS_")) and k != "DOCKET_SRC":
            del env[k]
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-B", os.path.abspath(__file__), *sys.argv[1:]], env)

sys.path[:0] = [REPO_SRC, HERE]

from sim.runner import cli  # noqa: E402

sys.exit(cli(sys.argv[1:], HERE))
