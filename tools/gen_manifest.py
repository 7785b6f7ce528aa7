"""Writes MANIFEST.json from the checks present and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
    "C26": "The simulated server is a model of one standalone Redis 7; there is no model of Redis Cluster (slots, MOVED/ASK, CROSSSLOT) or of Sentinel (monitors, elections, asynchronous replication), and none can be had offline to check such a model against. Without one a simulated failover would test the model's author, not docket, so nothing is claimed.",
    "C27": "Pure functions of one command-line string: no schedule, clock, fault or concurrency for a simulator to control, so deterministic simulation has nothing to decide here.",
}
NOTE = ("Seeded sampling of simulated executions of the real docket and redis-py code over a simulated network, clock and Redis server; "
        "a clean batch is evidence over the executions explored, not a proof. Trusts the SimRedis model (cross-checked against burner-redis in setup) and the virtual-time event loop.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")) and i not in NA:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run_check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {i}",
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults",
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
doc = {"version": 1, "setup_cmd": "python3 selftest.py", "checks": checks, "not_applicable": na,
       "notes": "No hooks are needed in /repo: the event loop, sockets, clocks and entropy are replaced from outside. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
