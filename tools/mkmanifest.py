#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property that has a module in sim/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Seeded search over simulated runs (schedules, clocks, faults, inputs), not exhaustive. Trusted: the simulator "
        "in /verif/sim, the reference model and parsers there, CPython and its standard library. The server code is "
        "loaded from /repo's working tree; disk, clock, network, entropy are simulated. ")
EXTRA = {
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "sim", "props", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": "./check %s" % pid,
                       "thorough_cmd": "./check %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": "deterministic simulation with fault injection: seeded schedule and fault search",
                       "level": "exploration", "level_note": NOTE + EXTRA.get(pid, "")})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
man = {"version": 1, "setup_cmd": "./check --selftest", "checks": checks}
if na:
    man["not_applicable"] = na
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "open")
