#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 run_check.py build",
    "checks": [], "not_applicable": [],
    "notes": "Every check compiles /repo's current sources into a deterministic simulator (sim/), runs seeded workloads (work/) on all cores and rewrites its evidence file. No hooks in /repo are needed: libc and kernel entry points are interposed at link time. See DESIGN.md.",
}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 run_check.py check %s" % i,
            "thorough_cmd": "python3 run_check.py check %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, inputs and fault sequences of the real code, checked against a reference model",
            "level": "exploration",
            "level_note": p.get("note", "") + (" " if p.get("note") else "") + "Sampling, not enumeration: a quiet run is evidence. Trusts the simulated kernel/libc model in sim/ and assumes sequentially consistent memory.",
            "evidence_file": "evidence/%s.json" % i,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed yet: no check has been built for it so far")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
