#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks_table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, os.path.join(V, "tools")]
from checks_table import CHECKS
from props import PROPS, NA
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if p["id"] in CHECKS or p["id"] in NA:
            d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            assert len(d["title"]) <= 80, d["title"]
            assert set(d["quantifier"]["over"]) <= {"schedules","crash_points","inputs","programs","histories","configurations","fault_sequences"}
            f.write(json.dumps(d) + "\n")
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences, exact replay"
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)'",
     "checks": [{"property": c, "quick_cmd": "python3 run_check.py %s quick" % c, "thorough_cmd": "python3 run_check.py %s thorough" % c,
                 "technique": TECH + next(p for p in PROPS if p["id"] == c).get("tech", ""), "level": "exploration", "level_note": next(p for p in PROPS if p["id"] == c)["note"]} for c in CHECKS],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the seams are libc, pthread, futex and clock symbols redirected at link level (sim/redefine.txt)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
