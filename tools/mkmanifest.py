#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks are needed in /repo: the simulator provides the C library, kernel, thread and clock symbols the code is linked against, see DESIGN.md. Replay a violation with: python3 run_check.py replay FILE"}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run_check.py %s quick" % i, "thorough_cmd": "python3 run_check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": "deterministic simulation with fault injection: seeded random scheduling and faults over the real code, reference model as oracle",
                            "level": "exploration", "level_note": c.get("note", checks.DEFAULT_NOTE)})
    else: m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
