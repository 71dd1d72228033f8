#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append(dict(property=i, reason="No check built yet."))
        continue
    s = PLAN[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick",
                       thorough_cmd=f"python3 check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=s["technique"], level=s["level"],
                       level_note=s["level_note"]))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: all instrumentation is in the workload programs' element types, call-backs and intercepted calls.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
