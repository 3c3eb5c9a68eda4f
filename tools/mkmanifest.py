#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/jobs.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import jobs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = jobs.CHECKS.get(i)
    if c is None:
        na.append({"property": i, "reason": jobs.NOT_APPLICABLE.get(i, "no check built yet; the specification does not reach this part of the code at this commit")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                   "technique": c.get("technique", jobs.TECHNIQUE), "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na}
h = jobs.HOOKS
if h:
    m["hooks"] = h
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
