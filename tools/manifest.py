#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry in vf/checks.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vf"))
import checks

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    c = checks.CHECKS.get(i)
    if c:
        m["checks"].append(
            {
                "property": i,
                "quick_cmd": f"python3 check.py {i} --tier quick",
                "thorough_cmd": f"python3 check.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": c["technique"],
                "level": c["level"],
                "level_note": c["note"],
            }
        )
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "no check yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
