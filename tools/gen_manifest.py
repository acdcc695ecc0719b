#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(root, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "The analysis for this property is not built yet, so nothing is claimed.")})
m = {"version": 1, "setup_cmd": "bash checker/build.sh", "checks": checks, "not_applicable": na,
     "notes": "One static analyser (checker/, Go, x/tools/go/ssa) decides every property from the current source; no repository code is run. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
