#!/usr/bin/env python3
"""Regenerates MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here)
sys.path.insert(0, here)
import plan
props = [json.loads(l) for l in open(os.path.join(verif, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in plan.PROPS:
        Q = plan.PROPS[pid]
        checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid} quick", thorough_cmd=f"python3 check.py {pid} thorough",
                           evidence_file=f"evidence/{pid}.json", technique=Q.get("technique", plan.TECHNIQUE), level=Q["level"],
                           level_note=Q.get("note", plan.NOTE)))
    else:
        na.append(dict(property=pid, reason=plan.NOT_APPLICABLE.get(pid, "contracts for this property are not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na, notes=plan.NOTES)
json.dump(m, open(os.path.join(verif, "MANIFEST.json"), "w"), indent=1)
