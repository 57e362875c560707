#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks = []
for p in props:
    if p not in PLAN:
        continue
    c = PLAN[p]
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": c.get("technique", "TLA+ specification; TLC validates traces recorded from the code"),
        "level": c.get("level", "model_checking"),
        "level_note": c.get("note", "Trace validation: every recorded member must be a behaviour of the specification; exploration of inputs is bounded and seeded."),
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in PLAN]}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
