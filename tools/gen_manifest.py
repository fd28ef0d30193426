#!/usr/bin/env python3
"""MANIFEST.json from plan.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import plan
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PROPS:
        P = plan.PROPS[i]
        c = dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
            evidence_file="evidence/%s.json" % i, technique=P.get("technique", "Verus contracts on functions extracted from the current source; bounded replay harness for failed obligations and functions out of reach"),
            level=P["level"], level_note=P["note"])
        checks.append(c)
    else: na.append(dict(property=i, reason=plan.NA.get(i, "not claimed yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="No hooks in /repo. Deciding step: Verus accepts every obligation generated from /repo's current source; see DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
