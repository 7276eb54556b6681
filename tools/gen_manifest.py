#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        m = PLAN[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i,
                           thorough_cmd="python3 tools/check.py %s thorough" % i,
                           technique=m.get("technique", "TLA+ specification; TLC validates traces recorded from the code"),
                           level=m["level"], level_note=m["note"]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="Language: TLA+, checked with TLC. See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
