#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the checks that exist."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
MC = "TLA+ specification model checked with TLC; enumerated behaviours replayed into the code and recorded runs validated against the specification"
L = {}
def level(pid, note, level="model_checking", technique=MC):
    L[pid] = (level, technique, note)
exec(open(os.path.join(here, "levels.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./harness/build.sh asan .build/asan && ./harness/build.sh plain .build/plain && ./harness/build.sh tsan .build/tsan && ./harness/build.sh wrap .build/wrap",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in L and os.path.exists(os.path.join(root, "checks", i.lower() + ".py")):
        lv, t, n = L[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s" % i, "technique": t, "level": lv, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
