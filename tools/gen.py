#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P
from checks import CHECKS, META
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in sorted(P):
        f.write(json.dumps(P[k]) + "\n")
checks, na = [], []
for k in sorted(P):
    if k in CHECKS:
        m = META[k]
        checks.append({"property": k,
                       "quick_cmd": "python3 run.py %s --tier quick" % k,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % k,
                       "technique": m["technique"], "level": CHECKS[k]["level"],
                       "level_note": m["note"]})
    else:
        na.append({"property": k, "reason": "no check yet"})
man = {"version": 1, "setup_cmd": "python3 run.py --setup",
       "hooks": {"guard": "none", "enable": "no change to /repo is needed: the checks compile /repo's sources with harnesses of their own, link-time wrapping of three functions and a replacement of the thread sanitizer runtime",
                 "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "Bounds, oracles, findings and the planted bugs caught by each check are described in DESIGN.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
