#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from props.py"""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p in sorted(PROPS):
    c = PROPS[p]
    checks.append({
        "property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
        "technique": c.get("technique", "contract-based deductive verification (Verus contracts on the functions extracted from /repo on every run)"),
        "level": c.get("level", "proof"), "level_note": c["note"]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
           "notes": "No hooks in /repo. fix: commits are listed in known_findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
