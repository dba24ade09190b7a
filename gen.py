#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
from props import P
from checks import CHECKS, NOT_APPLICABLE
H = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p, sort_keys=True) + "\n")
ids = [p["id"] for p in P]
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "technique": CHECKS[i]["technique"], "level": CHECKS[i]["level"], "level_note": CHECKS[i]["note"]} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in CHECKS],
     "notes": "No hooks in /repo: harnesses compile /repo's sources against engine/include/mpi.h. See DESIGN.md."}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
