#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import table
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    c = table.CHECKS.get(p)
    if c:
        checks.append({"property": p, "quick_cmd": "python3 checks/run.py %s" % p, "thorough_cmd": "python3 checks/run.py %s --tier thorough" % p,
                       "technique": c.get("technique", "property-based testing against a model"), "level": c["level"],
                       "level_note": c["note"] + "; " + "; ".join(c["assumptions"])})
    else:
        na.append({"property": p, "reason": table.NOT_APPLICABLE.get(p, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py asan", "checks": checks, "not_applicable": na,
     "notes": "no hooks in /repo: the checks use public interfaces, files of src/ are compiled by lib/build.py into /verif/build"}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
