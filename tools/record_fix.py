#!/usr/bin/env python3
"""record_fix.py ID PROPS COMMIT WHAT: adds a repaired defect to known_findings.json."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(f))
i, props, commit, what = sys.argv[1:5]
d["findings"] = [k for k in d["findings"] if k["id"] != i]
d["findings"].append({"id": i, "properties": props.split(","), "what": what, "status": "fixed", "commit": commit,
                      "record": "fixed: property=%s %s %s" % (props, commit, what)})
with open(f, "w") as o:
    json.dump(d, o, indent=1)
    o.write("\n")
