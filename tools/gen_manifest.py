#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from props.py and properties.jsonl.
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = {}
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": p.get("technique", "stateless model checking of the real code: exhaustive enumeration of all cases/operation sequences within the stated bounds, each compared with an independent reference model"),
                       "level": "model_checking", "level_note": p["bounds"]})
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "the check for this property is not built yet")} for i in ids if i not in PROPS]}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
