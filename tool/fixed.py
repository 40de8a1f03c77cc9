#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json"""
import json, sys
import os
p = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.json"
d = json.load(open(p))
e = "fixed: property=%s %s %s" % tuple(sys.argv[1:4])
if e not in d["fixed"]:
    d["fixed"].append(e)
json.dump(d, open(p, "w"), indent=1)
