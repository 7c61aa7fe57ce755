#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT: records a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
pr, c, w = sys.argv[1:4]
d["findings"].append({"property": pr, "rule": "-", "key": "-", "what": w, "fixed": c,
                      "entry": "fixed: property=%s %s %s" % (pr, c, w)})
json.dump(d, open(p, "w"), indent=1)
