#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

ROOT = os.path.dirname(HERE)
checks, na = [], []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p.get("observe"):
            o["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(o) + "\n")
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
        elif os.path.exists(os.path.join(ROOT, "rules", p["id"] + ".py")):
            checks.append({"property": p["id"],
                           "quick_cmd": "python3 check.py %s" % p["id"],
                           "thorough_cmd": "python3 check.py --tier=thorough %s" % p["id"],
                           "technique": p["technique"], "level": "other", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: tool/msx.cc extracts typed syntax trees and control-flow graphs of the current "
              "sources with clang 18; rules/ decides each property from them. No hooks are compiled into /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

# ---- the generated part of DESIGN.md
D = os.path.join(ROOT, "DESIGN.md")
rp = os.path.join(HERE, "seed_results.json")
rs = json.load(open(rp)) if os.path.exists(rp) else {}
out = []
for p in PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if p.get("na"):
        out.append("Not applicable: %s\n" % p["na"])
        continue
    out.append("Decided by: %s (`rules/%s.py`). Quantified over %s.\n" % (p["technique"], p["id"], p["quant"]))
    if p.get("how"):
        out.append(p["how"] + "\n")
    out.append("Bounds and trust: " + p["note"] + "\n")
    out.append("Beyond the tests: " + p["why"] + "\n")
    mine = []
    for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = os.path.join(ROOT, "seeded", i, "meta.json")
        if os.path.exists(m) and json.load(open(m))["property"] == p["id"]:
            r = rs.get(i)
            mine.append("* `%s` (%s): %s" % (i, json.load(open(m))["what_it_breaks"],
                                            "%s" % r[1].lower() + (", `%s`" % r[2].split(" [")[0] if r[2] and r[1] == "CAUGHT" else "") if r else "not run"))
    if mine:
        out.append("Planted changes:\n\n" + "\n".join(mine) + "\n")
k = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
out.append("## Defects found\n\nRepaired in /repo (`fix:` commits):\n")
out += ["* %s `%s`: %s" % (f["property"], f["fixed"], f["what"]) for f in k if f.get("fixed")]
out.append("\nRecorded, not repaired (known_findings.json; reported as KNOWN-FINDING):\n")
out += ["* %s: %s" % (f["property"], f["what"]) for f in k if not f.get("fixed")]
s = open(D).read()
a, b = "<!-- generated by tools/gen.py -->\n", "<!-- end of the generated part -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(D, "w").write(s[:i] + "\n" + "\n".join(out) + "\n\n" + s[j:])
