#!/usr/bin/env python3
"""newseed.py ID PROPERTY NEEDS BREAKS: turns /repo's uncommitted change into seeded/ID/patch.diff and undoes it."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, needs, breaks = sys.argv[1:5]
d = os.path.join(ROOT, "seeded", i)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "diff"], cwd="/repo", capture_output=True, text=True).stdout
assert diff.strip(), "no change"
open(os.path.join(d, "patch.diff"), "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
subprocess.run(["git", "checkout", "--", "."], cwd="/repo", check=True)
print(d)
