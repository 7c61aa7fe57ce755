#!/usr/bin/env python3
"""Confirm planted changes: applies each to /repo, builds, tests, runs its demonstration and the checks, undoes it.
usage: tryseed.py [--all-checks] ID..."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")


def sh(cmd, cwd="/repo", t=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def tests():
    rc, o = sh("bash /opt/vp/test.sh /tmp/seed_tests.json")
    try:
        got = set(json.load(open("/tmp/seed_tests.json"))["passed"])
    except Exception:
        return False
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) <= got


def main():
    allc = "--all-checks" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(SEED))
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    claimed = [c["property"] for c in man["checks"]]
    if subprocess.run("git status --porcelain", shell=True, cwd="/repo", capture_output=True, text=True).stdout.strip():
        sys.exit("/repo is not clean")
    for i in ids:
        d = os.path.join(SEED, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        res = {}
        if "--fast" not in sys.argv:
            rc, o = sh("bash %s/demo.sh" % d, t=300)
            res["demo_base"] = rc
            if rc:
                print(o[-1500:])
        rc, o = sh("git apply %s/patch.diff" % d)
        if rc:
            print(i, "DOES NOT APPLY", o)
            continue
        try:
            if "--fast" not in sys.argv:
                res["tests"] = tests()
                rc, o = sh("bash %s/demo.sh" % d, t=300)
                res["demo_patched"] = rc
                res["demo_out"] = o.strip()[-160:]
            for p in (claimed if allc else [meta["property"]]):
                if p not in claimed:
                    res["check " + p] = "unclaimed"
                    continue
                rc, o = sh("python3 check.py " + p, cwd=ROOT)
                if not allc or rc:
                    res["check " + p] = rc
                    lines = [l for l in o.splitlines() if "[" in l and ":" in l and "VIOLATION" not in l]
                    if rc == 1:
                        res["report"] = (lines[0] if lines else "")[:220]
                    elif rc != 0:
                        res["report"] = o[-400:]
        finally:
            sh("git checkout -- .")
        ok = "OK  " if res.get("demo_base", 0) == 0 and res.get("demo_patched", 1) and res.get("tests", True) else "BAD "
        caught = "CAUGHT" if res.get("check " + meta["property"]) == 1 else "MISSED"
        print(ok, caught, i, json.dumps(res))
        rp = os.path.join(ROOT, "tools", "seed_results.json")
        rs = json.load(open(rp)) if os.path.exists(rp) else {}
        rs[i] = [ok.strip(), caught, res.get("report", "").split(": false for")[0][:170]]
        json.dump(rs, open(rp, "w"), indent=1, sort_keys=True)
        sys.stdout.flush()
    if "--fast" not in sys.argv:
        sh("bash /opt/vp/build.sh")


main()
