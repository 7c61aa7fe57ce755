#!/usr/bin/env python3
"""check.py ID...: decide properties from /repo's current sources."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from msa import rule  # noqa: E402


def main():
    tier = os.environ.get("VERIF_TIER") or "quick"
    args = []
    for a in sys.argv[1:]:
        if a.startswith("--tier="):
            tier = a[7:]
        else:
            args.append(a)
    rc = 0
    for pid in args:
        m = importlib.import_module("rules." + pid)
        r = rule.run(pid, tier, m.check, getattr(m, "LEVEL", "other"), getattr(m, "ASSUMPTIONS", ()))
        rc = max(rc, r) if r != 1 or rc == 0 else rc
        sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
