"""seed(id, prop, edits, needs, breaks, demo, srcs): writes seeded/id from textual edits of /repo (undone afterwards)."""
import os
import subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(i, prop, edits, needs, breaks, demo, srcs, extra="-O0 -fno-pie", timeout="60"):
    assert not subprocess.run(["git", "status", "--porcelain"], cwd="/repo", capture_output=True, text=True).stdout
    try:
        for f, a, b in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(a) == 1, (i, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        subprocess.run(["python3", os.path.join(ROOT, "tools/newseed.py"), i, prop, needs, breaks], check=True)
    finally:
        subprocess.run(["git", "checkout", "--", "."], cwd="/repo", check=True, capture_output=True)
    open(os.path.join(ROOT, "seeded", i, "demo.cc"), "w").write(demo)
    subprocess.run(["python3", os.path.join(ROOT, "tools/mkdemo.py"), i, srcs, extra, timeout], check=True)
