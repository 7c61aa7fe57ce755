"""Rule support: obligations, known findings, evidence, verdicts."""
import json
import os
import sys
import time
import traceback

from . import model
from .model import AnalysisError, Program, VERIF

_progs = {}


class Ctx:
    """Collects what one check decided."""
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []          # (rule, instance, location, ok, message, key)
        self.rules = {}
        self.units = set()
        self.functions = set()
        self.configs = 0
        self.entries = []
        self.notes = []
        self.open = []

    def prog(self, *srcs, defs=(), roots=()):
        """roots: directories outside the repository whose functions are analysed too, not modelled."""
        key = tuple(srcs) + tuple(defs) + tuple(roots)
        if key not in _progs:
            full = [os.path.join(VERIF, s) if s.startswith("drivers/") else s for s in srcs]
            _progs[key] = Program(full, defs, roots)
        p = _progs[key]
        self.units.update(srcs)
        return p

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, instance, loc, ok, msg="", key=None, st=None):
        """One obligation.  key identifies a violation across line shifts.  st: the abstract state it was seen in."""
        if not ok and (st is not None and st.unk or "cannot be determined" in msg):
            self.undecided(rule, instance, msg)
            return False
        self.obs.append((rule, instance, str(loc), bool(ok), msg, key or instance))
        return ok

    def undecided(self, rule, inst, why):
        """An obligation the analysis can neither discharge nor refute."""
        if (rule, inst, str(why)) not in self.open:
            self.open.append((rule, inst, str(why)))

    def part(self, f, *a):
        """Run one part of a check; a part that cannot be analysed does not hide what the others find."""
        try:
            return f(*a)
        except AnalysisError as e:
            self.open.append((getattr(f, "__name__", "?"), "part", str(e)))

    def need(self, n, least, what):
        if n < least:
            raise AnalysisError("only %d %s found, expected at least %d: the rule has lost its anchors" %
                                (n, what, least))

    def ran(self, eng, entry=None):
        self.configs += eng.nconf
        for f in eng.functions:
            self.functions.add("%s (%s)" % (f.q, f.relfile))
        if entry is not None:
            self.entries.append(entry if isinstance(entry, str) else "%s %s" % (entry.q, entry.loc))

    def saw(self, *fns):
        for f in fns:
            self.functions.add("%s (%s)" % (f.q, f.relfile))

    def engine(self, rule, eng, entry, instance=None):
        """Turn an engine run into obligations: one per entry, or one per violation."""
        self.ran(eng, entry)
        inst = instance or (entry.q if not isinstance(entry, str) else entry)
        if not eng.violations:
            self.ob(rule, inst, entry.loc if not isinstance(entry, str) else "", True)
        for v in eng.violations.values():
            chain, tr = v.trace
            path = " -> ".join("%s:%d" % t for t in tr[-12:]) if tr else ""
            self.ob(rule, inst, v.loc, False, v.msg + (" [in %s]" % " > ".join(chain) if chain else "") +
                    (" [path %s]" % path if path else ""), key="%s|%s" % (inst, v.key))
        return not eng.violations


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def run(pid, tier, fn, level="other", assumptions=()):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    out = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    try:
        fn(ctx)
    except AnalysisError as e:
        ctx.open.append(("check", "rest of the check", str(e)))
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 2
    for r, i, w in ctx.open:
        print("UNDECIDED property=%s [%s] %s: %s" % (pid, r, i, w))
    if ctx.open and len(ctx.open) >= len(ctx.obs) and all(o[3] for o in ctx.obs):
        print("ANALYSIS-ERROR property=%s nothing could be decided" % pid)
        return 2
    if not ctx.obs:
        print("ANALYSIS-ERROR property=%s no obligation was generated" % pid)
        return 2
    kf = {(k["rule"], k["key"]): k for k in known() if k["property"] == pid and not k.get("fixed")}
    bad, shown = [], set()
    for rule, inst, loc, ok, msg, key in ctx.obs:
        if ok:
            continue
        k = kf.get((rule, key))
        if k is not None:
            if (rule, key) not in shown:
                shown.add((rule, key))
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            continue
        if (loc, rule, key) not in [(b[1], b[0], b[3]) for b in bad]:
            bad.append((rule, loc, msg, key))
    per = {}
    for rule, inst, loc, ok, msg, key in ctx.obs:
        d = per.setdefault(rule, {"rule": ctx.rules.get(rule, ""), "obligations": 0, "discharged": 0, "instances": []})
        d["obligations"] += 1
        d["discharged"] += 1 if ok else 0
        s = "%s @ %s%s" % (inst, loc, "" if ok else " VIOLATED: " + msg)
        if s not in d["instances"] and len(d["instances"]) < 60:
            d["instances"].append(s)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "explanation": "Static analysis of the sources under /repo (clang 18 syntax trees and control-flow "
                           "graphs, nothing is executed). Every obligation below is one rule instance found in the "
                           "current sources.",
            "translation_units": sorted(ctx.units),
            "functions_analysed": len(ctx.functions),
            "functions": sorted(ctx.functions)[:200],
            "entry_points": ctx.entries,
            "program_points_times_states": ctx.configs,
            "obligations": len(ctx.obs),
            "discharged": sum(1 for o in ctx.obs if o[3]),
            "undecided": ["[%s] %s: %s" % o for o in ctx.open],
            "rules": per,
            "notes": ctx.notes,
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    json.dump(ev, open(out, "w"), indent=1)
    print("property=%s units=%d functions=%d obligations=%d discharged=%d known=%d wall=%.1fs" % (
        pid, len(ctx.units), len(ctx.functions), len(ctx.obs), ev["coverage"]["discharged"], len(shown),
        time.time() - t0))
    if bad:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for rule, loc, msg, key in bad:
                f.write("%s: [%s] %s\n    key: %s\n    rule: %s\n" % (loc, rule, msg, key, ctx.rules.get(rule, "")))
        for rule, loc, msg, key in bad[:25]:
            print("%s: [%s] %s" % (loc, rule, msg))
            if os.environ.get("MSA_KEYS"):
                print("    key=" + key)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
