"""Claims written next to the API (drivers/*.cc, namespace probe), decided for all inputs by abstract evaluation.

A driver function's parameters are unconstrained; strings and vectors are partitioned by length, small integers that
steer control (named n_*, or given by the rule) are enumerated.  probe::claim(c, what) has to be true in every
abstract state that reaches it."""
import os
import pickle
import sys
import tempfile
import time
import traceback
from . import absint as A, bits as B, errmodel, purefn as F
from .absint import Seq, N, NS, Err, P, Obj, bare, INT
from .model import AnalysisError, text, strip_targs


def lit(n):
    n = n.strip()
    while n.k == "cast" and n.kids:
        n = n.kids[0]
    return n.o.get("s", "?") if n.k == "str" else "?"


class Record:
    """What one instance decided, as calls to repeat on the check's context."""
    def __init__(self):
        self.calls, self.functions, self.configs, self.hit = [], set(), 0, False

    def ob(self, rule, inst, loc, ok, msg="", key=None, st=None):
        if not ok and (st is not None and st.unk or "cannot be determined" in msg):
            return self.undecided(rule, inst, msg)
        self.calls.append(("ob", (rule, inst, str(loc), ok, msg, key)))

    def undecided(self, rule, inst, why):
        self.calls.append(("undecided", (rule, inst, str(why))))

    def saw(self, *fns):
        for f in fns:
            self.functions.add("%s (%s)" % (f.q, f.relfile))


class Claims:
    def __init__(self, ctx, prog, lens=range(0, 5), over=None, models=None, maxstates=600, maxsteps=400000,
                 uadd=False):
        self.uadd = uadd
        self.ctx, self.prog, self.lens, self.over = ctx, prog, lens, over or {}
        self.models = dict(models or {})
        self.kw = {"maxstates": maxstates, "maxsteps": maxsteps}
        for q, m in (("probe::claim", self.m_claim), ("probe::unreachable", self.m_unreach),
                     ("probe::carries", self.m_carries), ("probe::any", self.m_any), ("probe::given", self.m_given)):
            self.models.setdefault(q, m)

    watch = None
    start = False       # the driver functions run before anything else

    # ------------------------------------------------------------ models
    def m_claim(self, I, n, st, fr):
        what = lit(n.args[1])
        self.reached.setdefault(what, n.loc)
        out = []
        I.lasteq = None
        c = n.args[0].strip()
        vals = I.ev(n.args[0], st, fr)
        for s, v in vals:
            b = I.truth(v)
            if b == B.TOP:
                eq = I.lasteq if len(vals) == 1 and c.k == "bin" and c.o.get("op") == "==" and I.ity(c.kids[0]) else None
                self.fail.append((what, n.loc, s if eq and not s.unk and I.refuted(eq, s) else None, s, I.trail))
                out.append((s, None))
                continue
            bad = s.restrict(B.bnot(b))
            if bad is not None and I.refuted([b], s) is False:
                self.fail.append((what, n.loc, None, s, I.trail))
            elif bad is not None:
                self.fail.append((what, n.loc, bad, s, I.trail))
            good = s.restrict(b)
            if good is not None:
                out.append((good, None))
        return out

    def m_unreach(self, I, n, st, fr):
        self.fail.append((lit(n.args[0]), n.loc, st, st, I.trail))
        return [(st, None)]

    def m_given(self, I, n, st, fr):
        r = I.cond(n.args[0], st, fr)
        self.pruned = self.pruned or any(not t for s, t in r)
        return [(s, None) for s, t in r if t]

    def m_carries(self, I, n, st, fr):
        out = []
        for s, (e, c) in I.evs(n.args, st, fr):
            e = I.load(s, e, n) if isinstance(e, P) else e
            c = I.load(s, c, n) if isinstance(c, P) else c
            out += self.carry(I, n, s, e, c)
        return out

    def carry(self, I, n, s, e, c):
        t = A.strip_targs(bare(n.args[1].type))
        if isinstance(e, Err) and e.cat is not None:
            f = errmodel.maker(I, t, "std::error_code")
            r = I.invoke(f, [c], None, s) if f is not None else [(s, Obj("std::error_code", {"value": c, "cat": t}))]
            res = []
            for s2, v in r:
                b = errmodel.equal(I, errmodel.code_of(I, e), v)
                res.append((s2, b if b is not None else A.Unk("bool", "error")))
            return res
        if isinstance(e, Err) and e.name.startswith("std::"):
            return [(s, 0)]
        return [(s, A.Unk("bool", "error"))]

    def m_any(self, I, n, st, fr):
        return [(st, self.fresh(n.type))]

    def fresh(self, t):
        it = INT.get(bare(t))
        if it is None:
            raise AnalysisError("no unconstrained value of type " + t)
        w = it[0] if bare(t) != "bool" else 1
        slot = self.nscalar
        self.nscalar += 1
        # the bits of all scalars are interleaved, most significant first
        return (NS if it[1] else N)(B.var(100000 + (64 - k) * 64 + slot) for k in range(w))

    # ------------------------------------------------------------ runs
    def partitions(self, fn):
        """[(description, [argument])]"""
        parts = [("", [])]
        for p in fn.params:
            t = bare(p.type)
            o = self.over.get((fn.decl.name, p.name), self.over.get(p.name))
            q = strip_targs(t)
            nx = []
            for d, a in parts:
                if q in ("std::basic_string", "std::vector"):
                    for ln in (o if o is not None else self.lens):
                        nx.append((d + " %s of %d" % (p.name, ln), a + [("seq", ln, t)]))
                elif o is not None:
                    for v in o:
                        nx.append((d + " %s=%s" % (p.name, v), a + [("int", v, t)]))
                else:
                    nx.append((d, a + [("any", None, t)]))
            parts = nx
        return parts

    def make(self, a):
        kind, v, t = a
        if kind == "int":
            return v
        if kind == "any":
            return self.fresh(t)
        el = INT.get(stdel(t))
        if el is None:
            raise AnalysisError("elements of " + t)
        slot = self.nseq
        self.nseq += 1
        w = el[0]
        # corresponding elements of all sequences are interleaved, most significant bit first
        return Seq([(NS if el[1] else N)(B.var((i * w + w - 1 - k) * 8 + slot) for k in range(w)) for i in range(v)], t)

    def run(self, only=None, rule="claim"):
        fns = [f for f in self.prog.funcs if f.q.startswith("probe::") and f.blocks and not f.decl.o.get("lambda")
               and is_driver(f) and "lambda" not in f.q and not f.decl.cls
               and (only is None or f.decl.name in only)]
        fns = [f for f in fns if f.decl.name.startswith("p_")]
        self.ctx.need(len(fns), 1, "driver functions")
        jobs = []
        for fn in sorted(fns, key=lambda f: f.decl.name):
            self.ctx.entries.append("%s (%s)" % (fn.q, fn.loc))
            for desc, args in self.partitions(fn):
                jobs.append((fn, desc, args))
        hit = set()
        for k, rec in self.spread(jobs, rule):
            for nm, a in rec.calls:
                getattr(self.ctx, nm)(*a)
            self.ctx.functions |= rec.functions
            self.ctx.configs += rec.configs
            if rec.hit:
                hit.add(jobs[k][0])
        for fn in dict.fromkeys(j[0] for j in jobs):
            if fn not in hit:
                self.ctx.undecided(rule, fn.decl.name[2:], "no claim was reached")

    def spread(self, jobs, rule):
        """Run the jobs in several processes; results in job order."""
        w = min(int(os.environ.get("MSA_JOBS", "8")), os.cpu_count() or 1, len(jobs))
        if w < 2:
            return [(k, self.one(*j, rule)) for k, j in enumerate(jobs)]
        sys.stdout.flush()
        sys.stderr.flush()
        rd, wr = os.pipe()
        files, pids = [], []
        feed = [b"%07d" % k for k in range(len(jobs))]
        for i in range(w):
            f = tempfile.TemporaryFile()
            files.append(f)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(wr)
                    while True:
                        b = os.read(rd, 7)
                        if len(b) < 7:
                            break
                        k = int(b)
                        pickle.dump((k, self.one(*jobs[k], rule)), f)
                    f.flush()
                    sys.stdout.flush()
                    code = 0
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(code)
            pids.append(pid)
        os.close(rd)
        try:
            for b in feed:
                os.write(wr, b)
        except BrokenPipeError:
            pass
        os.close(wr)
        codes = [os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) for p in pids]
        out = {}
        for f in files:
            f.seek(0)
            while True:
                try:
                    k, r = pickle.load(f)
                except EOFError:
                    break
                out[k] = r
            f.close()
        for k, j in enumerate(jobs):
            if k not in out:
                out[k] = Record()
                out[k].undecided(rule, j[0].decl.name[2:] + j[1], "the analysis process ended (%s)" % codes)
        return sorted(out.items())

    def one(self, fn, desc, args, rule):
        ctx = Record()
        try:
            self.evaluate(ctx, fn, desc, args, rule)
        except Exception as e:      # an instance that cannot be analysed does not hide what the others find
            if os.environ.get("MSA_TIME"):
                traceback.print_exc()
            ctx.undecided(rule, fn.decl.name[2:] + desc, "analysis failed: %r" % (e,))
        return ctx

    def evaluate(self, ctx, fn, desc, args, rule):
        inst = fn.decl.name[2:] + desc
        self.nseq = self.nscalar = 0
        if B.size() > 1000000:
            B.reset()
        t0 = time.time()
        self.fail, self.reached, self.pruned = [], {}, False
        self.wanted, self.wantloc = {}, {}
        I = A.Interp(self.prog, self.models, **self.kw)
        I.uadd = self.uadd
        I.watch = self.watch
        I.start = self.start
        try:
            out = I.run(fn, [self.make(a) for a in args])
        except A.Undecided as e:
            self.undefined(ctx, fn, I, rule, inst)
            ctx.undecided(rule, inst, str(e))
            return
        where = sorted({"%s" % f.loc for f in I.functions if not is_driver(f)})
        names = sorted({f.q for f in I.functions if not is_driver(f)})
        ctx.saw(*I.functions)
        ctx.configs += I.steps
        loc = self.anchor(fn, I)
        bad = False
        if os.environ.get('MSA_TIME'):
            print('%6.1fs %8d nodes %s' % (time.time() - t0, B.size(), inst))
        for what, l, b, s, tr in self.fail:
            bad = True
            if b is None or b.unk:
                ctx.undecided(rule, inst, what + " (cannot be determined)" + (
                    " opaque: %s" % sorted(I.opaque) if I.opaque else ""))
            else:
                ctx.ob(rule, inst, tr.loc if tr else loc, False,
                            "%s: false for some input [%s; claim at %s] [evaluated: %s]" % (
                                what, tr.q if tr else "?", l, ", ".join(names[:8])), key="%s|%s" % (fn.decl.name[2:], what))
        for what, got in self.wanted.items():
            n, tr = self.wantloc[what]
            what = what.split("|", 1)[1]
            if got:
                ctx.hit = True
                ctx.ob(rule, "%s: %s" % (inst, what), loc, True)
            elif got is None or I.oob:
                ctx.undecided(rule, inst, what + " (cannot be determined)")
            else:
                bad = True
                ctx.ob(rule, inst, tr.loc if tr else n.loc, False, "%s: not so for any input [claim at %s] [evaluated: %s]" % (
                    what, n.loc, ", ".join(names[:8])), key="%s|%s" % (fn.decl.name[2:], what))
        bad = self.undefined(ctx, fn, I, rule, inst) or bad
        for kind, s, v in out:
            if kind == "throw":
                bad = True
                ctx.ob(rule, inst, loc, False, "an unexpected %r can be thrown" % (v,),
                            key="%s|throws" % fn.decl.name[2:], st=s)
        ctx.hit = ctx.hit or bad
        if not bad:
            for what in self.reached:
                ctx.hit = True
                ctx.ob(rule, "%s: %s" % (inst, what), loc, True)
            ctx.hit = ctx.hit or not self.reached
            if not self.reached and not self.pruned and not self.wanted:
                ctx.undecided(rule, inst, "no claim was reached")

    @staticmethod
    def undefined(ctx, fn, I, rule, inst):
        for l, m in sorted(I.oob.items()):
            if l in I.sure:
                ctx.hit = True
                ctx.ob(rule, inst, l, False, "undefined behaviour is reachable: " + m, key="%s|ub" % fn.decl.name[2:])
            else:
                ctx.undecided(rule, inst, "%s: %s" % (l, m))
        return bool(I.oob)

    @staticmethod
    def anchor(fn, I):
        """Location of the first repository function the driver enters."""
        fs = [f for f in I.order if not is_driver(f)]
        return fs[0].loc if fs else fn.loc


def stdel(t):
    from .stdmodel import eltype
    return eltype(t)


def is_driver(f):
    return "/drivers/" in "/" + f.relfile


def hash_model(C):
    """crypto::Hash of a string as an uninterpreted function: equal contents have equal, otherwise unrelated digests."""
    def model(I, n, st, fr):
        d = n.decl
        f = I.prog.body(d)
        pt = bare(d.ptypes[0])
        if A.strip_targs(pt) not in ("std::vector", "std::basic_string"):
            if f is None:
                raise A.Undecided("no body for " + d.q)
            return I.call_repo(n, f, st, fr)
        out = []
        rt = bare(d.rettype)
        for s, vs in I.args(n.args, d.ptypes, st, fr):
            v = I.load(s, vs[0], n) if isinstance(vs[0], P) else vs[0]
            if not isinstance(v, Seq):
                raise A.Undecided("hash of %r at %s" % (v, n.loc))
            out += digest(C, I, s, (d.o.get("m"), v), rt, pt, n)
        return out
    return model


def digest(C, I, s, key, rt, pt, n):
    memo = I.__dict__.setdefault("digests", {})
    if key not in memo:
        size = int(rt[rt.index("<") + 1:].split(",")[0].rstrip("UL "))
        slot = C.nseq
        C.nseq += 1
        if slot > 7:
            raise A.Undecided("too many sequences")
        memo[key] = Seq([N(B.var((i * 8 + 7 - k) * 8 + slot) for k in range(8)) for i in range(size)], pt)
    f = None
    for g in I.prog.funcs:
        if g.decl.o.get("ctor") and g.blocks and g.decl.o.get("rec") is not None and bare(g.decl.rectype) == rt and \
                len(g.params) == 1 and A.strip_targs(bare(g.params[0].type)) in ("std::vector", "std::basic_string") and \
                bare(g.params[0].type) == pt:
            f = g
    if f is None:
        raise A.Undecided("no constructor of " + rt)
    I.nt += 1
    root = ("t", I.nt)
    s.mem[root] = Obj(A.strip_targs(rt), {})
    v = memo[key]
    return [(s2, s2.mem[root]) for s2, r in I.invoke(f, [I.temp(s, v) if f.params[0].type.endswith("&") else v], P(root), s)]
