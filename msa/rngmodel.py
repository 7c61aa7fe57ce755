"""The generator of random numbers: draws as free values of their range, the mutex around them, and its seed."""
from . import absint as A, bits as B
from .absint import P, N, NS, Seq, Obj, Unk, Err, Undecided, bare, strip_targs, INT

HELD, GUARD, LIMITS = ("g", "#held"), ("g", "#guard"), ("g", "#limits")
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock")
ENGINE = "std::mersenne_twister_engine"
DIST = "std::uniform_int_distribution"


class Rng:
    def __init__(self, C):
        self.C = C
        C.watch = self.read
        self.models = {
            "probe::guarded": self.guarded, "probe::held": self.held, "probe::possible": self.possible,
            "std::mutex::lock": self.lock, "std::mutex::unlock": self.unlock, "std::mutex::mutex": self.mutex,
            ENGINE + "::mersenne_twister_engine": self.engine, ENGINE + "::seed": self.seed,
            ENGINE + "::operator()": self.raw, DIST + "::uniform_int_distribution": self.dist,
            DIST + "::operator()": self.draw, DIST + "::min": self.limit, DIST + "::a": self.limit,
            DIST + "::max": self.limit, DIST + "::b": self.limit, DIST + "::reset": self.nothing,
            "std::chrono::_V2::system_clock::now": self.now, "std::chrono::system_clock::now": self.now,
            "probe::limits": self.limits, "std::basic_string::basic_string": self.sized, "std::vector::vector": self.sized}
        for c in LOCKS:
            self.models.update({c + c[3:]: self.guard, c + "::lock": self.relock, c + "::unlock": self.release,
                                c + "::~": self.release_at, c + "::owns_lock": self.owns})

    def fail(self, I, what, n, s):
        self.C.fail.append((what, n.loc, s, s, I.trail))

    def read(self, I, s, p, v, n):
        """A number kept from call to call is read."""
        if isinstance(v, (int, N, Unk)) and n is not None and GUARD in s.mem and not s.mem.get(HELD, 0):
            self.fail(I, "what is kept from call to call is read only while the mutex is held", n, s)

    # ------------------------------------------------------------ the driver's words
    def guarded(self, I, n, st, fr):
        out = []
        for s, p in I.lv(n.args[0], st, fr):
            s.mem[GUARD], s.mem[HELD] = self.key(I, s, p), 0
            out.append((s, None))
        return out

    def held(self, I, n, st, fr):
        return [(st, int(bool(st.mem.get(HELD, 0))))]

    def possible(self, I, n, st, fr):
        what = "%s|%s" % (n.loc, "".join(k.o.get("s", "") for k in [n.args[1].strip()] + n.args[1].strip().kids))
        out = []
        for s, v in I.ev(n.args[0], st, fr):
            b = I.truth(v)
            got = None if b == B.TOP or s.unk else s.restrict(b) is not None
            cur = self.C.wanted.get(what, False)
            self.C.wanted[what] = True if cur or got else None if cur is None or got is None else False
            self.C.wantloc[what] = (n, I.trail)
            out.append((s, None))
        return out

    def nothing(self, I, n, st, fr):
        return [(s, None) for s, _ in I.evs(n.args, st, fr)]

    def now(self, I, n, st, fr):
        return [(st, self.C.fresh("long"))]

    # ------------------------------------------------------------ the mutex
    def key(self, I, s, p):
        from .stdmodel import I_canon
        p = I_canon(I, s, p)
        return (p.root, p.sels)

    def mutex(self, I, n, st, fr):
        return [(st, Obj("std::mutex", {}))]

    def objs(self, I, n, st, fr):
        from .stdmodel import objplace, I_canon
        for s, p in objplace(I, n, st, fr):
            yield s, I_canon(I, s, p) if isinstance(p, P) else p

    def lock(self, I, n, st, fr):
        out = []
        for s, p in self.objs(I, n, st, fr):
            if isinstance(p, P) and (p.root, p.sels) == s.mem.get(GUARD):
                if s.mem.get(HELD, 0):
                    self.fail(I, "the generator's mutex is locked while it is held", n, s)
                    continue
                s.mem[HELD] = 1
            out.append((s, None))
        return out

    def unlock(self, I, n, st, fr):
        out = []
        for s, p in self.objs(I, n, st, fr):
            if isinstance(p, P) and (p.root, p.sels) == s.mem.get(GUARD):
                s.mem[HELD] = 0
            out.append((s, None))
        return out

    def take(self, I, s, key, n):
        if key == s.mem.get(GUARD):
            if s.mem.get(HELD, 0):
                self.fail(I, "the generator's mutex is not locked while it is held", n, s)
                return False
            s.mem[HELD] = 1
        return True

    def guard(self, I, n, st, fr):
        """A lock object: which mutex, and whether it is held."""
        if len(n.kids) == 1 and strip_targs(bare(n.kids[0].type)) in LOCKS or not n.kids:
            raise Undecided("a lock moved at %s" % n.loc)
        kind = bare(n.kids[1].type) if len(n.kids) > 1 else ""
        if kind not in ("", "std::defer_lock_t", "std::adopt_lock_t") or "scoped" in n.decl.cls and kind:
            raise Undecided("a lock of kind %s at %s" % (kind, n.loc))
        out = []
        for s, p in I.lv(n.kids[0], st, fr):
            k = self.key(I, s, p)
            if kind or self.take(I, s, k, n):
                out.append((s, Obj("lock", {"root": k[0], "sels": k[1], "on": int(kind != "std::defer_lock_t")})))
        return out

    def relock(self, I, n, st, fr):
        out = []
        for s, p in list(self.objs(I, n, st, fr)):
            o = I.load(s, p, n)
            if self.take(I, s, (o.f["root"], o.f["sels"]), n):
                I.put(s, p, Obj("lock", dict(o.f, on=1)), n)
                out.append((s, None))
        return out

    def release(self, I, n, st, fr):
        out = []
        for s, p in list(self.objs(I, n, st, fr)):
            self.off(I, s, p)
            out.append((s, None))
        return out

    def off(self, I, s, p):
        o = I.load(s, p, None)
        if isinstance(o, Obj) and o.f.get("on"):
            I.put(s, p, Obj("lock", dict(o.f, on=0)), None)
            if (o.f["root"], o.f["sels"]) == s.mem.get(GUARD):
                s.mem[HELD] = 0

    def release_at(self, I, root, s):
        self.off(I, s, P(root))

    def owns(self, I, n, st, fr):
        return [(s, I.load(s, p, n).f["on"]) for s, p in self.objs(I, n, st, fr)]

    # ------------------------------------------------------------ containers of a size drawn
    def limits(self, I, n, st, fr):
        out = []
        for s, vs in I.evs(n.args, st, fr):
            s.mem[LIMITS] = tuple(vs)
            out.append((s, None))
        return out

    def values(self, s, v, most=16):
        """[(state, value)] for the values v has, or None if there are too many."""
        live = [(s, 0)]
        for k in reversed(range(len(v))):
            nx = []
            for s1, x in live:
                for b, c in ((v[k], 1), (B.bnot(v[k]), 0)):
                    if b == B.TOP:
                        return None
                    s2 = s1.restrict(b) if b not in (B.ONE, B.ZERO) else s1 if b == B.ONE else None
                    if s2 is not None:
                        nx.append((s2 if s2 is not s1 else s1.fork(), x | c << k))
            live = nx
            if len(live) > most:
                return None
        return live

    def sized(self, I, n, st, fr):
        from . import stdmodel
        cls = n.decl.cls
        pt = [bare(t) for t in n.decl.ptypes]
        kids = [k for i, k in enumerate(n.kids) if not (i < len(pt) and "allocator" in pt[i])]
        if not pt or pt[0] != "unsigned long" or len(kids) > 2:
            return stdmodel.construct(I, n, cls, st, fr)
        ty = bare(n.type)
        out = []
        for s, vs in I.evs(kids, st, fr):
            e = vs[1] if len(vs) > 1 else 0
            e = stdmodel.coerce(I, I.load(s, e, n) if isinstance(e, P) else e, ty)
            if not isinstance(vs[0], (int, N)):
                raise Undecided("the size of a container at %s" % n.loc)
            lim = s.mem.get(LIMITS)
            some = [(s, vs[0])] if isinstance(vs[0], int) else self.values(s, vs[0]) if lim is None else None
            if lim is not None and (some is None or some[0][1] > 5000):
                w = 64
                b = I.nbits(vs[0], w)
                inside = B.band(B.bnot(B.ult(b, B.const(lim[0], w))), B.bnot(B.ult(B.const(lim[1], w), b)))
                if inside == B.TOP:
                    raise Undecided("the size of a container at %s" % n.loc)
                if s.restrict(B.bnot(inside)) is not None:
                    self.fail(I, "a random size is between the limits", n, s.restrict(B.bnot(inside)))
                continue                # what becomes of so large a container is left out
            if some is None:
                raise Undecided("the size of a container at %s" % n.loc)
            for s2, k in some:
                if k > 5000:
                    raise Undecided("a container of %d elements at %s" % (k, n.loc))
                out.append((s2, Seq([e] * k, ty)))
        return out

    # ------------------------------------------------------------ the generator
    def engine(self, I, n, st, fr):
        if len(n.kids) == 1 and strip_targs(bare(n.kids[0].type)) == ENGINE:
            return I.ev(n.kids[0], st, fr)
        return [(s, Obj(ENGINE, {"seed": vs[0] if vs else 5489, "n": 0})) for s, vs in I.evs(n.kids, st, fr)]

    def seed(self, I, n, st, fr):
        out = []
        for s, p in list(self.objs(I, n, st, fr)):
            for s2, vs in I.evs(n.args, s, fr):
                self.used(I, n, s2)
                I.put(s2, p, Obj(ENGINE, {"seed": vs[0] if vs else 5489, "n": 0}), n)
                out.append((s2, None))
        return out

    def used(self, I, n, s):
        if GUARD in s.mem and not s.mem.get(HELD, 0):
            self.fail(I, "the generator is used only while its mutex is held", n, s)

    def value(self, I, s, g, a, b, t, n):
        """A value between a and b, the same for the same use of the same seed."""
        e = I.load(s, g, n)
        if not isinstance(e, Obj) or "seed" not in e.f:
            raise Undecided("the generator %r at %s" % (e, n.loc))
        self.used(I, n, s)
        I.put(s, g, Obj(e.cls, dict(e.f, n=e.f["n"] + 1)), n)
        w, sg = INT[bare(t)]
        if a > b:
            I.note_oob(n, "a distribution from %d to %d" % (a, b))
            return None, None
        if a == b:
            return s, a
        memo = I.__dict__.setdefault("draws", {})
        sd = e.f["seed"]
        key = (sd if not isinstance(sd, Unk) else ("?", sd.why), e.f["n"], a, b, w)
        if key not in memo:
            k = (b - a).bit_length()
            low = self.C.fresh("unsigned long")[:k]
            off = tuple(low) + (B.ZERO,) * (w + 1 - k)
            ok = B.ONE if b - a + 1 == 1 << k else B.bnot(B.ult(B.const(b - a, w + 1), off))
            if a:
                off = B.add(off, B.const(a & ((1 << (w + 1)) - 1), w + 1))[0]
            memo[key] = ((NS if sg else N)(off[:w]), ok)
        v, ok = memo[key]
        s = s.restrict(ok) if ok != B.ONE else s
        return s, v

    def raw(self, I, n, st, fr):
        out = []
        for s, p in list(self.objs(I, n, st, fr)):
            s2, v = self.value(I, s, p, 0, 2 ** 32 - 1, n.type, n)
            if s2 is not None:
                out.append((s2, v))
        return out

    # ------------------------------------------------------------ distributions
    def dist(self, I, n, st, fr):
        if len(n.kids) == 1 and strip_targs(bare(n.kids[0].type)) == DIST:
            return I.ev(n.kids[0], st, fr)
        t = bare(n.type)
        t = t[t.index("<") + 1:-1].strip() or "int" if "<" in t else "int"
        w, sg = INT[t]
        top = (1 << (w - sg)) - 1
        out = []
        for s, vs in I.evs(n.kids, st, fr):
            vs = [I.load(s, v, n) if isinstance(v, P) else v for v in vs]
            if not all(isinstance(v, int) for v in vs):
                raise Undecided("a distribution of unknown limits at %s" % n.loc)
            out.append((s, Obj(DIST, {"a": vs[0] if vs else 0, "b": vs[1] if len(vs) > 1 else top, "t": t})))
        return out

    def limit(self, I, n, st, fr):
        f = {"min": "a", "a": "a", "max": "b", "b": "b"}[n.decl.name]
        return [(s, I.load(s, p, n).f[f]) for s, p in self.objs(I, n, st, fr)]

    def draw(self, I, n, st, fr):
        out = []
        args = n.args if n.obj is not None else n.kids[1:]
        if len(args) != 1:
            raise Undecided("parameters of a distribution at %s" % n.loc)
        for s, p in list(self.objs(I, n, st, fr)):
            for s2, g in I.lv(args[0], s, fr):
                d = I.load(s2, p, n)
                from .stdmodel import I_canon
                s3, v = self.value(I, s2, I_canon(I, s2, g), d.f["a"], d.f["b"], d.f["t"], n)
                if s3 is not None:
                    out.append((s3, v))
        return out
