"""Abstract interpreter for the library's pure functions.

Works on the typed syntax tree.  Container lengths and control counters are tracked exactly (the caller chooses the
partition by length); the *contents* of the inputs are unconstrained and every scalar is abstracted bit by bit
(msa/bits.py).  A branch on an abstract condition continues in both arms with the condition as a constraint; arms are
joined again where they meet, and anything the domain cannot express becomes unknown.
"""
import re

from . import bits as B
from .model import AnalysisError, strip_targs, text

INT = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
       "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
       "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
       "unsigned long long": (64, False), "wchar_t": (32, True), "char16_t": (16, False), "char32_t": (32, False),
       "std::byte": (8, False)}


def element(t):
    m = re.match(r"std::array<(.*), \d+(?:UL|U|L)?>$", t)
    return m.group(1) if m else t.split("[")[0].strip()


_bare = {}


def bare(t):
    r = _bare.get(t)
    if r is None:
        r = _bare[t] = _strip_cv(t)
    return r


def _strip_cv(t):
    t = t.strip()
    while True:
        o = t
        for p in ("const ", "volatile "):
            if t.startswith(p):
                t = t[len(p):]
        for p in (" const", " &&", " &", "&&", "&"):
            if t.endswith(p):
                t = t[:-len(p)].strip()
        if t == o:
            return t


class N(tuple):
    """Abstract scalar: bits."""
    __slots__ = ()


class P:
    """Pointer, iterator or reference to a place."""
    __slots__ = ("root", "sels")

    def __init__(self, root, sels=()):
        self.root, self.sels = root, sels

    def __eq__(self, o):
        return isinstance(o, P) and (self.root, self.sels) == (o.root, o.sels)

    def __hash__(self):
        return hash((self.root, self.sels))

    def __repr__(self):
        return "&%s%s" % (self.root, list(self.sels))

    def at(self, s):
        return P(self.root, self.sels + (s,))

    def plus(self, d):
        if not self.sels or not isinstance(self.sels[-1], int):
            if d == 0:
                return self
            raise Undecided("arithmetic on a pointer to a single object")
        return P(self.root, self.sels[:-1] + (self.sels[-1] + d,))


class Ref(P):
    """A reference variable's binding."""
    __slots__ = ()


class Seq:
    """String, vector, array."""
    __slots__ = ("items", "ty")

    def __init__(self, items, ty):
        self.items, self.ty = tuple(items), ty

    def __eq__(self, o):
        return isinstance(o, Seq) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        if all(isinstance(x, int) and 32 <= x < 127 for x in self.items):
            return repr("".join(map(chr, self.items)))
        return "Seq%d" % len(self.items)


class Obj:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __eq__(self, o):
        return isinstance(o, Obj) and self.cls == o.cls and self.f == o.f

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return "%s%r" % (self.cls, self.f)


class Lam:
    """A callable: a lambda with its frame and the roots of what it captured by copy, or a function with the arguments
    bound to it."""
    __slots__ = ("fn", "fid", "this", "insts", "caps", "bound")

    def __init__(self, fn, fid, this, insts=(), caps=None, bound=None):
        self.fn, self.fid, self.this, self.insts, self.caps, self.bound = fn, fid, this, insts, caps, bound


class Unk:
    """Unknown value; where records what it came from."""
    __slots__ = ("ty", "why")

    def __init__(self, ty, why=""):
        self.ty, self.why = ty, why

    def __eq__(self, o):
        return isinstance(o, Unk) and (self.ty, self.why) == (o.ty, o.why)

    def __hash__(self):
        return hash((self.ty, self.why))

    def __repr__(self):
        return "?%s" % (self.why or self.ty)


class Err:
    """An exception object carrying one of the library's errors."""
    __slots__ = ("name", "ty", "val", "cat")

    def __init__(self, name, ty=None, val=None, cat=None):
        self.name, self.ty, self.val, self.cat = name, ty, val, cat

    def __eq__(self, o):
        return isinstance(o, Err) and (self.name, self.ty, self.val, self.cat) == (o.name, o.ty, o.val, o.cat)

    def __hash__(self):
        return hash((self.name, self.ty))

    def derived(self, ty):
        """The same error as an object of class ty."""
        return Err(self.name, ty, self.val, self.cat)

    def __repr__(self):
        return "Err(%s)" % self.name


# Constants of the library whose values are of no interest outside the models.
NAMED = {"std::ios_base::" + k: v for k, v in
         {"app": 1, "ate": 2, "binary": 4, "in": 8, "out": 16, "trunc": 32}.items()}


class Undecided(AnalysisError):
    pass


class State:
    __slots__ = ("mem", "cons", "unk")

    def __init__(self, mem=None, cons=(), unk=frozenset()):
        self.mem, self.cons, self.unk = mem if mem is not None else {}, cons, unk

    def fork(self):
        return State(dict(self.mem), self.cons, self.unk)

    def assume(self, fid, arm):
        """Continue under an assumption the domain cannot express: the path may be infeasible."""
        return State(dict(self.mem), self.cons, self.unk | {(fid, arm)})

    def restrict(self, bit):
        """Constrain by a bit being 1; None if impossible."""
        if bit == B.ONE or bit == B.TOP:
            return self
        if bit == B.ZERO:
            return None
        keep, cur = [], bit
        for g in self.cons:
            if B.overlaps(g, cur):
                m = B.band(g, cur)
                if m == B.TOP:
                    keep.append(g)
                    continue
                cur = m
            else:
                keep.append(g)
        if cur == B.ZERO:
            return None
        if cur != B.ONE:
            keep.append(cur)
        s = State(dict(self.mem), tuple(sorted(keep)), self.unk)
        return s

    def known(self, bit):
        """True / False / None for a bit under the constraints."""
        if bit == B.ONE:
            return True
        if bit == B.ZERO:
            return False
        if bit == B.TOP:
            return None
        if self.restrict(bit) is None:
            return False
        if self.restrict(B.bnot(bit)) is None:
            return True
        return None

    def simplify(self, v):
        """Bits that the constraints fix."""
        if v.__class__ not in (N, NS) or not self.cons:
            return v
        out, ch = [], False
        for b in v:
            if b not in (B.ZERO, B.ONE, B.TOP):
                r = self.relevant(b)
                if r != B.ONE:
                    x = B.band(b, r)
                    if x == B.ZERO:
                        b, ch = B.ZERO, True
                    elif x == r:
                        b, ch = B.ONE, True
            out.append(b)
        return v.__class__(out) if ch else v

    def relevant(self, bit):
        r = B.ONE
        for g in self.cons:
            if B.overlaps(g, bit):
                x = B.band(r, g)
                if x != B.TOP:
                    r = x
        return r


def cons_diff(a, b):
    """The single group in which two constraint sets differ, or None; ((),) when equal."""
    sa, sb = set(a), set(b)
    if sa == sb:
        return "same"
    da, db = sa - sb, sb - sa
    ca = cb = B.ONE
    for g in da:
        ca = B.band(ca, g)
    for g in db:
        cb = B.band(cb, g)
    if B.TOP in (ca, cb):
        return None
    return ca, cb, tuple(sa & sb)


class Frame:
    __slots__ = ("fn", "fid", "pfid", "this", "retref", "caps")

    def __init__(self, fn, fid, pfid=None, this=None, caps=None):
        self.fn, self.fid, self.pfid, self.this, self.caps = fn, fid, pfid, this, caps


class Interp:
    def __init__(self, prog, models=None, maxstates=600, maxsteps=400000, fields=None):
        self.prog = prog
        self.models = models or {}
        self.maxstates, self.maxsteps = maxstates, maxsteps
        self.steps = 0
        self.nf = 0
        self.nt = 0
        self.sink = []
        self.stack = []
        self.oob = {}
        self.sure = set()
        self.functions = set()
        self.order = []
        self.enums, self.enumty = {}, {}
        self.opaque = {}
        self.branches = 0
        self.nunk = 0
        self.umemo, self.udefs = {}, []
        self.vague = set()
        self.scalars = {}
        for tu in prog.tus:
            for e in tu.facts["enums"]:
                self.enums.setdefault(strip_targs(e["q"]), {b: a for a, b in e["e"]})
                self.enumty[strip_targs(e["q"])] = (e["w"], e["s"])
        self.globals = {}
        self.own = {}

    # ------------------------------------------------------------ entry
    def run(self, fn, args, this=None, st=None):
        """[(kind, state, value)] with kind 'ret' or 'throw'."""
        st = st.fork() if st is not None else State()
        vals = []
        for p, a in zip(fn.params, args):
            if p.type.endswith("&") and not isinstance(a, P):
                vals.append(self.temp(st, a))
            else:
                vals.append(a)
        self.sink.append([])
        try:
            out = [("ret", s, v) for s, v in self.invoke(fn, vals, this, st)]
            out += [("throw", s, v) for s, v in self.sink[-1]]
        finally:
            self.sink.pop()
        return out

    def temp(self, st, v):
        self.nt += 1
        r = ("t", self.nt)
        st.mem[r] = v
        return P(r)

    # ------------------------------------------------------------ memory
    def get(self, st, p, n=None):
        if p.root not in st.mem:
            v = self.global_value(p.root)
            if v is None:
                raise Undecided("read of unknown storage %r at %s" % (p, n.loc if n else "?"))
        else:
            v = st.mem[p.root]
        for s in p.sels:
            v = self.sel(st, v, s, n)
        return v

    def sel(self, st, v, s, n):
        if isinstance(v, Ref):
            v = self.get(st, v, n)
        if isinstance(s, tuple) and s[0] == "#b" and not isinstance(v, Obj):
            from . import byteview
            return byteview.view(self, st, v, s, n)
        if isinstance(v, Seq):
            if isinstance(s, int):
                if 0 <= s < len(v.items):
                    return v.items[s]
                if s == len(v.items) and "basic_string" in v.ty:
                    return 0
                self.note_oob(n, "index %d of %d elements" % (s, len(v.items)))
                return Unk("?", "out of range")
            if isinstance(s, N):
                return self.lookup(st, v, s, n)
        if isinstance(v, Obj):
            if s in v.f:
                return v.f[s]
            if isinstance(s, tuple) and s[0] == "#b":
                from . import byteview
                return byteview.view(self, st, v, s, n)
            if isinstance(s, tuple):
                self.note_oob(n, "an erased element is used" if s[1] else "the end iterator is dereferenced")
            return Unk("?", s)
        if isinstance(v, Unk):
            return Unk("?", v.why)
        raise Undecided("cannot select %r of %r at %s" % (s, v, n.loc if n else "?"))

    def lookup(self, st, v, idx, n):
        if B.TOP in idx:
            return Unk("?", "index")
        w = len(idx)
        L = len(v.items)
        inside = B.ult(idx, B.const(L, w)) if L < 1 << w else B.ONE
        if idx.__class__ is NS and L <= 1 << (w - 1):
            inside = B.band(inside, B.bnot(idx[-1]))
        bad = st.restrict(B.bnot(inside)) if inside != B.TOP else st
        if bad is not None:
            self.note_oob(n, "an index beyond %d elements is reachable" % L)
        return self.pick(st, v.items, idx)

    def pick(self, st, items, idx):
        """The element at an abstract index."""
        idx = st.simplify(idx)
        if all(isinstance(x, (int, N)) for x in items):
            iw = max([len(x) if isinstance(x, N) else max(8, x.bit_length() + (x < 0)) for x in items] + [8])
            sg = any(isinstance(x, NS) or isinstance(x, int) and x < 0 for x in items)
            rows = [self.nbits(x, iw) for x in items]
            return (NS if sg else N)(B.select(idx, [r[k] for r in rows]) for k in range(iw))
        if all(isinstance(x, Seq) for x in items) and len({len(x.items) for x in items}) == 1:
            return Seq([self.pick(st, [x.items[j] for x in items], idx) for j in range(len(items[0].items))],
                       items[0].ty)
        return Unk("?", "element")

    def note_oob(self, n, msg):
        k = n.loc if n is not None else "?"
        self.oob.setdefault(k, msg)
        if not self.nunk:
            self.sure.add(k)    # no branch was undecidable before this

    def put(self, st, p, v, n=None):
        if p.root not in st.mem:
            if p.root[0] == "g":
                st.mem[p.root] = self.global_value(p.root)
            elif p.sels:
                raise Undecided("write to unknown storage %r" % p)
        if not p.sels:
            st.mem[p.root] = v
            return
        base = st.mem[p.root]
        # writing through a stored reference
        cur, i = base, 0
        while i < len(p.sels):
            if isinstance(cur, Ref):
                return self.put(st, P(cur.root, cur.sels + p.sels[i:]), v, n)
            cur = self.peek(cur, p.sels[i])
            i += 1
        if isinstance(cur, Ref):
            return self.put(st, cur, v, n)
        st.mem[p.root] = self.upd(base, p.sels, v, n)

    @staticmethod
    def peek(v, s):
        if isinstance(s, tuple) and s[0] == "#b":
            return True
        if isinstance(v, Seq):
            return v.items[s] if isinstance(s, int) and 0 <= s < len(v.items) else None
        if isinstance(v, Obj):
            return v.f.get(s)
        return None

    def upd(self, base, sels, v, n):
        if not sels:
            return v
        s = sels[0]
        if isinstance(s, tuple) and s[0] == "#b":
            from . import byteview
            return byteview.write(self, base, s, sels[1:], v, n)
        if isinstance(base, Obj) and isinstance(s, tuple) and s not in base.f:
            self.note_oob(n, "an erased element is written")
            return base
        if isinstance(base, Seq):
            if not isinstance(s, int):
                return Seq([Unk("?", "weak update")] * len(base.items), base.ty)
            if not 0 <= s < len(base.items):
                self.note_oob(n, "write to index %d of %d elements" % (s, len(base.items)))
                return base
            it = list(base.items)
            it[s] = self.upd(it[s], sels[1:], v, n)
            return Seq(it, base.ty)
        if isinstance(base, Obj):
            f = dict(base.f)
            f[s] = self.upd(f.get(s), sels[1:], v, n)
            return Obj(base.cls, f)
        if base is None or isinstance(base, Unk):
            return self.upd(Obj("?", {}), sels, v, n) if isinstance(s, str) else Unk("?")
        raise Undecided("cannot write %r of %r at %s" % (s, base, n.loc if n else "?"))

    start = False

    def global_value(self, root):
        if root[0] != "g":
            return None
        if root in self.globals:
            return self.globals[root]
        g = self.prog.var(root[1])
        v = NAMED.get(root[1])
        if v is None and g is not None:
            tu, o = g
            val = o.get("val")
            ty = tu.types[o["t"]]
            if isinstance(val, list):
                v = Seq(unnest(val, ty), ty)
            elif isinstance(val, (int, str)) and not o.get("str"):
                v = int(val)
            elif o.get("str") is not None:
                v = Seq([ord(x) for x in o["str"]] + [0], ty)
            elif self.start and strip_targs(bare(ty)) == "boost::filesystem::path" and \
                    (o.get("init") is None or len(o["nodes"]) == 1 and o["nodes"][0]["k"] == "construct"):
                v = self.default(ty)        # nothing ran yet
            else:
                v = Unk(ty, root[1])
        self.globals[root] = v if v is not None else Unk("?", root[1])
        return self.globals[root]

    # ------------------------------------------------------------ frames
    def owned(self, fn):
        r = self.own.get(fn.uid)
        if r is None:
            r = set(p.id for p in fn.params)
            for n in fn.nodes:
                if n.k == "decl":
                    r.update(d["v"] for d in n.o.get("ds", []))
                elif n.k == "catch" and "v" in n.o:
                    r.add(n.o["v"])
            self.own[fn.uid] = r
        return r

    def varroot(self, d, fr):
        if d.o.get("global") or d.o.get("k") not in ("var", "parm"):
            return ("g", d.q)
        if d.o.get("slocal"):
            return ("s", fr.fn.uid, d.id)
        if fr.caps and d.id in fr.caps:
            return fr.caps[d.id]
        if d.id in self.owned(fr.fn) or fr.pfid is None:
            return ("v", fr.fid, d.id)
        f = fr
        while f.pfid is not None:
            if f.caps and d.id in f.caps:
                return f.caps[d.id]
            pf = f.pfid
            if d.id in self.owned(pf.fn) or pf.pfid is None:
                return ("v", pf.fid, d.id)
            f = pf
        return ("v", fr.fid, d.id)

    # ------------------------------------------------------------ calls
    def invoke(self, fn, vals, this, st, pfid=None, argnodes=None, caps=None):
        self.nf += 1
        fr = Frame(fn, self.nf, pfid, this, caps)
        if self.nf > 60000:
            raise Undecided("too many calls")
        if "/drivers/" not in "/" + fn.relfile and (not self.stack or "/drivers/" in "/" + self.stack[-1].relfile):
            self.trail = fn             # the function of the library that was entered last from outside
        if fn not in self.functions:
            self.functions.add(fn)
            self.order.append(fn)
        if self.depth(1) > 60:
            raise Undecided("call depth in " + fn.q)
        self.stack.append(fn)
        try:
            for p, v in zip(fn.params, vals):
                if p.type.endswith("&"):
                    st.mem[("v", fr.fid, p.id)] = Ref(v.root, v.sels) if isinstance(v, P) else v
                else:
                    st.mem[("v", fr.fid, p.id)] = v
            pre = [st]
            if fn.inits and this is not None:
                if fn.body.k == "try":
                    self.sink.append([])
                    try:
                        pre = self.do_inits(fn, fr, st)
                    finally:
                        thrown = self.sink.pop()
                    self.handle(fn.body, thrown, fr, True)
                else:
                    pre = self.do_inits(fn, fr, st)
            out = []
            for s in pre:
                for kind, s2, v in self.exec(fn.body, s, fr):
                    if kind == "r":
                        out.append((s2, v))
                    elif kind == "n":
                        out.append((s2, None))
            return self.merge_results(out, fr)
        finally:
            self.stack.pop()
            self.depth(-1)

    _d = 0
    trail = None

    def depth(self, k):
        self._d += k
        return self._d

    def do_inits(self, fn, fr, st):
        sts = [st]
        for i in fn.inits:
            nx = []
            for s in sts:
                e = fn.nodes[i["e"]]
                if "f" in i:
                    d = fn.tu.decls[i["f"]]
                    if d.type.endswith("&"):
                        for s2, p in self.lv(e, s, fr):
                            self.put(s2, fr.this.at(d.name), Ref(p.root, p.sels), e)
                            nx.append(s2)
                    else:
                        for s2, v in self.ev(e, s, fr):
                            self.put(s2, fr.this.at(d.name), v, e)
                            nx.append(s2)
                elif i.get("deleg") or "base" in i:
                    for s2, v in self.construct_at(e, s, fr, fr.this):
                        nx.append(s2)
                else:
                    nx.append(s)
            sts = nx
        return sts

    def merge_results(self, out, fr):
        # forget the frame's locals, then join equal-shaped results
        res = []
        for s, v in out:
            for k in [k for k in s.mem if k[0] == "v" and k[1] == fr.fid and not self.escapes(v, k)]:
                del s.mem[k]
            res.append((s, v))
        return self.join(res)

    @staticmethod
    def escapes(v, k):
        return isinstance(v, Lam) and v.fid is not None and v.fid.fid == k[1] or isinstance(v, P) and v.root == k

    def join(self, res):
        """Merge (state, value) pairs where the domain can express the union exactly."""
        if len(res) < 2:
            return res
        out = []
        for s, v in res:
            done = False
            for i, (s0, v0) in enumerate(out):
                m = self.try_join(s0, v0, s, v)
                if m is not None:
                    out[i] = m
                    done = True
                    break
            if not done:
                out.append((s, v))
        if len(out) > self.maxstates:
            raise Undecided("too many abstract states")
        if len(out) < len(res) and len(out) > 1:
            return self.join(out)
        return out

    @staticmethod
    def join_unk(a, b):
        if a == b:
            return a
        d = a ^ b
        if len(d) == 2 and len({i for i, arm in d}) == 1:
            return a & b                # both arms of one undecidable branch
        if not a or not b:
            return frozenset()
        return a | b

    def try_join(self, s0, v0, s1, v1):
        d = cons_diff(s0.cons, s1.cons)
        if d is None:
            return None
        if d == "same":
            if v0 == v1 and s0.mem == s1.mem:
                return State(s0.mem, s0.cons, self.join_unk(s0.unk, s1.unk)), v0
            return None
        if s0.unk != s1.unk:
            return None
        c0, c1, common = d
        u = B.bor(c0, c1)
        if u == B.TOP or B.band(c0, c1) != B.ZERO:
            if s0.mem == s1.mem and v0 == v1 and u != B.TOP:
                return self.joined(s0.mem, u, common, s0.unk), v0
            return None
        # disjoint: values that differ become (c0 ? v0 : v1)
        ok, v = self.jv(v0, v1, c0)
        if not ok:
            return None
        if s0.mem.keys() != s1.mem.keys():
            return None
        mem = {}
        for k in s0.mem:
            a, b = s0.mem[k], s1.mem[k]
            if a is b:
                mem[k] = a
                continue
            ok, x = self.jv(a, b, c0)
            if not ok:
                return None
            mem[k] = x
        return self.joined(mem, u, common, s0.unk), v

    @staticmethod
    def joined(mem, u, common, unk):
        s = State(dict(mem), common, unk)
        return s.restrict(u) or s

    def jv(self, a, b, c0):
        if a is b or (type(a) is type(b) and a == b):
            return True, a
        if isinstance(a, (int, N)) and isinstance(b, (int, N)):
            sg = any(x.__class__ is NS for x in (a, b)) or any(isinstance(x, int) and x < 0 for x in (a, b))
            w = max(len(a) if isinstance(a, N) else 0, len(b) if isinstance(b, N) else 0)
            if w == 0:
                # two counters: only 0/1 flags and byte-sized results are joined, the rest stays apart
                if not (0 <= a < 256 and 0 <= b < 256) or (a in (0, 1)) != (b in (0, 1)):
                    return False, None
                return False, None
            x, y = self.nbits(a, w), self.nbits(b, w)
            r = tuple(B.mux(c0, p, q) for p, q in zip(x, y))
            if B.TOP in r and B.TOP not in x + y:
                return False, None
            return True, (NS if sg else N)(r)
        if isinstance(a, Seq) and isinstance(b, Seq) and len(a.items) == len(b.items):
            it = []
            for x, y in zip(a.items, b.items):
                if isinstance(x, int) and isinstance(y, int) and x != y and 0 <= x < 256 and 0 <= y < 256:
                    x = N(B.const(x, 8))
                ok, z = self.jv(x, y, c0)
                if not ok:
                    return False, None
                it.append(z)
            return True, Seq(it, a.ty)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and a.f.keys() == b.f.keys():
            f = {}
            for k in a.f:
                ok, z = self.jv(a.f[k], b.f[k], c0)
                if not ok:
                    return False, None
                f[k] = z
            return True, Obj(a.cls, f)
        return False, None

    @staticmethod
    def nbits(v, w):
        if isinstance(v, N):
            return B.ext(v, w, v.__class__ is NS)
        return B.const(v & ((1 << w) - 1), w)

    # ------------------------------------------------------------ statements
    def exec(self, n, st, fr):
        """[(kind, state, value)], kind in n(ormal) b(reak) c(ontinue) r(eturn)."""
        if n is None:
            return [("n", st, None)]
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided("abstract interpretation does not settle in %s" % fr.fn.q)
        k = n.k
        if k == "CompoundStmt":
            return self.scope(n.kids, st, fr)
        if k == "decl":
            return [("n", s, None) for s in self.do_decl(n, st, fr)]
        if k == "return":
            if n.kids and n.kids[0] is not None:
                if fr.fn.decl.rettype.endswith("&"):
                    return [("r", s, v) for s, v in self.lv(n.kids[0], st, fr)]
                return [("r", s, self.conv_ret(v, fr)) for s, v in self.ev(n.kids[0], st, fr)]
            return [("r", st, None)]
        if k == "IfStmt":
            return self.do_if(n, st, fr)
        if k in ("WhileStmt", "ForStmt", "DoStmt"):
            return self.loop(n, st, fr)
        if k == "CXXForRangeStmt":
            return self.range_for(n, st, fr)
        if k == "SwitchStmt":
            return self.switch(n, st, fr)
        if k == "BreakStmt":
            return [("b", st, None)]
        if k == "ContinueStmt":
            return [("c", st, None)]
        if k == "NullStmt":
            return [("n", st, None)]
        if k in ("case", "default"):
            return self.exec(n.kids[-1], st, fr)
        if k == "try":
            return self.do_try(n, st, fr)
        if k == "throw":
            self.do_throw(n, st, fr)
            return []
        if k in ("AttributedStmt", "LabelStmt"):
            return self.exec(n.kids[-1], st, fr)
        return [("n", s, None) for s, v in self.ev(n, st, fr)]

    def conv_ret(self, v, fr):
        return v

    def seq(self, kids, st, fr):
        live, out = [st], []
        for x in kids:
            nx = []
            for s in live:
                for kind, s2, v in self.exec(x, s, fr):
                    if kind == "n":
                        nx.append(s2)
                    else:
                        out.append((kind, s2, v))
            live = self.joins(nx)
            if not live:
                break
        return out + [("n", s, None) for s in live]

    # ------------------------------------------------------------ destructors
    _dtors = None
    unwinding = 0

    def dtor(self, t):
        """The written destructor of a class of the repository, and whether a member has one."""
        if self._dtors is None:
            self._dtors = {}
            for f in self.prog.funcs:
                if f.decl.o.get("dtor") and f.body is not None:
                    self._dtors[bare(f.decl.cls)] = f
        return self._dtors.get(bare(t)) or self._dtors.get(strip_targs(bare(t))) or \
            self.models.get(strip_targs(bare(t)) + "::~")

    def scope(self, kids, st, fr):
        """A block: the objects declared in it are destroyed, last first, however it is left."""
        roots = []
        for x in kids:
            if x is not None and x.k == "decl":
                for d in x.o.get("ds", []):
                    t = fr.fn.tu.types[d["t"]]
                    f = self.dtor(t) if not t.endswith(("&", "*")) and "v" in d and \
                        not fr.fn.tu.decls[d["v"]].o.get("slocal") else None
                    if f is not None:
                        roots.append((self.varroot(fr.fn.tu.decls[d["v"]], fr), f))
        if not roots:
            return self.seq(kids, st, fr)
        self.sink.append([])
        try:
            out = self.seq(kids, st, fr)
        finally:
            thrown = self.sink.pop()
        res = []
        for kind, s, v in out:
            res += [(kind, s2, v) for s2 in self.destroy(roots, s)]
        for s, e in thrown:
            self.unwinding += 1
            try:
                self.sink[-1] += [(s2, e) for s2 in self.destroy(roots, s)]
            finally:
                self.unwinding -= 1
        return res

    def destroy(self, roots, st):
        live = [st]
        for root, f in reversed(roots):
            nx = []
            for s in live:
                if root not in s.mem:
                    nx.append(s)
                    continue
                if callable(f):
                    f(self, root, s)
                    s.mem.pop(root, None)
                    nx.append(s)
                    continue
                self.sink.append([])
                try:
                    r = self.invoke(f, [], P(root), s)
                finally:
                    thrown = self.sink.pop()
                if thrown:
                    self.note_oob(f.body, "an exception leaves the destructor %s" % f.q)
                for s2, _ in r:
                    s2.mem.pop(root, None)
                    nx.append(s2)
            live = self.joins(nx)
        return live

    def joins(self, sts):
        if len(sts) < 2:
            return sts
        return [s for s, v in self.join([(s, None) for s in sts])]

    def do_decl(self, n, st, fr):
        sts = [st]
        for d in n.o.get("ds", []):
            dd = fr.fn.tu.decls[d["v"]]
            root = self.varroot(dd, fr)
            t = fr.fn.tu.types[d["t"]]
            init = fr.fn.nodes[d["i"]] if d.get("i", -1) >= 0 else None
            nx = []
            for s in sts:
                if root[0] == "s" and root in s.mem:    # a static local is initialised once
                    nx.append(s)
                elif init is None and root[0] == "s" and self.zero(bare(t)) is not None:
                    s.mem[root] = self.zero(bare(t))
                    nx.append(s)
                elif init is None:
                    s.mem[root] = self.default(t)
                    nx.append(s)
                elif t.endswith("&"):
                    for s2, p in self.lv(init, s, fr):
                        s2.mem[root] = Ref(p.root, p.sels)
                        nx.append(s2)
                elif init.k == "construct" and self.repo_ctor(init):
                    for s2 in self.construct_root(init, s, fr, root):
                        nx.append(s2)
                else:
                    for s2, v in self.ev(init, s, fr):
                        s2.mem[root] = self.typed(v, t)
                        nx.append(s2)
            sts = nx
        return sts

    def typed(self, v, t):
        if isinstance(v, Seq) and not v.ty:
            return Seq(v.items, t)
        return v

    def default(self, t):
        t = bare(t)
        if t.startswith(("std::basic_string", "std::vector", "std::deque")):
            return Seq((), t)
        if t.startswith(("std::list<", "std::set<", "std::map<", "std::forward_list<")):
            from . import nodemodel
            return nodemodel.empty(t)
        if t.startswith(("std::shared_ptr<", "std::unique_ptr<", "std::function<")):
            return 0
        from . import netmodel, streammodel, pathmodel
        v = netmodel.default(t) or streammodel.default(t) or pathmodel.default(t)
        if v is not None:
            return v
        x = self.extent(t)
        if x is not None:
            return Seq([self.default(element(t)) for _ in range(x)], t)
        return Unk(t, "uninitialised")

    def do_if(self, n, st, fr):
        ks = [x for x in n.kids]
        # optional init / condition declarations come first
        els = None
        if len(ks) >= 3 and not n.o.get("noelse"):
            cond, then, els = ks[-3], ks[-2], ks[-1]
        else:
            cond, then = ks[-2], ks[-1]
        pre = []
        sts = [st]
        if len(ks) > 3:
            for x in ks[:-3]:
                if x is not None:
                    sts = [s2 for s in sts for kk, s2, v in self.exec(x, s, fr)]
        out = []
        for s0 in sts:
            for s, t in self.cond(cond, s0, fr):
                out += self.exec(then if t else els, s, fr) if (t or els is not None) else [("n", s, None)]
        return self.join_out(out)

    def join_out(self, out):
        ns = [s for k, s, v in out if k == "n"]
        if len(ns) < 2:
            return out
        return [(k, s, v) for k, s, v in out if k != "n"] + [("n", s, None) for s in self.joins(ns)]

    def cond(self, n, st, fr):
        """[(state, bool)]"""
        x = n.strip() if n is not None else None
        if n is None:
            return [(st, True)]
        if n.k == "decl":
            out = []
            for s in self.do_decl(n, st, fr):
                d = n.o["ds"][0]
                v = s.mem[self.varroot(fr.fn.tu.decls[d["v"]], fr)]
                out += self.branch(v, s, n)
            return out
        if x.k == "bin" and x.op in ("&&", "||"):
            out = []
            for s, t in self.cond(x.kids[0], st, fr):
                if t == (x.op == "||"):
                    out.append((s, t))
                else:
                    out += self.cond(x.kids[1], s, fr)
            return self.join_cond(out)
        if x.k == "un" and x.op == "!":
            return [(s, not t) for s, t in self.cond(x.kids[0], st, fr)]
        out = []
        for s, v in self.ev(n, st, fr):
            out += self.branch(v, s, n)
        return self.join_cond(out)

    def join_cond(self, out):
        if len(out) < 3:
            return out
        r = []
        for t in (True, False):
            r += [(s, t) for s in self.joins([s for s, x in out if x == t])]
        return r

    def truth(self, v):
        if isinstance(v, int):
            return B.ONE if v else B.ZERO
        if isinstance(v, N):
            r = B.ZERO
            for b in v:
                r = B.bor(r, b)
            return r
        if isinstance(v, (P, Lam, Seq)):
            return B.ONE
        if v is None:
            return B.ZERO
        return B.TOP

    def branch(self, v, st, n):
        self.branches += 1
        if isinstance(v, Split):
            return [(s, t) for s, t in v.parts]
        b = self.truth(v)
        if b == B.ONE:
            return [(st, True)]
        if b == B.ZERO:
            return [(st, False)]
        if b == B.TOP:
            self.nunk += 1
            return [(st.assume(self.nunk, 1), True), (st.assume(self.nunk, 0), False)]
        out = []
        a = st.restrict(b)
        if a is not None:
            out.append((a if a is not st else st.fork(), True))
        c = st.restrict(B.bnot(b))
        if c is not None:
            out.append((c, False))
        return out

    def loop(self, n, st, fr):
        k = n.k
        out = []
        ks = n.kids
        if k == "ForStmt":
            init, cv, cond, inc, body = ks[0], ks[1], ks[2], ks[3], ks[4]
            live = [s for kk, s, v in self.exec(init, st, fr)] if init is not None else [st]
            cond = cv if cv is not None and cond is None else cond
        elif k == "WhileStmt":
            cond, body, inc = ks[-2], ks[-1], None
            live = [st]
        else:
            body, cond, inc = ks[0], ks[1], None
            live = [st]
        first = k == "DoStmt"
        done = []
        it = 0
        while live:
            it += 1
            if it > 3000:
                raise Undecided("loop does not end at %s" % n.loc)
            nx = []
            for s in live:
                for s2, t in ([(s, True)] if first else self.cond(cond, s, fr)):
                    if not t:
                        done.append(s2)
                        continue
                    for kind, s3, v in self.exec(body, s2, fr):
                        if kind == "b":
                            done.append(s3)
                        elif kind == "r":
                            out.append((kind, s3, v))
                        elif inc is not None:
                            nx += [s4 for s4, v4 in self.ev(inc, s3, fr)]
                        else:
                            nx.append(s3)
            first = False
            live = self.joins(nx)
            done = self.joins(done)
            if len(live) > self.maxstates:
                raise Undecided("too many abstract states in the loop at %s" % n.loc)
        return out + [("n", s, None) for s in done]

    def range_for(self, n, st, fr):
        rng, begin, end, cond, inc, var, body = n.kids[:7]
        sts = [st]
        for x in (rng, begin, end):
            sts = [s2 for s in sts for s2 in self.do_decl(x, s, fr)]
        out, done, live = [], [], sts
        it = 0
        while live:
            it += 1
            if it > 3000:
                raise Undecided("loop does not end at %s" % n.loc)
            nx = []
            for s in live:
                for s2, t in self.cond(cond, s, fr):
                    if not t:
                        done.append(s2)
                        continue
                    for s3 in self.do_decl(var, s2, fr):
                        for kind, s4, v in self.exec(body, s3, fr):
                            if kind == "b":
                                done.append(s4)
                            elif kind == "r":
                                out.append((kind, s4, v))
                            else:
                                nx += [s5 for s5, v5 in self.ev(inc, s4, fr)]
            live = self.joins(nx)
        return out + [("n", s, None) for s in self.joins(done)]

    def switch(self, n, st, fr):
        cond, body = n.kids[-2], n.kids[-1]
        flat = []           # (labels, stmt)

        def add(x):
            labs = []
            while x is not None and x.k in ("case", "default"):
                labs.append("default" if x.k == "default" else x.kids[0].cv)
                x = x.kids[-1]
            flat.append((labs, x))
        for x in body.kids:
            add(x)
        allc = [l for labs, x in flat for l in labs if l != "default"]
        out = []
        for s0, v in self.ev(cond, st, fr):
            for s, lab in self.select(v, s0, allc):
                start = None
                for i, (labs, x) in enumerate(flat):
                    if lab in labs:
                        start = i
                        break
                if start is None:
                    for i, (labs, x) in enumerate(flat):
                        if "default" in labs:
                            start = i
                if start is None:
                    out.append(("n", s, None))
                    continue
                for kind, s2, v2 in self.seq([x for labs, x in flat[start:]], s, fr):
                    out.append(("n" if kind == "b" else kind, s2, v2))
        return self.join_out(out)

    def select(self, v, st, cases):
        if isinstance(v, int):
            return [(st, v if v in cases else "default")]
        if isinstance(v, N):
            out = []
            rest = B.ONE
            w = len(v)
            for c in cases:
                e = B.eq(v, B.const(c & ((1 << w) - 1), w))
                s = st.restrict(e)
                if s is not None:
                    out.append((s if s is not st else st.fork(), c))
                rest = B.band(rest, B.bnot(e)) if rest != B.TOP else B.TOP
            s = st.restrict(rest)
            if s is not None:
                out.append((s if s is not st else st.fork(), "default"))
            return out
        self.nunk += 1
        return [(st.assume(self.nunk, c), c) for c in cases] + [(st.assume(self.nunk, "default"), "default")]

    def do_try(self, n, st, fr):
        body = n.kids[0]
        self.sink.append([])
        try:
            out = self.exec(body, st, fr)
        finally:
            thrown = self.sink.pop()
        ctor = n is fr.fn.body and fr.fn.decl.o.get("ctor")
        return self.join_out(out + self.handle(n, thrown, fr, ctor))

    def handle(self, n, thrown, fr, again=False):
        """The handlers of a try block; those of a constructor's function try block throw again at their end."""
        handlers, out = [x for x in n.kids[1:] if x is not None], []
        for s, e in thrown:
            pend = [(s, e)]
            for h in handlers:
                ct = fr.fn.tu.types[h.o["ct"]] if "ct" in h.o else "..."
                c = self.catches(ct, e)
                if c == "no":
                    continue
                s2 = s.fork()
                if "v" in h.o:
                    s2.mem[("v", fr.fid, h.o["v"])] = e
                self.caught = e
                r = self.exec(h.kids[-1], s2, fr)
                if again:
                    self.sink[-1] += [(s3, e) for kind, s3, v in r]
                else:
                    out += r
                if c == "yes":
                    pend = []
                    break
            self.sink[-1] += pend
        return out

    caught = None

    def catches(self, ct, e):
        if ct == "...":
            return "yes"
        b = bare(ct)
        if b in ("std::exception", "boost::exception"):
            return "yes"
        if isinstance(e, Err):
            from . import errmodel
            dyn = e.ty or (e.name if e.name in errmodel.STD else None)
            if dyn:
                return "yes" if errmodel.derives(self, dyn, b) else "no"
            if e.name.startswith("std::"):
                return "yes" if b == e.name else "maybe" if b.startswith("std::") else "no"
            if b in ("maidsafe::maidsafe_error", "std::system_error", "std::runtime_error"):
                return "yes"
            return "yes" if b == e.name else "maybe" if b.startswith("maidsafe::") else "no"
        return "maybe"

    def do_throw(self, n, st, fr):
        if not n.kids or n.kids[0] is None:
            self.sink[-1].append((st, self.caught or Unk("exception")))
            return
        for s, v in self.ev(n.kids[0], st, fr):
            self.sink[-1].append((s, v if isinstance(v, Err) else Err(bare(n.kids[0].type))))

    # ------------------------------------------------------------ expressions
    def evs(self, nodes, st, fr):
        out = [(st, [])]
        for x in nodes:
            nx = []
            for s, vs in out:
                for s2, v in self.ev(x, s, fr):
                    nx.append((s2, vs + [v]))
            out = nx
        return out

    def ity(self, n):
        t = bare(n.type)
        r = INT.get(t)
        if r is None and t.split("::")[0] in ("maidsafe", "std", "boost") and strip_targs(t) in self.enums:
            r = self.enumty[strip_targs(t)]
        return r

    def wrap(self, v, ty):
        """Normalise a Python integer or abstract bits to an integer type."""
        w, s = ty
        if isinstance(v, int):
            v &= (1 << w) - 1
            if s and v >> (w - 1) & 1:
                v -= 1 << w
            return v
        if isinstance(v, N):
            r = B.ext(v, w, v.__class__ is NS)
            i = B.as_int(r, s)
            if i is not None:
                return i
            return (NS if s else N)(r)
        return v

    def ev(self, n, st, fr):
        if n is None:
            return [(st, None)]
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided("abstract interpretation does not settle in %s" % fr.fn.q)
        k = n.k
        if n.cv is not None and k not in ("assign", "call", "lambda") and not n.o.get("lv"):
            return [(st, n.cv)]
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Undecided("expression %s at %s" % (k, n.loc))
        return f(n, st, fr)

    def rvalue(self, n, st, fr):
        if n.k in ("ref", "mem", "index") and bare(n.type).endswith("]"):
            return [(s, p.at(0)) for s, p in self.lv(n, st, fr)]        # array decay
        return [(s, self.load(s, p, n)) for s, p in self.lv(n, st, fr)]

    watch = None

    def load(self, st, p, n):
        v = self.get(st, p, n)
        if self.watch is not None and p.root[0] == "s":
            self.watch(self, st, p, v, n)
        hops = 0
        while isinstance(v, Ref):
            v = self.get(st, v, n)
            hops += 1
            if hops > 20:
                raise Undecided("reference cycle")
        return v

    def e_ref(self, n, st, fr):
        d = n.decl
        if d.o.get("k") == "enum":
            return [(st, n.cv if n.cv is not None else d.o.get("val", 0))]
        if d.o.get("k") == "func":
            return [(st, self.funcval(d))]
        return self.rvalue(n, st, fr)

    def funcval(self, d):
        f = self.prog.body(d)
        return Lam(f, None, None) if f is not None and (not d.cls or d.o.get("static")) else Unk("func", d.q)

    def e_mem(self, n, st, fr):
        return self.rvalue(n, st, fr)

    def e_index(self, n, st, fr):
        return self.rvalue(n, st, fr)

    def e_int(self, n, st, fr):
        return [(st, n.cv)]

    e_bool = e_int
    e_char = e_int
    e_sizeof = e_int

    def e_FloatingLiteral(self, n, st, fr):
        from . import byteview
        return [(st, byteview.literal(self, n))]

    def e_null(self, n, st, fr):
        return [(st, 0)]

    def e_this(self, n, st, fr):
        return [(st, fr.this)]

    def e_str(self, n, st, fr):
        return [(st, Seq([ord(c) for c in n.o.get("s", "")] + [0], "chars"))]

    def e_PredefinedExpr(self, n, st, fr):
        return [(st, Unk("str", "predefined"))]

    def e_SourceLocExpr(self, n, st, fr):
        return [(st, Unk("src", "location"))]

    def e_lambda(self, n, st, fr):
        f = n.o.get("f")
        if f is None:       # a generic lambda: one body for each list of parameter types
            insts = [fr.fn.tu.bydecl[i] for i in n.o.get("insts") or [] if i in fr.fn.tu.bydecl]
            return [(s, Lam(insts[0] if insts else None, fr, fr.this, insts, c)) for s, c in self.captures(n, st, fr)]
        return [(s, Lam(fr.fn.tu.bydecl.get(f), fr, fr.this, (), c)) for s, c in self.captures(n, st, fr)]

    def captures(self, n, st, fr):
        """What a lambda captures by copy is evaluated where the lambda is."""
        out = [(st, {})]
        for c in n.o.get("caps", []):
            if c.get("this") or "v" not in c or c.get("e", -1) < 0:
                continue
            d, e, nx = fr.fn.tu.decls[c["v"]], fr.fn.nodes[c["e"]], []
            if c.get("ref") and not c.get("init"):
                continue
            for s, m in out:
                self.nt += 1
                root = ("t", self.nt)
                if c.get("ref"):
                    r = self.lv(e, s, fr)
                elif e.k == "construct" and self.repo_ctor(e):
                    r = [(s2, None) for s2 in self.construct_root(e, s, fr, root)]
                else:
                    r = self.ev(e, s, fr)
                for s2, v in r:
                    if c.get("ref"):
                        s2.mem[root] = Ref(v.root, v.sels)
                    elif v is not None:
                        s2.mem[root] = self.typed(v, d.type)
                    nx.append((s2, {**m, d.id: root}))
            out = nx
        return [(s, m or None) for s, m in out]

    def e_new(self, n, st, fr):
        """An object of its own, reached through the pointer."""
        from . import nodemodel
        t, kids, out = fr.fn.tu.types[n.o["at"]], [x for x in n.kids if x is not None], []
        if n.o.get("array"):
            for s, c in self.ev(kids[0], st, fr):
                if not isinstance(c, int):
                    raise Undecided("new array of unknown size at %s" % n.loc)
                zero = len(kids) > 1
                if zero and kids[1].k not in ("ImplicitValueInitExpr", "construct") and not \
                        (kids[1].k == "init" and not kids[1].kids):
                    raise Undecided("array initialiser at %s" % n.loc)
                items = []
                for _ in range(c):
                    items.append(nodemodel.default_value(self, s, t, n) if zero or not INT.get(bare(t)) else
                                 Unk(t, "uninitialised"))
                self.nt += 1
                s.mem[("t", self.nt)] = Seq(items, t + "[]")
                out.append((s, P(("t", self.nt)).at(0)))
            return out
        self.nt += 1
        root = ("t", self.nt)
        x = kids[0] if kids else None
        if x is not None and x.k == "construct" and self.repo_ctor(x):
            return [(s, P(root)) for s in self.construct_root(x, st, fr, root)]
        if x is None:
            r = [(st, self.default(t))]
        elif x.k == "ImplicitValueInitExpr" or x.k == "init" and not x.kids:
            r = [(st, nodemodel.default_value(self, st, t, n))]
        else:
            r = self.ev(x, st, fr)
        for s, v in r:
            s.mem[root] = self.typed(v, t)
            out.append((s, P(root)))
        return out

    def e_paren(self, n, st, fr):
        return self.ev(n.kids[0], st, fr)

    def e_cast(self, n, st, fr):
        ck = n.o.get("ck")
        x = n.kids[0]
        if ck == "LValueToRValue":
            r = self.rvalue(x, st, fr)
            if any(isinstance(v, Unk) and v.why == "uninitialised" for s, v in r) and INT.get(bare(n.type)):
                self.note_oob(n, "an uninitialised value is read")
            return r
        if ck == "ArrayToPointerDecay":
            return [(s, p.at(0)) for s, p in self.lv(x, st, fr)]
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            return [(s, self.boolean(v)) for s, v in self.ev(x, st, fr)]
        if ck == "ToVoid":
            return [(s, None) for s, v in self.ev(x, st, fr)]
        if ck == "BitCast" and bare(n.type).endswith("*"):
            from . import byteview
            return [(s, byteview.cast(self, s, v, bare(x.type), bare(n.type), n)) for s, v in self.ev(x, st, fr)]
        if ck in ("IntegralToFloating", "FloatingCast", "FloatingToIntegral", "FloatingToBoolean"):
            from . import byteview
            return [(s, byteview.float_cast(self, v, bare(x.type), bare(n.type))) for s, v in self.ev(x, st, fr)]
        ty = self.ity(n)
        if ty is not None and ck in ("IntegralCast", "NoOp", None, "BitCast"):
            return [(s, self.wrap(v, ty)) for s, v in self.ev(x, st, fr)]
        return self.ev(x, st, fr)

    def boolean(self, v):
        b = self.truth(v)
        if b == B.ONE:
            return 1
        if b == B.ZERO:
            return 0
        return N((b,))

    def e_un(self, n, st, fr):
        op = n.op
        x = n.kids[0]
        if op in ("++", "--"):
            out = []
            for s, p in self.lv(x, st, fr):
                old = self.load(s, p, n)
                d = 1 if op == "++" else -1
                new = old.plus(d) if isinstance(old, P) else self.arith("+", old, d, self.ity(x) or (64, False), n)
                self.put(s, p, new, n)
                out.append((s, old if n.o.get("post") else new))
            return out
        if op == "*":
            return self.rvalue(n, st, fr)
        if op == "&":
            return self.lv(x, st, fr)
        if op == "!":
            return [(s, 1 - t if isinstance(t, int) else N((B.bnot(t[0]),)))
                    for s, t in ((s, self.boolean(v)) for s, v in self.ev(x, st, fr))]
        ty = self.ity(n)
        out = []
        if bare(n.type) in ("float", "double") and op in ("-", "+"):
            sb = 31 if bare(n.type) == "float" else 63
            return [(s, v if op == "+" or isinstance(v, Unk) else v ^ 1 << sb if isinstance(v, int) else
                     N(B.bnot(b) if k == sb else b for k, b in enumerate(self.nbits(v, sb + 1))))
                    for s, v in self.ev(x, st, fr)]
        for s, v in self.ev(x, st, fr):
            if op == "-":
                v = self.arith("-", 0, v, ty, n)
            elif op == "~":
                v = self.wrap(~v, ty) if isinstance(v, int) else (
                    self.wrap(v.__class__(B.bnot(b) for b in B.ext(v, ty[0], v.__class__ is NS)), ty)
                    if isinstance(v, N) else v)
            out.append((s, v))
        return out

    def e_bin(self, n, st, fr):
        op = n.op
        if op in ("&&", "||"):
            return [(s, 1 if t else 0) for s, t in self.cond(n, st, fr)]
        if op == ",":
            out = []
            for s, v in self.ev(n.kids[0], st, fr):
                out += self.ev(n.kids[1], s, fr)
            return out
        out = []
        for s, (a, b) in self.evs(n.kids, st, fr):
            out.append((s, self.binop(op, a, b, n, s)))
        return out

    def binop(self, op, a, b, n, st):
        ft = bare(n.kids[0].type)
        if ft in ("float", "double", "long double"):
            from . import byteview
            return byteview.float_bin(self, op, a, b, ft)
        if isinstance(a, P) or isinstance(b, P):
            return self.ptrop(op, a, b, n)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            ta, tb = self.ity(n.kids[0]), self.ity(n.kids[1])
            sg = bool(ta and ta[1])
            return self.compare(op, a, b, sg, max((ta or (64,))[0], (tb or (64,))[0]))
        ty = self.ity(n)
        if ty is None:
            if op in ("+", "-") and a == 0 and b == 0 and n.type.endswith("*"):
                return 0            # a null pointer plus nothing
            return Unk(n.type, "op")
        return self.wrap(st.simplify(self.arith(op, a, b, ty, n)), ty)

    def ptrop(self, op, a, b, n):
        if op in ("+", "-") and isinstance(a, P) and isinstance(b, int):
            return a.plus(b if op == "+" else -b)
        if op == "+" and isinstance(b, P) and isinstance(a, int):
            return b.plus(a)
        if isinstance(a, P) and isinstance(b, P):
            same = a.root == b.root and a.sels[:-1] == b.sels[:-1]
            if op == "-":
                if not same:
                    raise Undecided("difference of unrelated iterators at %s" % n.loc)
                return a.sels[-1] - b.sels[-1]
            if op in ("==", "!="):
                if a != b and (a.root in self.vague or b.root in self.vague):
                    return Unk("bool", "identity")
                return int((a == b) == (op == "=="))
            if same:
                x, y = a.sels[-1], b.sels[-1]
                return int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        if op in ("==", "!=") and (a == 0 or b == 0):
            return int(op == "!=")
        raise Undecided("pointer operation %s at %s" % (op, n.loc))

    def compare(self, op, a, b, sg, w=64):
        if isinstance(a, int) and isinstance(b, int):
            return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
        if not isinstance(a, (int, N)) or not isinstance(b, (int, N)):
            if op in ("==", "!=") and type(a) is type(b) and isinstance(a, Seq):
                return self.seq_eq(a, b, op)
            return Unk("bool", "comparison")
        x, y = self.nbits(a, w), self.nbits(b, w)
        if op in ("==", "!="):
            r = B.TOP if self.uadd and self.udefs and self.sampled_differ(x, y) else B.eq(x, y)
            if r == B.TOP and op == "==":
                self.lasteq = [B.bnot(B.bxor(p, q)) for p, q in zip(x, y)]
            r = r if op == "==" else B.bnot(r)
        else:
            if op in (">", "<="):
                x, y = y, x
            r = B.slt(x, y) if sg else B.ult(x, y)
            if op in ("<=", ">="):
                r = B.bnot(r)
        return 1 if r == B.ONE else 0 if r == B.ZERO else N((r,))

    def seq_eq(self, a, b, op):
        if len(a.items) != len(b.items):
            return int(op == "!=")
        r = B.ONE
        for x, y in zip(a.items, b.items):
            if x == y and not isinstance(x, Unk):
                continue
            c = self.compare("==", x, y, False, 64)
            r = B.band(r, self.truth(c))
        if op == "!=":
            r = B.bnot(r)
        return 1 if r == B.ONE else 0 if r == B.ZERO else N((r,))

    def arith(self, op, a, b, ty, n=None):
        w, sg = ty
        if isinstance(a, int) and isinstance(b, int):
            if op in ("/", "%"):
                if b == 0:
                    self.note_oob(n, "division by zero")
                    return Unk("int", "division by zero")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                r = q if op == "/" else a - b * q
            else:
                if op in ("<<", ">>") and not 0 <= b < 64:
                    self.note_oob(n, "shift by %d" % b)
                    return Unk("int", "shift")
                r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b,
                     "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
            return self.wrap(r, ty)
        if not isinstance(a, (int, N)) or not isinstance(b, (int, N)):
            return Unk("int", "arithmetic")
        if op in ("/", "%") and isinstance(b, int) and b == 0:
            self.note_oob(n, "division by zero")
            return Unk("int", "division by zero")
        x = self.nbits(a, w)
        if op in ("<<", ">>"):
            if not isinstance(b, int):
                y = self.nbits(b, 8)
                r = B.gen((lambda p, q: (p << q) & ((1 << w) - 1)) if op == "<<" else (lambda p, q: p >> q),
                          [(x, sg), (y, False)], w)
            elif op == "<<":
                r = ((B.ZERO,) * b + x)[:w]
            else:
                r = x[b:] + ((x[-1] if sg else B.ZERO),) * min(b, w)
                r = r[:w]
            return self.wrap((NS if sg else N)(r), ty)
        y = self.nbits(b, w)
        if op == "&":
            r = tuple(B.band(p, q) for p, q in zip(x, y))
        elif op == "|":
            r = tuple(B.bor(p, q) for p, q in zip(x, y))
        elif op == "^":
            r = tuple(B.bxor(p, q) for p, q in zip(x, y))
        elif op == "+" and self.uadd and w == (64 if self.uadd is True else self.uadd):
            r = self.uninterpreted(x, y)
        elif op == "-" and self.uadd == w:
            r = self.uninterpreted(x, y, "-")
        elif op == "+":
            r = B.add(x, y)[0]
        elif op == "-":
            r = B.sub(x, y)[0]
        elif op == "*":
            if isinstance(a, int):
                x, y, a, b = y, x, b, a
            if isinstance(b, int) and b >= 0:
                r = B.const(0, w)
                i = 0
                while b >> i:
                    if b >> i & 1:
                        r = B.add(r, ((B.ZERO,) * i + x)[:w])[0]
                    i += 1
            else:
                r = B.gen(lambda p, q: (p * q) & ((1 << w) - 1), [(x, sg), (y, sg)], w)
        else:
            if isinstance(b, int) and b > 0 and b & (b - 1) == 0 and (not sg or x[-1] == B.ZERO):
                k = b.bit_length() - 1
                r = x[k:] + (B.ZERO,) * k if op == "/" else x[:k] + (B.ZERO,) * (w - k)
            else:
                def dm(p, q):
                    if q == 0:
                        return None
                    z = abs(p) // abs(q)
                    if (p < 0) != (q < 0):
                        z = -z
                    return (z if op == "/" else p - q * z) & ((1 << w) - 1)
                r = B.gen(dm, [(x, sg), (y, sg)], w)
                if B.TOP in r and isinstance(b, int) and b > 0 and (not sg or x[-1] == B.ZERO):
                    q, m = B.divmod(x, b)
                    r = q if op == "/" else m
        return self.wrap((NS if sg else N)(r), ty)

    uadd = False
    UBASE = 20000

    def uninterpreted(self, x, y, op="+"):
        """Sum or difference as fresh bits: equal operands give equal results."""
        w = len(x)
        if B.as_int(x) is not None and B.as_int(y) is not None:
            return B.const((B.as_int(x) + (B.as_int(y) if op == "+" else -B.as_int(y))) & ((1 << w) - 1), w)
        zero = B.const(0, w)
        if y == zero or x == zero and op == "+":
            return y if x == zero else x
        if B.TOP in x or B.TOP in y:
            return (B.TOP,) * w
        k = (x, y, op) if x <= y or op == "-" else (y, x, op)
        if k not in self.umemo:
            i = len(self.umemo)
            self.umemo[k] = i
            self.udefs.append(k)
        return tuple(B.var(self.UBASE + self.umemo[k] * 64 + j) for j in range(w))

    lasteq = None

    @staticmethod
    def sampled_differ(x, y):
        """Do the vectors differ in more than a few bits?  Their equality is then too large to be worth building."""
        return len(x) > 8 and sum(p != q for p, q in zip(x, y)) > 4

    def refuted(self, bits, st, tries=40):
        """Is one of the bits false for some sampled input satisfying the state's constraints, with real sums?  None if
        they do not involve uninterpreted sums."""
        bits = [b for b in bits if b != B.TOP]
        if not self.udefs or not any(v >= self.UBASE and v < self.UBASE + 64 * len(self.udefs)
                                     for v in B.support(tuple(bits))):
            return None
        import random
        rnd = random.Random(7)
        for t in range(tries):
            memo = {}
            sums = {}

            def var(v):
                if v not in memo:
                    j = v - self.UBASE
                    if 0 <= j < 64 * len(self.udefs):
                        i = j // 64
                        if i not in sums:
                            a, b, op = self.udefs[i]
                            a, b = (sum(B.value(z, var) << m for m, z in enumerate(q)) for q in (a, b))
                            sums[i] = a + b if op == "+" else (a - b) & (1 << 64) - 1
                        memo[v] = sums[i] >> (j % 64) & 1
                    else:
                        memo[v] = rnd.randint(0, 1) if t else 0
                return memo[v]
            if all(B.value(g, var) for g in st.cons) and not all(B.value(b, var) for b in bits):
                return True
        return False

    def e_assign(self, n, st, fr):
        return [(s, self.load(s, p, n)) for s, p in self.l_assign(n, st, fr)]

    def e_cond(self, n, st, fr):
        out = []
        for s, t in self.cond(n.kids[0], st, fr):
            x = n.kids[1] if t else n.kids[2]
            if x.strip().k == "throw":
                self.do_throw(x.strip(), s, fr)
                continue
            out += self.ev(x, s, fr)
        return self.join(out)

    def e_init(self, n, st, fr):
        t = bare(n.type)
        if self.ity(n) and len(n.kids) == 1:
            return self.ev(n.kids[0], st, fr)
        out = []
        ext = self.extent(t)
        for s, vs in self.evs(n.kids, st, fr):
            if ext is not None:
                if t.startswith("std::array") and len(vs) == 1 and isinstance(vs[0], Seq) and \
                        (self.extent(bare(vs[0].ty)) == ext or "[" in (vs[0].ty or "")):
                    vs = list(vs[0].items)
                z = self.zero(element(t))
                if z is not None and len(vs) < ext:
                    vs = list(vs) + [z] * (ext - len(vs))
                out.append((s, Seq(vs, t)))
                continue
            rec = self.prog.records(strip_targs(t))
            if rec and "[" not in t:
                names = [f["n"] for f in rec[0][1]["fields"]]
                out.append((s, Obj(strip_targs(t), dict(zip(names, vs)))))
            else:
                out.append((s, Seq(vs, t)))
        return out

    def extent(self, t):
        m = re.match(r"std::array<(.*), (\d+)(?:UL|U|L)?>$", t) or re.match(r"([^\[]*)\[(\d+)\]$", t)
        return int(m.group(2)) if m and int(m.group(2)) <= 4096 else None

    def zero(self, t):
        t = bare(t)
        if INT.get(t) or t.endswith("*") or t == "bool":
            return 0
        x = self.extent(t)
        if x is not None:
            z = self.zero(element(t))
            return None if z is None else Seq([z] * x, t)
        return None

    def e_stdinit(self, n, st, fr):
        if len(n.kids) == 1 and n.kids[0].k in ("init", "cast"):
            return self.ev(n.kids[0].strip(), st, fr)
        return [(s, Seq(vs, "init")) for s, vs in self.evs(n.kids, st, fr)]

    def e_throw(self, n, st, fr):
        self.do_throw(n, st, fr)
        return []

    def e_CXXScalarValueInitExpr(self, n, st, fr):
        z = self.zero(bare(n.type))
        return [(st, 0 if z is None else z)]

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    # ------------------------------------------------------------ lvalues
    def lv(self, n, st, fr):
        k = n.k
        if k == "cast":
            if n.o.get("ck") == "LValueToRValue":
                return [(s, self.temp(s, v)) for s, v in self.rvalue(n.kids[0], st, fr)]
            if n.o.get("ck") in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", None,
                                 "MaterializeTemporary"):
                x = n.kids[0]
                if x.o.get("lv") or x.k in ("ref", "mem", "index", "call", "cast", "un", "assign"):
                    return self.lv(x, st, fr)
            return [(s, self.temp(s, v)) for s, v in self.ev(n, st, fr)]
        if k == "ref":
            d = n.decl
            if d.o.get("k") in ("enum", "func"):
                return [(s, self.temp(s, v)) for s, v in self.e_ref(n, st, fr)]
            root = self.varroot(d, fr)
            if root[0] == "v" and root not in st.mem:
                if n.cv is not None:
                    return [(st, self.temp(st, n.cv))]
                raise Undecided("unknown variable %s at %s" % (d.name, n.loc))
            v = st.mem.get(root)
            if isinstance(v, Ref):
                return [(st, P(v.root, v.sels))]
            if root[0] == "s" and v is None:
                raise Undecided("static local %s at %s" % (d.name, n.loc))
            return [(st, P(root))]
        if k == "mem":
            d = n.decl
            if d.o.get("k") == "var":
                return [(st, P(("g", d.q)))]
            b = n.kids[0]
            out = []
            for s, p in (self.ev(b, st, fr) if n.o.get("arrow") else self.lv(b, st, fr)):
                if isinstance(p, int) and p == 0 and n.o.get("arrow"):
                    self.note_oob(n, "a null pointer is dereferenced")
                    continue
                if not isinstance(p, P):
                    raise Undecided("member of %r at %s" % (p, n.loc))
                q = p.at(d.name) if d.name else p
                if p.root in s.mem:
                    v = self.get(s, q, n) if self.has(s, q) else None
                    if isinstance(v, Ref):
                        q = P(v.root, v.sels)
                out.append((s, q))
            return out
        if k == "this":
            return [(st, self.temp(st, fr.this))]
        if k == "un":
            if n.op == "*":
                return [(s, self.place(v, n)) for s, v in self.ev(n.kids[0], st, fr)]
            if n.op in ("++", "--") and not n.o.get("post"):
                out = []
                for s, p in self.lv(n.kids[0], st, fr):
                    old = self.load(s, p, n)
                    d = 1 if n.op == "++" else -1
                    self.put(s, p, old.plus(d) if isinstance(old, P) else
                             self.arith("+", old, d, self.ity(n.kids[0]) or (64, False), n), n)
                    out.append((s, p))
                return out
        if k == "index":
            out = []
            if bare(n.kids[0].type).endswith("]"):
                for s, a in self.lv(n.kids[0], st, fr):
                    for s2, i in self.ev(n.kids[1], s, fr):
                        out.append((s2, a.at(i) if isinstance(i, (int, N)) else self.temp(s2, Unk("?", "element"))))
                return out
            for s, (a, i) in self.evs(n.kids, st, fr):
                if isinstance(a, P):
                    if isinstance(i, int):
                        out.append((s, a.plus(i)))
                    else:
                        if a.sels and a.sels[-1] == 0:
                            out.append((s, P(a.root, a.sels[:-1] + (i,))))
                        else:
                            raise Undecided("index at %s" % n.loc)
                else:
                    out.append((s, self.temp(s, Unk("?", "element"))))
            return out
        if k == "assign":
            return self.l_assign(n, st, fr)
        if k == "call":
            out = []
            for s, v in self.call(n, st, fr, want_lv=True):
                if not (isinstance(v, P) and n.o.get("lv")):
                    unknown = n.o.get("lv") and isinstance(v, Unk)
                    v = self.temp(s, v)
                    if unknown:
                        self.vague.add(v.root)      # some object: which one is not known
                out.append((s, v))
            return out
        if k == "cond" and n.o.get("lv"):
            out = []
            for s, t in self.cond(n.kids[0], st, fr):
                out += self.lv(n.kids[1] if t else n.kids[2], s, fr)
            return out
        if k == "str":
            return [(st, self.temp(st, self.e_str(n, st, fr)[0][1]))]
        return [(s, self.temp(s, v)) for s, v in self.ev(n, st, fr)]

    def has(self, st, p):
        v = st.mem.get(p.root)
        for s in p.sels:
            if isinstance(v, Ref):
                return True
            v = self.peek(v, s)
            if v is None:
                return False
        return True

    @staticmethod
    def place(v, n):
        if isinstance(v, P):
            return P(v.root, v.sels)
        raise Undecided("dereference of %r at %s" % (v, n.loc))

    def l_assign(self, n, st, fr):
        lhs, rhs = n.kids
        out = []
        for s, v in self.ev(rhs, st, fr):
            for s2, p in self.lv(lhs, s, fr):
                if n.op != "=":
                    op = n.op[:-1]
                    old = self.load(s2, p, n)
                    lt = self.ity(lhs)
                    if isinstance(old, Unk) and lt is not None and (old.why == "uninitialised" or p.sels and isinstance(
                            s2.mem.get(p.root), Unk) and s2.mem[p.root].why == "uninitialised"):
                        self.note_oob(n, "an uninitialised value is read")
                    if isinstance(old, P):
                        v2 = self.ptrop(op, old, v, n)
                    elif lt is None:
                        v2 = Unk("?", "op")
                    else:
                        rt = self.ity(rhs) or lt
                        ct = (max(32, lt[0], rt[0] if op not in ("<<", ">>") else 0),
                              (lt[1] if lt[0] >= 32 else True) if lt[0] >= rt[0] or op in ("<<", ">>") else
                              (rt[1] if rt[0] >= 32 else True))
                        v2 = self.wrap(s2.simplify(self.arith(op, old, v, ct, n)), lt)
                else:
                    v2 = v
                    lt = self.ity(lhs)
                    if lt is not None and isinstance(v, (int, N)):
                        v2 = self.wrap(v, lt)
                self.put(s2, p, v2, n)
                out.append((s2, p))
        return out

    # ------------------------------------------------------------ construction
    def repo_ctor(self, n):
        f = self.prog.body(n.decl)
        return f is not None and (not f.o.get("defaulted") or not f.params) and f.blocks and not n.o.get("elide") and \
            n.decl.q not in self.models

    def construct_root(self, n, st, fr, root):
        out = []
        for s, vs in self.args(n.kids, n.decl.ptypes, st, fr):
            s.mem[root] = Obj(n.decl.cls, {})
            k = len(self.sink[-1])
            r = self.invoke(self.prog.body(n.decl), vs, P(root), s)
            for s2, e in self.sink[-1][k:]:
                s2.mem.pop(root, None)          # it never came to be
            for s2, v in r:
                if isinstance(s2.mem[root], Err):
                    s2.mem[root] = s2.mem[root].derived(n.decl.cls)
                self.leave_unset(s2, root, n.decl.cls)
                out.append(s2)
        return out

    def leave_unset(self, st, root, cls):
        """Scalar members that no constructor gave a value."""
        o = st.mem[root]
        if not isinstance(o, Obj) or o.cls != cls:
            return
        fs = self.scalars.get(cls)
        if fs is None:
            fs = {}
            for tu, r in self.prog.records(cls):
                for f in r["fields"]:
                    t = tu.types[f["t"]]
                    fs.setdefault(f["n"], set()).add(t if INT.get(bare(t)) and not t.endswith("&") else None)
            fs = self.scalars[cls] = {k: min(ts) for k, ts in fs.items() if k and None not in ts}
        new = {k: Unk(t, "uninitialised") for k, t in fs.items() if k not in o.f}
        if new:
            st.mem[root] = Obj(cls, {**o.f, **new})

    def construct_at(self, e, st, fr, this):
        x = e
        if x.k == "construct" and self.repo_ctor(x):
            out = []
            for s, vs in self.args(x.kids, x.decl.ptypes, st, fr):
                out += self.invoke(self.prog.body(x.decl), vs, this, s)
            return out
        if x.k == "construct":
            if x.decl.cls == "std::system_error":
                from . import errmodel
                r = errmodel.construct(self, x, x.decl.cls, st, fr)
                if r is not None:
                    for s, v in r:
                        self.put(s, this, v, x)
                    return r
            return [(s, None) for s, vs in self.evs(x.kids, st, fr)]
        return self.ev(e, st, fr)

    def args(self, nodes, ptypes, st, fr):
        out = [(st, [])]
        for i, x in enumerate(nodes):
            byref = i < len(ptypes) and ptypes[i].endswith("&")
            nx = []
            for s, vs in out:
                for s2, v in (self.lv(x, s, fr) if byref else self.ev(x, s, fr)):
                    nx.append((s2, vs + [v]))
            out = nx
        return out

    def e_construct(self, n, st, fr):
        d = n.decl
        m = self.models.get(d.q)
        if m is not None:
            return m(self, n, st, fr)
        cls = d.cls or ""
        if self.repo_ctor(n):
            self.nt += 1
            root = ("t", self.nt)
            return [(s, s.mem[root]) for s in self.construct_root(n, st, fr, root)]
        kids = n.kids
        pt = d.ptypes
        if cls in ("std::unique_ptr", "std::shared_ptr", "std::function") and len(kids) == 1:
            from . import libmodel
            if libmodel.moves(kids[0], cls):
                return libmodel.smart_value(self, kids[0], st, fr, n)
        if cls in ("std::basic_string", "std::vector", "std::deque") and len(kids) == 1 and pt[0].endswith("&&"):
            from . import libmodel, stdmodel
            if libmodel.moves(kids[0], cls):
                out = []
                for s, p in self.lv(kids[0], st, fr):
                    v = self.load(s, p, n)
                    stdmodel.drain(self, s, p, n)
                    out.append((s, v))
                return out
        if n.o.get("elide") or (len(kids) == 1 and pt and strip_targs(bare(pt[0])) == cls):
            return [(s, self.deref_obj(s, v)) for s, v in self.ev(kids[0], st, fr)]
        from . import stdmodel, errmodel
        r = errmodel.construct(self, n, cls, st, fr)
        if r is None:
            r = stdmodel.construct(self, n, cls, st, fr)
        if r is not None:
            return r
        out = []
        for s, vs in self.evs(kids, st, fr):
            errs = [v for v in vs if isinstance(v, Err)]
            if errs:
                out.append((s, errs[0]))
            elif f_trivial(self.prog, cls) and not kids:
                out.append((s, Obj(cls, {})))
            else:
                out.append((s, Unk(cls, "constructed")))
        return out

    def deref_obj(self, st, v):
        return v

    # ------------------------------------------------------------ calls
    def e_call(self, n, st, fr):
        if n.o.get("lv"):
            return [(s, self.load(s, v, n) if isinstance(v, P) else v) for s, v in self.call(n, st, fr, True)]
        if n.decl is not None and n.decl.q in ("std::move", "std::forward"):
            from .nodemodel import pointerish
            if pointerish(n.type):      # the value itself is a place: not to be confused with where it is kept
                return [(s, self.load(s, v, n) if isinstance(v, P) else v) for s, v in self.call(n, st, fr, True)]
        return self.call(n, st, fr, False)

    def call(self, n, st, fr, want_lv):
        d = n.decl
        if d is None:
            fnn = n.node(n.o.get("fn", -1))
            raise Undecided("indirect call at %s" % n.loc)
        q = d.q
        m = self.models.get(q)
        if m is not None:
            return m(self, n, st, fr)
        if q.startswith("maidsafe::log::"):
            return [(st, Unk("log", "log"))]
        if q in ("std::uncaught_exception", "std::uncaught_exceptions"):
            return [(st, self.unwinding if q.endswith("s") else int(self.unwinding > 0))]
        if q in ("boost::throw_exception", "boost::exception_detail::throw_exception_"):
            for s, v in self.ev(n.args[0], st, fr):
                self.sink[-1].append((s, v if isinstance(v, Err) else Err(bare(n.args[0].type))))
            return []
        if q == "maidsafe::MakeError" and self.prog.body(d) is None:
            et = strip_targs(bare(n.args[0].type))
            return [(s, Err(self.errname(n.args[0], v), bare(d.rettype), v, et)) for s, v in self.ev(n.args[0], st, fr)]
        if n.o.get("opc") and d.o.get("op") == "()":
            r = self.call_lambda(n, st, fr)
            if r is not None:
                return r
        f = self.prog.body(d)
        if d.o.get("virt") and not n.o.get("qual") and n.obj is not None:
            r = self.call_virtual(n, d, f, st, fr)
            if r is not None:
                return r
        if f is not None and f.blocks and not f.o.get("defaulted"):
            return self.call_repo(n, f, st, fr)
        if d.o.get("op") == "=" and len(n.kids) == 2 and self.prog.records(d.cls or "") and \
                (f is None or f.o.get("defaulted")):
            out = []
            for s, p in self.lv(n.kids[0], st, fr):
                for s2, q in self.lv(n.kids[1], s, fr):
                    self.put(s2, p, self.load(s2, q, n), n)
                    out.append((s2, p))
            return out
        from . import stdmodel, errmodel
        r = errmodel.call(self, n, d, st, fr, want_lv)
        if r is None:
            r = stdmodel.call(self, n, d, st, fr, want_lv)
        if r is not None:
            return r
        return self.havoc(n, d, st, fr)

    def errname(self, node, v):
        t = strip_targs(bare(node.type))
        e = self.enums.get(t)
        if e and isinstance(v, int):
            return e.get(v, "%s(%d)" % (t, v)).split("::")[-1]
        return "?"

    def call_repo(self, n, f, st, fr):
        d = n.decl
        out = []
        if n.obj is not None and not d.o.get("static") and d.cls:
            for s, this in (self.ev(n.obj, st, fr) if n.o.get("arrow") else self.lv(n.obj, st, fr)):
                if not isinstance(this, P):
                    raise Undecided("call on %r at %s" % (this, n.loc))
                for s2, vs in self.args(n.args, d.ptypes, s, fr):
                    out += self.invoke(f, vs, P(this.root, this.sels), s2)
            return out
        if d.cls and n.o.get("opc") and not d.o.get("static") and len(n.kids) == len(d.ptypes) + 1:
            for s, this in self.lv(n.kids[0], st, fr):
                for s2, vs in self.args(n.kids[1:], d.ptypes, s, fr):
                    out += self.invoke(f, vs, P(this.root, this.sels), s2)
            return out
        for s, vs in self.args(n.args, d.ptypes, st, fr):
            out += self.invoke(f, vs, None, s)
        return out

    def call_virtual(self, n, d, f, st, fr):
        """Dispatch on the class the object was made as; None if that is not known."""
        out = []
        for s, this in (self.ev(n.obj, st, fr) if n.o.get("arrow") else self.lv(n.obj, st, fr)):
            o = self.load(s, this, n) if isinstance(this, P) else None
            if not isinstance(o, Obj):
                return None
            g = self.override(o.cls, d) or f
            if g is None or not g.blocks:
                return None
            for s2, vs in self.args(n.args, d.ptypes, s, fr):
                out += self.invoke(g, vs, P(this.root, this.sels), s2)
        return out

    def override(self, cls, d):
        """The function that overrides d in class cls or the nearest base that has one."""
        for g in self.prog.members(cls):
            if g.decl.name == d.name and g.decl.ptypes == d.ptypes and \
                    bool(g.decl.o.get("const")) == bool(d.o.get("const")):
                return g
        for tu, r in self.prog.records(cls)[:1]:
            for b in r.get("bases", []):
                g = self.override(strip_targs(bare(tu.types[b["t"]] if isinstance(b, dict) else tu.types[b])), d)
                if g is not None:
                    return g
        return None

    def operate(self, st, op, a, b, n):
        """[(state, value)] of `a op b` for two places or values, using the program's own operators for classes."""
        x = self.load(st, a, n) if isinstance(a, P) else a
        y = self.load(st, b, n) if isinstance(b, P) else b
        if isinstance(x, (int, N)) and isinstance(y, (int, N)):
            sg = any(v.__class__ is NS or isinstance(v, int) and v < 0 for v in (x, y))
            return [(st, self.compare(op, x, y, sg))]
        if isinstance(x, Seq) and isinstance(y, Seq):
            from . import stdmodel
            if op in ("==", "!="):
                return [(st, self.seq_eq(x, y, op))]
            return [(st, stdmodel.seq_order(self, x, y, op))]
        if isinstance(x, Obj) and isinstance(y, Obj):
            if x.cls in ("std::tuple", "std::pair"):
                return self.tuple_op(st, op, x, y, n)
            for g in self.prog.operators(op):
                if len(g.params) == 2 and all(strip_targs(bare(p.type)) == c for p, c in zip(g.params, (x.cls, y.cls))):
                    pa = [v if isinstance(v, P) else self.temp(st, v) for v in (a, b)]
                    pa = [v if p.type.endswith("&") else self.load(st, v, n) for v, p in zip(pa, g.params)]
                    return self.invoke(g, pa, None, st)
                if len(g.params) == 1 and g.decl.cls == x.cls and strip_targs(bare(g.params[0].type)) == y.cls:
                    pa = [v if isinstance(v, P) else self.temp(st, v) for v in (a, b)]
                    arg = pa[1] if g.params[0].type.endswith("&") else self.load(st, pa[1], n)
                    return self.invoke(g, [arg], P(pa[0].root, pa[0].sels), st)
        return [(st, Unk("bool", "comparison"))]

    def tuple_op(self, st, op, x, y, n):
        neg = op in ("!=", "<=", ">=")
        if op in (">", "<="):
            x, y = y, x
        ks = sorted(x.f)
        out = []
        live = [st]
        for k in ks:
            nx = []
            for s in live:
                if op in ("==", "!="):
                    for s2, v in self.operate(s, "==", x.f[k], y.f[k], n):
                        for s3, t in self.branch(v, s2, n):
                            if t:
                                nx.append(s3)
                            else:
                                out.append((s3, int(neg)))
                    continue
                for s2, v in self.operate(s, "<", x.f[k], y.f[k], n):
                    for s3, t in self.branch(v, s2, n):
                        if t:
                            out.append((s3, int(not neg)))
                            continue
                        for s4, v4 in self.operate(s3, "<", y.f[k], x.f[k], n):
                            for s5, t5 in self.branch(v4, s4, n):
                                if t5:
                                    out.append((s5, int(neg)))
                                else:
                                    nx.append(s5)
            live = self.joins(nx)
        last = 1 if op == "==" else 0 if op == "!=" else int(neg)
        return self.join(out + [(s, last) for s in live])

    def call_lambda(self, n, st, fr):
        out = []
        obj = n.kids[0]
        for s, v in self.ev(obj, st, fr):
            if not isinstance(v, Lam) or v.fn is None:
                return None
            fn = v.fn
            if v.bound is not None:
                for s2, vs in self.args(n.kids[1:], [], s, fr):
                    out += self.apply(v, vs, s2, n)
                continue
            if len(v.insts) > 1:
                fn = next((f for f in v.insts if f.uid == (fr.fn.tu.idx, n.o.get("d"))), None)
                if fn is None:
                    raise Undecided("which instance of a generic lambda is called at %s" % n.loc)
            for s2, vs in self.args(n.kids[1:], [p.type for p in fn.params], s, fr):
                out += self.invoke(fn, vs, v.this, s2, pfid=v.fid, caps=v.caps)
        return out

    def peekv(self, st, p):
        try:
            return self.load(st, p, None)
        except (Undecided, KeyError, TypeError, AttributeError, IndexError):
            return None

    def apply(self, lam, vals, st, n, types=None):
        """Call a lambda value with given values."""
        if not isinstance(lam, Lam) or lam.fn is None:
            raise Undecided("cannot call %r at %s" % (lam, n.loc))
        fn = lam.fn
        if lam.bound is not None:
            vals = lam.bound
        if len(lam.insts) > 1:
            cands = [f for f in lam.insts if types is not None and len(f.params) == len(types) and
                     all(bare(p.type) == bare(t) for p, t in zip(f.params, types))]
            if len(cands) != 1:
                raise Undecided("which instance of a generic lambda is called at %s" % n.loc)
            fn = cands[0]
        vs = []
        for p, v in zip(fn.params, vals):
            if p.type.endswith("&"):
                vs.append(v if isinstance(v, P) else self.temp(st, v))
            else:
                if isinstance(v, P):
                    x = self.peekv(st, v)
                    if isinstance(x, P) or not (p.type.endswith("*") or "iterator" in p.type):
                        v = self.load(st, v, n)
                vs.append(v)
        return self.invoke(fn, vs, lam.this, st, pfid=lam.fid, caps=lam.caps)

    def havoc(self, n, d, st, fr):
        """A call whose body is not known: its result is unknown, and so is whatever it may write."""
        self.opaque[d.q] = n.loc
        out = []
        nodes = list(n.args)
        pts = d.ptypes
        sts = [st]
        if n.obj is not None and not d.o.get("static"):
            nx = []
            for s in sts:
                for s2, p in (self.ev(n.obj, s, fr) if n.o.get("arrow") else self.lv(n.obj, s, fr)):
                    if not d.o.get("const") and isinstance(p, P) and p.root in s2.mem:
                        self.clobber(s2, self.peekv(s2, p), "", n, d)
                        self.put(s2, p, Unk("?", d.name), n)
                    nx.append(s2)
            sts = nx
        for i, a in enumerate(nodes):
            byref = i < len(pts) and pts[i].endswith("&")
            nx = []
            for s in sts:
                if byref:
                    for s2, p in self.lv(a, s, fr):
                        if not pts[i].startswith("const ") and not pts[i].endswith("&&") and p.root in s2.mem:
                            self.put(s2, p, Unk("?", d.name), n)
                        else:
                            self.clobber(s2, self.load(s2, p, n) if p.root in s2.mem else None, pts[i], n, d)
                        nx.append(s2)
                else:
                    for s2, v in self.ev(a, s, fr):
                        self.clobber(s2, v, pts[i] if i < len(pts) else bare(a.type), n, d)
                        nx.append(s2)
            sts = nx
        if d.o.get("noreturn"):
            if sts and d.name in ("__assert_fail", "abort", "terminate", "__assert_rtn", "_exit", "exit"):
                self.note_oob(n, "the program is aborted (%s)" % d.name)
            return []
        return [(s, Unk(bare(n.type), d.q)) for s in sts]


    def clobber(self, st, v, ty, n, d):
        """What an unknown function may write through a value it is given."""
        if isinstance(v, Lam):
            raise Undecided("%s is given a function, at %s" % (d.q, n.loc))
        if isinstance(v, P) and not (ty.startswith("const ") and bare(ty).endswith("*")):
            if v.root in st.mem:
                self.put(st, v, Unk("?", d.name), n)
        elif isinstance(v, Obj) and any(isinstance(x, (P, Lam)) for x in v.f.values()):
            for x in list(v.f.values()):
                self.clobber(st, x, "", n, d)


class NS(N):
    """Abstract signed scalar."""
    __slots__ = ()


class Split:
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts


def f_trivial(prog, cls):
    return bool(prog.records(cls))


def unnest(val, ty):
    out = []
    for x in val:
        if isinstance(x, list):
            out.append(Seq(unnest(x, ""), ""))
        else:
            out.append(int(x))
    return out


def fresh(ids, w=8):
    """An unconstrained scalar of w input bits."""
    return N(B.var(i) for i in ids)


def sbyte(ids):
    return NS(B.var(i) for i in ids)
