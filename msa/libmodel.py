"""Standard-library objects other than sequences: node containers, tuples, smart pointers, functions, optional, time."""
import re
from . import netmodel, pathmodel, bits as B, nodemodel as NM, byteview
from .absint import P, Ref, Seq, Obj, N, Unk, Err, Lam, Undecided, INT, bare, strip_targs

SMART = ("std::shared_ptr", "std::unique_ptr")
OPT = ("boost::optional", "boost::optional_ns::optional", "std::optional")
TUPLE = ("std::tuple", "std::pair")


def is_iter_type(t):
    return strip_targs(bare(t)) in NM.ITERS


def tuple_names(t):
    ta = NM.targs(t)
    return (("first", "second") if strip_targs(bare(t)) == "std::pair" else [str(i) for i in range(len(ta))]), ta


# ---------------------------------------------------------------- construction
def construct(I, n, cls, st, fr):
    kids, ty = n.kids, bare(n.type)
    pt = n.decl.ptypes
    if NM.is_node(cls):
        return NM.construct(I, n, cls, st, fr)
    if cls in NM.ITERS:
        if not kids:
            return [(st, Unk(ty, "singular iterator"))]
        return I.ev(kids[0], st, fr)
    if cls in SMART or cls == "std::weak_ptr" or cls in ("std::function", "std::default_delete"):
        if not kids:
            return [(st, 0)]
        out = []
        for s, v in I.ev(kids[0], st, fr):
            v = I.load(s, v, n) if isinstance(v, P) and pt and pt[0].endswith("&") and \
                strip_targs(bare(pt[0])) in SMART + ("std::function",) and isinstance(peek(I, s, v), (P, int, Lam)) else v
            out.append((s, v))
        return out
    if cls in TUPLE:
        names, ta = tuple_names(ty)
        if not kids:
            return [(st, Obj(cls, {k: NM.default_value(I, st, x, n) for k, x in zip(names, ta)}))]
        if len(kids) == 1 and len(names) != 1:
            out = []
            for s, v in I.ev(kids[0], st, fr):
                v = I.load(s, v, n) if isinstance(v, P) else v
                if isinstance(v, Obj) and len(v.f) == len(names):
                    vs = [v.f[k] for k in (("first", "second") if v.cls == "std::pair" else names)]
                    vs = [I.load(s, x, n) if isinstance(x, Ref) else x for x in vs]
                    out.append((s, Obj(cls, dict(zip(names, [typed(I, x, t) for x, t in zip(vs, ta)])))))
                else:
                    out.append((s, Unk(ty, "tuple")))
            return out
        if len(kids) == len(names):
            res = [(st, [])]
            for k, t in zip(kids, ta):
                nx = []
                for s, vs in res:
                    if t.endswith("&"):
                        nx += [(s2, vs + [Ref(p.root, p.sels)]) for s2, p in I.lv(k, s, fr)]
                    else:
                        nx += [(s2, vs + [typed(I, v, t)]) for s2, v in I.ev(k, s, fr)]
                res = nx
            return [(s, Obj(cls, dict(zip(names, vs)))) for s, vs in res]
        return None
    if cls in OPT:
        if not kids or bare(kids[0].type).endswith(("none_t", "nullopt_t")):
            return [(st, Obj(cls, {"has": 0}))]
        out = []
        for s, vs in I.evs(kids, st, fr):
            v = vs[-1]
            v = I.load(s, v, n) if isinstance(v, P) and strip_targs(bare(kids[-1].type)) in OPT else v
            if isinstance(v, Obj) and v.cls in OPT:
                out.append((s, v))
            elif len(vs) == 2:
                for s2, t in I.branch(vs[0], s, n):
                    out.append((s2, Obj(cls, {"has": 1, "v": typed(I, v, NM.targs(ty)[0])} if t else {"has": 0})))
            else:
                out.append((s, Obj(cls, {"has": 1, "v": typed(I, v, NM.targs(ty)[0])})))
        return out
    if cls == "boost::expected":
        out = []
        for s, v in I.ev(kids[0], st, fr) if kids else []:
            v = I.load(s, v, n) if isinstance(v, P) else v
            if isinstance(v, Obj) and v.cls == "boost::unexpected_type":
                out.append((s, Obj(cls, {"has": 0, "e": v.f["e"]})))
            elif isinstance(v, Obj) and v.cls == cls:
                out.append((s, v))
            else:
                out.append((s, Obj(cls, {"has": 1, "v": typed(I, v, NM.targs(ty)[0])})))
        return out or None
    if netmodel.is_net(cls):
        return netmodel.construct(I, n, cls, st, fr)
    if cls == pathmodel.CLS:
        return pathmodel.construct(I, n, st, fr)
    if cls in ("std::chrono::duration", "std::chrono::time_point"):
        if not kids:
            return [(st, 0)]
        return [(s, rescale(I, v, bare(kids[0].type), ty)) for s, v in I.ev(kids[0], st, fr)]
    return None


def typed(I, v, t):
    it = INT.get(bare(t))
    return I.wrap(v, it) if it and isinstance(v, (int, N)) else v


def peek(I, st, p):
    try:
        return I.get(st, p)
    except Exception:
        return None


def make_object(I, st, ty, vals, n):
    """[(state, value)] of an object of type ty made from vals, or None."""
    t = bare(ty)
    cls = strip_targs(t)
    if not I.prog.records(cls):
        if len(vals) == 1:
            v = vals[0]
            return [(st, typed(I, I.load(st, v, n) if isinstance(v, P) else v, t))]
        if not vals:
            d = I.default(t)
            return None if isinstance(d, Unk) else [(st, d)]
        return None
    best = None
    cands = [g for g in I.prog.funcs if g.decl.cls == cls and g.decl.name == cls.split("::")[-1]]
    # the instance of this very class, if its constructors are known by that name
    cands = [g for g in cands if bare(g.decl.rectype or "") == t] or cands
    for g in cands:
        d = g.decl
        if len(g.params) != len(vals) or not g.blocks:
            continue
        ok = True
        for p, v in zip(g.params, vals):
            x = I.load(st, v, n) if isinstance(v, P) else v
            q = strip_targs(bare(p.type))
            if isinstance(x, P) and I.prog.records(q) or isinstance(x, P) and INT.get(q):
                ok = False
            if isinstance(x, Obj) and x.cls != q and not I.prog.records(q) or isinstance(x, Seq) and INT.get(q) or \
                    isinstance(x, Obj) and q != x.cls:
                ok = False
        if ok:
            best = g
            break
    if best is None:
        if not vals:
            return [(st, Obj(cls, {}))]
        return None
    I.nt += 1
    root = ("t", I.nt)
    st.mem[root] = Obj(cls, {})
    args = []
    for p, v in zip(best.params, vals):
        if p.type.endswith("&"):
            args.append(v if isinstance(v, P) else I.temp(st, v))
        else:
            args.append(I.load(st, v, n) if isinstance(v, P) else v)
    return [(s, s.mem[root]) for s, v in I.invoke(best, args, P(root), st)]


# ---------------------------------------------------------------- time
def period(t):
    """Nanoseconds per tick of a duration (or of a time point's duration)."""
    m = re.search(r"duration<[^<>]*(?:, ?(?:std::)?ratio<(\d+)(?:, ?(\d+))?>)?>", t)
    if m:
        a, b = int(m.group(1) or 1), int(m.group(2) or 1)
        return a * 10 ** 9 // b
    for k, v in (("nanoseconds", 1), ("microseconds", 10 ** 3), ("milliseconds", 10 ** 6), ("seconds", 10 ** 9),
                 ("minutes", 60 * 10 ** 9), ("hours", 3600 * 10 ** 9), ("steady_clock", 1), ("system_clock", 1)):
        if k in t:
            return v
    return None


def rescale(I, v, a, b):
    x, y = period(a), period(b)
    if x is None or y is None or x == y:
        return v
    if isinstance(v, int):
        q = abs(v) * x // y
        return q if v >= 0 else -q
    if isinstance(v, N) and x % y == 0:
        return I.arith("*", v, x // y, (64, True))
    return Unk("long", "duration")


def chrono(I, n, d, st, fr):
    q, nm = d.q, d.name
    if nm in ("zero",):
        return [(st, 0)]
    if nm in ("min", "max") and d.cls in ("std::chrono::duration", "std::chrono::time_point"):
        return [(st, -(1 << 63) if nm == "min" else (1 << 63) - 1)]
    if q in ("std::chrono::duration_cast", "std::chrono::time_point_cast"):
        return [(s, rescale(I, v, bare(n.args[0].type), bare(n.type))) for s, v in I.ev(n.args[0], st, fr)]
    if nm in ("count", "time_since_epoch"):
        return [(s, I.load(s, v, n)) for s, v in I.lv(n.obj, st, fr)]
    op = d.o.get("op")
    if op in ("+", "-", "<", ">", "<=", ">=", "==", "!=") and len(n.kids) == 2:
        out = []
        ta, tb = bare(n.kids[0].type), bare(n.kids[1].type)
        pa, pb = period(ta), period(tb)
        if pa is None or pb is None:
            return None
        m = min(pa, pb)
        unit = "std::chrono::duration<long, std::ratio<1, %d>>" % (10 ** 9 // m) if m < 10 ** 9 else \
            "std::chrono::duration<long, std::ratio<%d>>" % (m // 10 ** 9)
        for s, vs in I.evs(n.kids, st, fr):
            a, b = [I.load(s, v, n) if isinstance(v, P) else v for v in vs]
            a, b = rescale(I, a, ta, unit), rescale(I, b, tb, unit)
            if isinstance(a, Unk) or isinstance(b, Unk):
                out.append((s, Unk(bare(n.type), "time")))
            elif op in ("+", "-"):
                out.append((s, I.wrap(I.arith(op, a, b, (64, True), n), (64, True))))
            else:
                out.append((s, I.compare(op, a, b, True, 64)))
        return out
    if op in ("+=", "-="):
        out = []
        for s, p in I.lv(n.kids[0], st, fr):
            for s2, v in I.ev(n.kids[1], s, fr):
                v = rescale(I, v, bare(n.kids[1].type), bare(n.kids[0].type))
                I.put(s2, p, I.wrap(I.arith(op[0], I.load(s2, p, n), v, (64, True), n), (64, True)), n)
                out.append((s2, p))
        return out
    if op == "=":
        return assign(I, n, st, fr)
    return None


def assign(I, n, st, fr):
    out = []
    for s, p in I.lv(n.kids[0], st, fr):
        for s2, v in I.ev(n.kids[1], s, fr):
            I.put(s2, p, rescale(I, v, bare(n.kids[1].type), bare(n.kids[0].type)), n)
            out.append((s2, p))
    return out


# ---------------------------------------------------------------- calls
def get_index(I, d, objty):
    ta = d.o.get("targs") or []
    if not ta:
        return None
    m = re.match(r"(\d+)(?:UL|U|L)?$", ta[0])
    if m:
        return int(m.group(1))
    types = [bare(x) for x in NM.targs(objty)]
    return types.index(bare(ta[0])) if bare(ta[0]) in types else None


def call(I, n, d, st, fr, want_lv):
    from . import stdmodel as S
    q, nm, cls, op = d.q, d.name, d.cls or "", d.o.get("op")
    if NM.is_node(cls):
        return NM.method(I, n, d, st, fr, want_lv)
    if cls == NM.REV or op in ("==", "!=") and len(n.kids) == 2 and strip_targs(bare(n.kids[0].type)) == NM.REV:
        return NM.reverse_op(I, n, d, st, fr)
    if cls in NM.ITERS or op in ("==", "!=") and len(n.kids) == 2 and is_iter_type(n.kids[0].type):
        return NM.iterator_op(I, n, d, st, fr)
    if netmodel.is_net(cls) or q.startswith(("asio::ip::", "boost::asio::ip::")):
        return netmodel.call(I, n, d, st, fr)
    if cls == pathmodel.CLS or q.startswith("boost::filesystem::operator"):
        return pathmodel.call(I, n, d, st, fr, want_lv)
    if q == "std::async" or cls == "std::future" or cls == "std::__basic_future":
        return future(I, n, d, st, fr)
    if q == "std::get" and n.args:
        i = get_index(I, d, bare(n.args[0].type))
        c = strip_targs(bare(n.args[0].type))
        if i is None or c not in TUPLE + ("std::array",):
            return None
        k = i if c == "std::array" else ("first", "second")[i] if c == "std::pair" else str(i)
        out = []
        for s, p in I.lv(n.args[0], st, fr):
            r = p.at(k)
            v = peek(I, s, r)
            out.append((s, P(v.root, v.sels) if isinstance(v, Ref) else r))
        return out if want_lv or n.o.get("lv") else [(s, I.load(s, p, n)) for s, p in out]
    if q in ("std::make_pair", "std::make_tuple"):
        names = ("first", "second") if q.endswith("pair") else [str(i) for i in range(len(n.args))]
        return [(s, Obj("std::pair" if q.endswith("pair") else "std::tuple", dict(zip(names, vs))))
                for s, vs in I.evs(n.args, st, fr)]
    if cls in TUPLE and op == "=":
        out = []
        for s, p in I.lv(n.kids[0], st, fr):
            for s2, v in I.ev(n.kids[1], s, fr):
                v = I.load(s2, v, n) if isinstance(v, P) else v
                old = I.load(s2, p, n)
                if isinstance(v, Obj) and isinstance(old, Obj) and any(isinstance(x, Ref) for x in old.f.values()):
                    a = sorted(old.f) if old.cls == "std::tuple" else ["first", "second"]
                    b = sorted(v.f) if v.cls == "std::tuple" else ["first", "second"]
                    for x, y in zip(a, b):
                        t = old.f[x]
                        I.put(s2, P(t.root, t.sels) if isinstance(t, Ref) else p.at(x),
                              I.load(s2, v.f[y], n) if isinstance(v.f[y], Ref) else v.f[y], n)
                else:
                    I.put(s2, p, v, n)
                out.append((s2, p))
        return out
    if q in ("std::begin", "std::end", "std::cbegin", "std::cend") and n.args:
        out = []
        a = n.args[0]
        if a.k == "construct" and "initializer_list" in a.type and len(a.kids) == 1:
            a = a.kids[0]           # the copy refers to the same elements
        for s, p in I.lv(a, st, fr):
            p = S.I_canon(I, s, p)
            v = I.load(s, p, n)
            if isinstance(v, Obj) and "#o" in v.f:
                out.append((s, p.at(NM.node(NM.first(v) if "begin" in nm else 0))))
            elif isinstance(v, Seq):
                k = len(v.items) if v.ty != "chars" else len(v.items)
                out.append((s, p.at(0 if "begin" in nm else k)))
            else:
                return None
        return out
    if q in ("std::next", "std::prev", "std::advance"):
        out = []
        if q == "std::advance":
            for s, p in I.lv(n.args[0], st, fr):
                for s2, k in I.ev(n.args[1], s, fr):
                    I.put(s2, p, adv(I, s2, I.load(s2, p, n), k, n), n)
                    out.append((s2, None))
            return out
        for s, vs in I.evs(n.args, st, fr):
            k = vs[1] if len(vs) > 1 else 1
            out.append((s, adv(I, s, vs[0], k if q == "std::next" else -k, n)))
        return out
    if q == "boost::fusion::for_each" and len(n.args) == 2:
        return foreach_field(I, n, st, fr)
    if q == "std::distance":
        return [(s, len(NM.span(I, s, a, b, n)) if NM.is_node_iter(a) else I.ptrop("-", b, a, n))
                for s, (a, b) in I.evs(n.args, st, fr)]
    if q in ("std::addressof", "std::__addressof", "boost::addressof"):
        return [(s, P(p.root, p.sels)) for s, p in I.lv(n.args[0], st, fr)]
    if q in ("std::make_shared", "std::make_unique", "maidsafe::make_unique"):
        ta = d.o.get("targs") or []
        out = []
        for s, ps in S.lvs(I, n.args, st, fr):
            r = make_object(I, s, ta[0], ps, n)
            if r is None:
                raise Undecided("%s of %s at %s" % (q, ta[0], n.loc))
            for s2, v in r:
                I.nt += 1
                s2.mem[("t", I.nt)] = v
                out.append((s2, P(("t", I.nt))))
        return out
    if cls in SMART or cls in ("std::__shared_ptr_access", "std::__shared_ptr") or \
            q in ("std::operator==", "std::operator!=") and strip_targs(bare(n.kids[0].type)) in SMART:
        return smart(I, n, d, st, fr)
    if cls in OPT or cls.startswith("boost::optional_detail::"):
        return optional(I, n, d, st, fr)
    if q in ("boost::make_optional", "std::make_optional") and 1 <= len(n.args) <= 2:
        out = []
        for s, vs in I.evs(n.args, st, fr):
            v = I.load(s, vs[-1], n) if isinstance(vs[-1], P) else vs[-1]
            out.append((s, Obj(strip_targs(bare(n.type)), {"has": I.truth(vs[0]) if len(vs) == 2 else 1, "v": v})))
        return out
    if q == "boost::make_unexpected":
        return [(s, Obj("boost::unexpected_type", {"e": I.load(s, v, n) if isinstance(v, P) else v}))
                for s, v in I.ev(n.args[0], st, fr)]
    if cls == "boost::expected":
        return expected(I, n, d, st, fr)
    if q in ("std::operator==", "std::operator!=") and len(n.kids) == 2 and \
            any(strip_targs(bare(k.type)) == "std::function" for k in n.kids):
        k = n.kids[0] if strip_targs(bare(n.kids[0].type)) == "std::function" else n.kids[1]
        out = []
        for s, v in I.ev(k, st, fr):
            v = I.load(s, v, n) if isinstance(v, P) else v
            if not isinstance(v, (int, Lam)):
                return None
            out.append((s, int((v == 0) == (op == "=="))))
        return out
    if cls == "std::function" or cls.startswith("std::reference_wrapper"):
        return function(I, n, d, st, fr)
    if q in ("std::ref", "std::cref"):
        return [(s, p) for s, p in I.lv(n.args[0], st, fr)]
    if q.startswith("std::chrono::") or cls.startswith("std::chrono::"):
        return chrono(I, n, d, st, fr)
    if nm == "operator>>" and len(n.kids if n.obj is None else n.args) == (2 if n.obj is None else 1) and \
            strip_targs(bare((n.kids if n.obj is None else [n.obj])[0].type)) in \
            ("std::basic_istream", "std::basic_stringstream", "std::basic_istringstream", "std::basic_iostream"):
        from . import conmodel
        r = conmodel.extract(I, n, st, fr)
        if r is not None:
            return r
    if q in ("std::bind", "boost::bind"):
        return bind(I, n, st, fr)
    if q == "std::exchange":
        out = []
        for s, p in I.lv(n.args[0], st, fr):
            for s2, v in I.ev(n.args[1], s, fr):
                old = I.load(s2, p, n)
                I.put(s2, p, v, n)
                out.append((s2, old))
        return out
    if q in ("memcpy", "std::memcpy", "memmove", "std::memmove", "memcmp", "memset", "std::memset", "std::memcmp"):
        return memop(I, n, nm, st, fr)
    return None


def bases(I, cls, seen=None):
    """The class and the classes it derives from."""
    seen = [] if seen is None else seen
    if cls not in seen:
        seen.append(cls)
        for tu, r in I.prog.records(cls):
            for b in r.get("bases", []):
                bases(I, strip_targs(bare(tu.types[b["t"]] if isinstance(b, dict) else tu.types[b])), seen)
    return seen


def call_functor(I, st, f, x, ty, n):
    """f(x) for a place x of type ty, where f is a lambda or the place of an object with an operator()."""
    v = I.load(st, f, n) if isinstance(f, P) else f
    if isinstance(v, Lam):
        return I.apply(v, [x], st, n, [ty])
    if not isinstance(v, Obj) or not isinstance(f, P):
        raise Undecided("call of %r at %s" % (v, n.loc))
    cands = [g for g in I.prog.funcs if g.decl.name == "operator()" and g.blocks and len(g.params) == 1 and
             g.decl.cls in bases(I, v.cls) and bare(g.params[0].type) == bare(ty)]
    if not cands:
        raise Undecided("call of %s with %s at %s" % (v.cls, ty, n.loc))
    return I.invoke(cands[0], [x if cands[0].params[0].type.endswith("&") else I.load(st, x, n)],
                    P(f.root, f.sels), st)


def foreach_field(I, n, st, fr):
    ty = bare(n.args[0].type)
    if strip_targs(ty) not in TUPLE:
        raise Undecided("for_each over %s at %s" % (ty, n.loc))
    out = []
    for s, p in I.lv(n.args[0], st, fr):
        for s2, f in I.ev(n.args[1], s, fr):
            live = [s2]
            for nm, t in zip(*tuple_names(ty)):
                live = [s4 for s3 in live for s4, _ in call_functor(I, s3, f, p.at(nm), t, n)]
            out += [(s3, None) for s3 in live]
    return out


def adv(I, s, it, k, n):
    if NM.is_node_iter(it):
        if not isinstance(k, int):
            raise Undecided("iterator advance at %s" % n.loc)
        return NM.step(I, s, it, k, n)
    return it.plus(k)


def moves(x, cls):
    """A pointer given up by name."""
    while x.k in ("paren", "cast") and x.kids:
        x = x.kids[0]
    return strip_targs(bare(x.type)) == cls and x.k == "call" and x.decl is not None and (
        x.decl.q == "std::move" or x.decl.q == "std::forward" and
        not (x.decl.rettype.endswith("&") and not x.decl.rettype.endswith("&&")))


def smart_value(I, x, st, fr, n):
    """[(state, pointer)]; what is moved from is empty afterwards."""
    if not moves(x, strip_targs(bare(x.type))):
        return I.ev(x, st, fr)
    out = []
    for s, p in I.lv(x, st, fr):
        v = I.load(s, p, n)
        if isinstance(v, (P, int, Lam)):
            I.put(s, p, 0, n)
        out.append((s, v))
    return out


def smart(I, n, d, st, fr):
    nm, op = d.name, d.o.get("op")
    from .stdmodel import objplace
    if op in ("==", "!=") and len(n.kids) == 2:
        out = []
        for s, (a, b) in I.evs(n.kids, st, fr):
            out.append((s, I.ptrop(op, a, b, n)))
        return out
    if op == "=":
        out = []
        for s, p in I.lv(n.kids[0], st, fr):
            for s2, v in smart_value(I, n.kids[1], s, fr, n):
                I.put(s2, p, v, n)
                out.append((s2, p))
        return out
    out = []
    for s, p in objplace(I, n, st, fr):
        v = I.load(s, p, n)
        if op == "[]" and isinstance(v, P) and v.sels and isinstance(v.sels[-1], int):
            for s2, i in I.ev(n.kids[1], s, fr):
                if not isinstance(i, int):
                    return None
                out.append((s2, P(v.root, v.sels[:-1] + (v.sels[-1] + i,))))
            continue
        if op in ("*", "->", "[]"):
            if v == 0:
                I.note_oob(n, "a null smart pointer is dereferenced")
                out.append((s, I.temp(s, Unk("?", "null"))))
            elif isinstance(v, P):
                out.append((s, P(v.root, v.sels)))
            else:
                return None
        elif nm == "get":
            out.append((s, v))
        elif nm == "operator bool":
            out.append((s, int(v != 0) if isinstance(v, (P, int)) else Unk("bool", "pointer")))
        elif nm == "reset":
            for s2, vs in I.evs(n.args, s, fr):
                I.put(s2, p, vs[0] if vs else 0, n)
                out.append((s2, None))
        elif nm == "release":
            I.put(s, p, 0, n)
            out.append((s, v))
        elif nm == "swap":
            for s2, r in I.lv(n.args[0], s, fr):
                w = I.load(s2, r, n)
                I.put(s2, r, v, n)
                I.put(s2, p, w, n)
                out.append((s2, None))
        else:
            out.append((s, Unk(bare(n.type), nm)))
    return out


def optional(I, n, d, st, fr):
    nm, op = d.name, d.o.get("op")
    from .stdmodel import objplace
    if op in ("==", "!=") and len(n.kids) == 2:
        return None
    out = []
    for s, p in objplace(I, n, st, fr):
        o = I.load(s, p, n)
        if not isinstance(o, Obj):
            return None
        if op == "=":
            for s2, v in I.ev(n.kids[1], s, fr):
                v = I.load(s2, v, n) if isinstance(v, P) and strip_targs(bare(n.kids[1].type)) in OPT else v
                t = bare(n.kids[1].type)
                new = v if isinstance(v, Obj) and v.cls in OPT else \
                    Obj(o.cls, {"has": 0}) if t.endswith(("none_t", "nullopt_t")) else Obj(o.cls, {"has": 1, "v": v})
                I.put(s2, p, new, n)
                out.append((s2, p))
        elif nm in ("operator bool", "is_initialized", "has_value"):
            out.append((s, o.f["has"]))
        elif op == "!":
            h = o.f["has"]
            out.append((s, byteview.B_not(h)))
        elif op in ("*", "->") or nm in ("get", "get_ptr", "value"):
            for s2, t in I.branch(o.f["has"], s, n):
                if t:
                    out.append((s2, p.at("v")))
                elif nm == "value":
                    I.sink[-1].append((s2, Err("boost::bad_optional_access")))
                else:
                    I.note_oob(n, "an empty optional is dereferenced")
                    out.append((s2, I.temp(s2, Unk("?", "empty optional"))))
        elif nm in ("reset",) and not n.args:
            I.put(s, p, Obj(o.cls, {"has": 0}), n)
            out.append((s, None))
        elif nm in ("get_value_or", "value_or"):
            for s2, t in I.branch(o.f["has"], s, n):
                if t:
                    out.append((s2, o.f["v"]))
                else:
                    out += I.ev(n.args[0], s2, fr)
        else:
            return None
    return out


def expected(I, n, d, st, fr):
    nm, op = d.name, d.o.get("op")
    from .stdmodel import objplace
    out = []
    for s, p in objplace(I, n, st, fr):
        o = I.load(s, p, n)
        if not isinstance(o, Obj) or "has" not in o.f:
            return None
        if op == "=":
            for s2, v in I.ev(n.kids[1], s, fr):
                v = I.load(s2, v, n) if isinstance(v, P) else v
                if isinstance(v, Obj) and v.cls == "boost::unexpected_type":
                    v = Obj(o.cls, {"has": 0, "e": v.f["e"]})
                elif not (isinstance(v, Obj) and v.cls == o.cls):
                    v = Obj(o.cls, {"has": 1, "v": v})
                I.put(s2, p, v, n)
                out.append((s2, p))
        elif nm in ("operator bool", "valid", "has_value"):
            out.append((s, o.f["has"]))
        elif op == "!":
            out.append((s, byteview.B_not(o.f["has"])))
        elif op in ("*", "->") or nm == "value":
            for s2, t in I.branch(o.f["has"], s, n):
                if t:
                    out.append((s2, p.at("v")))
                elif nm == "value":
                    I.sink[-1].append((s2, Err("boost::bad_expected_access")))
                else:
                    I.note_oob(n, "the value of an expected without one is used")
                    out.append((s2, I.temp(s2, Unk("?", "no value"))))
        elif nm == "error":
            for s2, t in I.branch(o.f["has"], s, n):
                if t:
                    I.note_oob(n, "the error of an expected holding a value is used")
                    out.append((s2, I.temp(s2, Unk("?", "no error"))))
                else:
                    out.append((s2, p.at("e")))
        else:
            return None
    return out


def bind(I, n, st, fr):
    """A function with its arguments: places for what is wrapped by std::ref, copies of everything else."""
    from . import stdmodel as S
    out = []
    for s, vs in I.evs(n.args, st, fr):
        f = I.load(s, vs[0], n) if isinstance(vs[0], P) else vs[0]
        if not isinstance(f, Lam) or f.fn is None or f.bound is not None or len(f.fn.params) != len(vs) - 1:
            return None
        args = []
        for a, v in zip(n.args[1:], vs[1:]):
            ref = "reference_wrapper" in bare(a.type)
            if ref and not isinstance(v, P) or "placeholder" in bare(a.type) or "boost::arg" in bare(a.type):
                return None
            if not ref:
                v = I.load(s, v, n) if isinstance(v, P) and not bare(a.type).endswith("*") else v
                if isinstance(v, S.Seq) and moves(a, strip_targs(bare(a.type))):
                    for s2, w in I.lv(a, s, fr):
                        S.drain(I, s2, w, n)
                v = I.temp(s, v)
            args.append(v)
        out.append((s, Lam(f.fn, f.fid, f.this, f.insts, f.caps, args)))
    return out


def function(I, n, d, st, fr):
    op, nm = d.o.get("op"), d.name
    if op == "()":
        out = []
        for s, v in I.ev(n.kids[0], st, fr):
            if v == 0:
                I.sink[-1].append((s, Err("std::bad_function_call")))
                continue
            from .stdmodel import lvs
            pts = d.ptypes
            res = [(s, [])]
            for i, a in enumerate(n.kids[1:]):
                byref = i < len(pts) and pts[i].endswith("&")
                res = [(s3, vs + [x]) for s2, vs in res
                       for s3, x in (I.lv(a, s2, fr) if byref else I.ev(a, s2, fr))]
            for s2, vs in res:
                out += I.apply(v, vs, s2, n)
        return out
    from .stdmodel import objplace
    if op == "=" and d.cls == "std::function":
        out = []
        for s, p in I.lv(n.kids[0], st, fr):
            for s2, v in smart_value(I, n.kids[1], s, fr, n):
                v = I.load(s2, v, n) if isinstance(v, P) and isinstance(I.peekv(s2, v), (int, Lam)) else v
                I.put(s2, p, v, n)
                out.append((s2, p))
        return out
    if op == "=":
        return assign(I, n, st, fr)
    out = []
    for s, p in objplace(I, n, st, fr):
        v = I.load(s, p, n)
        if nm == "operator bool":
            out.append((s, int(v != 0)))
        elif nm == "swap" and d.cls == "std::function":
            for s2, r in I.lv(n.args[0], s, fr):
                w = I.load(s2, r, n)
                I.put(s2, r, v, n)
                I.put(s2, p, w, n)
                out.append((s2, None))
        else:
            return None
    return out


def future(I, n, d, st, fr):
    """A task is run where it is started; its outcome waits in the future."""
    if d.q == "std::async":
        out = []
        for s, vs in I.evs(n.args, st, fr):
            k = 1 if "launch" in bare(n.args[0].type) else 0
            if not isinstance(vs[k], Lam):
                return None
            I.sink.append([])
            try:
                r = I.apply(vs[k], vs[k + 1:], s, n)
            finally:
                thrown = I.sink.pop()
            out += [(s2, Obj("std::future", {"ok": 1, "v": v})) for s2, v in r]
            out += [(s2, Obj("std::future", {"ok": 0, "v": e})) for s2, e in thrown]
        return out
    from .stdmodel import objplace
    out = []
    if d.o.get("op") == "=":
        return assign(I, n, st, fr)
    for s, p in objplace(I, n, st, fr):
        v = I.load(s, p, n)
        if not (isinstance(v, Obj) and v.cls == "std::future"):
            return None
        if d.name == "get":
            I.put(s, p, Obj("std::future", {}), n)
            if v.f.get("ok"):
                out.append((s, v.f["v"]))
            elif "ok" in v.f:
                I.sink[-1].append((s, v.f["v"]))
            else:
                I.sink[-1].append((s, Err("std::future_error")))
        elif d.name in ("wait", "wait_for", "wait_until"):
            for s2, _ in I.evs(n.args, s, fr):
                out.append((s2, 0))
        elif d.name == "valid":
            out.append((s, int("ok" in v.f)))
        else:
            return None
    return out


def memop(I, n, nm, st, fr):
    out = []
    for s, vs in I.evs(n.args, st, fr):
        a, b, k = vs
        if not isinstance(k, int) or k > 100000:
            raise Undecided("%s of unknown length at %s" % (nm, n.loc))
        if not isinstance(a, P):
            if k == 0:
                out.append((s, a))
                continue
            return None
        a2 = byteview.cast(I, s, a, ptype(n.args[0]), "void *", n)
        if nm == "memset":
            for i in range(k):
                I.put(s, a2.plus(i), I.wrap(b, (8, False)) if isinstance(b, (int, N)) else b, n)
            out.append((s, a))
            continue
        if not isinstance(b, P):
            if k == 0:
                out.append((s, a))
                continue
            return None
        b2 = byteview.cast(I, s, b, ptype(n.args[1]), "void *", n)
        if nm == "memcmp":
            x = [I.load(s, a2.plus(i), n) for i in range(k)]
            y = [I.load(s, b2.plus(i), n) for i in range(k)]
            e = I.seq_eq(Seq(x, ""), Seq(y, ""), "==")
            if e == 1:
                out.append((s, 0))
            elif isinstance(e, (int, N)):
                for s2, t in I.branch(e, s, n):
                    out.append((s2, 0 if t else Unk("int", "memcmp")))
            else:
                out.append((s, e))
            continue
        vals = [I.load(s, b2.plus(i), n) for i in range(k)]
        for i, v in enumerate(vals):
            I.put(s, a2.plus(i), v, n)
        out.append((s, a))
    return out


def ptype(n):
    t = bare(n.type)
    if t.endswith("]"):
        return t[:t.index("[")].strip() + " *"
    return t
