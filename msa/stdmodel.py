"""Meaning of the standard-library operations the pure functions use, over abstract contents."""
from . import bits as B, nodemodel
from .absint import P, Ref, Seq, Obj, N, NS, Unk, Err, Lam, Undecided, INT, bare, strip_targs

SEQS = ("std::basic_string", "std::vector", "std::array", "std::deque", "std::__cxx11::basic_string",
        "std::initializer_list", "std::basic_string_view")


def is_seq(cls):
    return cls in SEQS


def eltype(ty):
    t = bare(ty)
    i = t.find("<")
    if i < 0:
        return "char" if "string" in t else ""
    d, j = 0, i + 1
    while j < len(t):
        if t[j] == "<":
            d += 1
        elif t[j] == ">" and d == 0 or t[j] == "," and d == 0:
            break
        elif t[j] == ">":
            d -= 1
        j += 1
    return t[i + 1:j].strip()


def coerce(I, v, ty):
    it = INT.get(eltype(ty))
    return I.wrap(v, it) if it and isinstance(v, (int, N)) else v


def seqof(I, st, v, n):
    """Sequence denoted by a value: Seq, place of one, or C string pointer."""
    if isinstance(v, Seq):
        if v.ty == "chars":
            return cstr(v.items)
        return v
    if isinstance(v, P):
        x = I.load(st, v, n) if not (v.sels and isinstance(v.sels[-1], int)) else None
        if isinstance(x, Seq):
            return seqof(I, st, x, n)
        base = I.load(st, P(v.root, v.sels[:-1]), n) if v.sels else None
        if isinstance(base, Seq):
            return cstr(base.items[v.sels[-1]:])
    if isinstance(v, (int, N)):
        return Seq((v,), "")
    raise Undecided("sequence value %r at %s" % (v, n.loc))


def cstr(items):
    out = []
    for x in items:
        if x == 0 and isinstance(x, int):
            break
        out.append(x)
    return Seq(out, "std::basic_string<char>")


def cuts(I, st, q):
    """[(state, q up to its first zero)] for a zero-terminated string with symbolic characters."""
    out = []
    for k, x in enumerate(q.items):
        if not isinstance(x, N):
            continue
        z = B.eq(x, B.const(0, len(x)))
        if z == B.TOP:
            continue
        s2 = st.restrict(z) if z != B.ZERO else None
        if s2 is not None:
            out.append((s2, Seq(q.items[:k], q.ty)))
            st = st.restrict(B.bnot(z))
            if st is None:
                return out
    out.append((st, q))
    return out


def places(I, st, a, b, n):
    """Iterators of a range whose bounds are checked."""
    if isinstance(a, Obj) and a.cls == nodemodel.REV and isinstance(b, Obj):
        return places(I, st, b.f["i"], a.f["i"], n)[::-1]
    if nodemodel.is_node_iter(a):
        return nodemodel.span(I, st, a, b, n)
    return [a.plus(i) for i in range(len(rng(I, st, a, b, n)))]


def rng(I, st, a, b, n):
    if isinstance(a, Obj) and a.cls == nodemodel.REV and isinstance(b, Obj) and b.cls == nodemodel.REV:
        return tuple(rng(I, st, b.f["i"], a.f["i"], n))[::-1]
    if nodemodel.is_node_iter(a):
        return tuple(I.load(st, p, n) for p in nodemodel.span(I, st, a, b, n))
    if not (isinstance(a, P) and isinstance(b, P)) or a.root != b.root or a.sels[:-1] != b.sels[:-1]:
        raise Undecided("iterator range at %s" % n.loc)
    s = I.load(st, P(a.root, a.sels[:-1]), n)
    if not isinstance(s, Seq):
        raise Undecided("iterator range over %r at %s" % (s, n.loc))
    i, j = a.sels[-1], b.sels[-1]
    if not 0 <= i <= j <= len(s.items):
        I.note_oob(n, "iterator range [%d, %d) of %d elements" % (i, j, len(s.items)))
        i, j = max(0, min(i, len(s.items))), max(0, min(j, len(s.items)))
        j = max(i, j)
    return s.items[i:j]


def construct(I, n, cls, st, fr):
    pt = n.decl.ptypes
    kids = n.kids
    ty = bare(n.type)
    from . import libmodel, streammodel
    r = libmodel.construct(I, n, cls, st, fr)
    if r is not None:
        return r
    if is_seq(cls):
        nk = [k for i, k in enumerate(kids) if not (i < len(pt) and "allocator" in pt[i])]
        out = []
        for s, vs in I.evs(nk, st, fr):
            vs = [I.load(s, v, n) if isinstance(v, P) and i < len(pt) and bare(pt[i]) == ty else v
                  for i, v in enumerate(vs)]
            if not vs and cls == "std::array":
                # aggregates are constructed by default only where nothing is initialised; "()" also zeroes them
                z = I.zero(ty) if n.o.get("zeroing") else I.default(ty)
                out.append((s, z if z is not None else Unk(ty, "array")))
            elif not vs:
                out.append((s, Seq((), ty)))
            elif len(vs) == 1:
                v = vs[0]
                if isinstance(v, int) and "vector" in cls or isinstance(v, int) and "deque" in cls:
                    e = nodemodel.default_value(I, s, eltype(ty), n) if 0 < v <= 100000 else 0
                    if 100000 < v < 1 << 31:
                        raise Undecided("container of %d elements at %s" % (v, n.loc))
                    if v > 100000:
                        I.note_oob(n, "container of %d elements" % v)
                        I.sink[-1].append((s, Err("std::length_error")))
                        continue
                    out.append((s, Seq([e] * v, ty)))
                elif isinstance(v, (Unk,)):
                    out.append((s, Unk(ty, "string")))
                else:
                    q = seqof(I, s, v, n)
                    q = Seq([coerce(I, x, ty) for x in q.items], ty)
                    out += cuts(I, s, q) if pt and pt[0].endswith("*") else [(s, q)]
            elif isinstance(vs[0], P) and isinstance(vs[1], P):
                items = rng(I, s, vs[0], vs[1], n)
                out.append((s, Seq([coerce(I, x, ty) for x in items], ty)))
            elif len(vs) >= 2 and vs[0] == 0 and vs[1] == 0 and bare(pt[0]).endswith("*") and bare(pt[1]).endswith("*"):
                out.append((s, Seq((), ty)))        # null pointers: an empty range
            elif isinstance(vs[0], int) and len(vs) == 2 and bare(pt[0]) in ("unsigned long",):
                if 20000 < vs[0] < 1 << 31:
                    raise Undecided("container of %d elements at %s" % (vs[0], n.loc))
                if vs[0] > 20000:
                    I.note_oob(n, "container of %d elements" % vs[0])
                    I.sink[-1].append((s, Err("std::length_error")))
                    continue
                out.append((s, Seq([coerce(I, vs[1], ty)] * vs[0], ty)))
            elif isinstance(vs[1], int) and len(vs) >= 2 and "basic_string" in cls:
                q = seqof(I, s, vs[0], n) if not (isinstance(vs[0], P) and vs[0].sels and
                                                   isinstance(vs[0].sels[-1], int)) else None
                if q is not None and bare(pt[0]) == ty:
                    ln = vs[2] if len(vs) > 2 else 1 << 62
                    out += substr(I, s, q, vs[1], ln, ty, n)
                elif q is not None:
                    out.append((s, Seq(q.items[:vs[1]], ty)))
                else:
                    base = I.load(s, P(vs[0].root, vs[0].sels[:-1]), n)
                    a = vs[0].sels[-1]
                    if a + vs[1] > len(base.items):
                        I.note_oob(n, "%d characters read from %d" % (vs[1], len(base.items) - a))
                    out.append((s, Seq(base.items[a:a + vs[1]], ty)))
            else:
                out.append((s, Unk(ty, "constructed")))
        return out
    if cls == "std::bitset":
        w = int(ty[ty.index("<") + 1:ty.index(">")].rstrip("UL"))
        out = []
        if not kids:
            return [(st, Obj("std::bitset", {"v": 0, "w": w}))]
        for s, vs in I.evs([k for k in kids if k is not None], st, fr):
            v = vs[0]
            if isinstance(v, (int, N)):
                out.append((s, Obj("std::bitset", {"v": I.wrap(v, (w, False)), "w": w})))
                continue
            q = seqof(I, s, v, n)
            pos = vs[1] if len(vs) > 1 and isinstance(vs[1], int) else 0
            num = vs[2] if len(vs) > 2 and isinstance(vs[2], int) else 1 << 62
            if pos > len(q.items):
                I.sink[-1].append((s, Err("std::out_of_range")))
                continue
            items = q.items[pos:pos + min(num, w)]
            rest = q.items[pos:pos + num] if num < (1 << 60) else q.items[pos:]
            bad = B.ZERO
            bits = [B.ZERO] * w
            for i, c in enumerate(items):
                one = I.truth(I.compare("==", c, 49, False, 8))
                zero = I.truth(I.compare("==", c, 48, False, 8))
                bits[len(items) - 1 - i] = one
                bad = B.bor(bad, B.bnot(B.bor(one, zero)))
                if bad == B.TOP or B.bnot(bad) == B.ZERO or True:
                    t = B.bnot(B.bor(one, zero))
                    e = s.restrict(t)
                    if e is not None:
                        I.sink[-1].append((e if e is not s else e.fork(), Err("std::invalid_argument")))
                    s = s.restrict(B.bnot(t))
                    if s is None:
                        break
            if s is None:
                continue
            out.append((s, Obj("std::bitset", {"v": I.wrap(N(bits), (w, False)), "w": w})))
        return out
    r = streammodel.construct(I, n, cls, st, fr)
    if r is not None:
        return r
    if cls == "cereal::base_class" and len(kids) == 1:
        return [(s, Obj("cereal::base_class", {"base_ptr": v})) for s, v in I.ev(kids[0], st, fr) if isinstance(v, P)]
    if "iterator" in cls and len(kids) == 1:
        return I.ev(kids[0], st, fr)
    return None


def I_peek(I, st, p):
    try:
        return I.get(st, p)
    except Exception:
        return None


def substr(I, s, q, pos, ln, ty, n):
    if pos > len(q.items):
        I.sink[-1].append((s, Err("std::out_of_range")))
        return []
    return [(s, Seq(q.items[pos:pos + ln], ty))]


def objplace(I, n, st, fr):
    """Place of the object a member (operator) call applies to."""
    x = n.obj if n.obj is not None else n.kids[0]
    if n.o.get("arrow"):
        return I.ev(x, st, fr)
    return I.lv(x, st, fr)


def call(I, n, d, st, fr, want_lv):
    q, nm, cls = d.q, d.name, d.cls or ""
    pts = d.ptypes
    from . import libmodel, streammodel
    r = libmodel.call(I, n, d, st, fr, want_lv)
    if r is not None:
        return r
    if is_seq(cls):
        return seq_method(I, n, d, st, fr, want_lv)
    if cls == "std::_Bit_reference" and (nm in ("operator bool", "flip") or d.o.get("op") == "="):
        # stands for its element
        out = []
        for s0, p in objplace(I, n, st, fr):
            t = I.load(s0, p, n) if isinstance(p, P) else p
            t = t if isinstance(t, P) else p
            for s, vs in I.evs(n.args if n.obj is not None else n.kids[1:], s0, fr):
                b = I.load(s, t, n)
                if isinstance(b, Obj) or not isinstance(t, P):
                    return None
                if nm == "operator bool":
                    out.append((s, b))
                    continue
                v = vs[0] if vs else None
                while isinstance(v, P):
                    v = I.load(s, v, n)
                if v is None:
                    if not isinstance(b, int):
                        return None
                    v = int(not b)
                I.put(s, t, v, n)
                out.append((s, p))
        return out
    if cls == "std::bitset":
        out = []
        for s, p in objplace(I, n, st, fr):
            o = I.load(s, p, n)
            if not isinstance(o, Obj):
                return None
            v, w = o.f["v"], o.f["w"]
            if nm == "to_string":
                bits = I.nbits(v, w)
                it = []
                for b in reversed(bits):
                    it.append(48 if b == B.ZERO else 49 if b == B.ONE else
                              NS([b] + list(B.const(48 >> 1, 7))))
                out.append((s, Seq(it, "std::basic_string<char>")))
            elif nm in ("to_ulong", "to_ullong"):
                out.append((s, v))
            elif nm in ("operator[]", "test"):
                for s2, i in I.ev(n.args[-1], s, fr):
                    b = I.nbits(v, w)[i]
                    out.append((s2, 1 if b == B.ONE else 0 if b == B.ZERO else N((b,))))
            else:
                return None
        return out
    if "iterator" in cls or q.startswith("__gnu_cxx::operator"):
        return iterator_op(I, n, d, st, fr)
    if q in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const"):
        return I.lv(n.args[0], st, fr)
    if q == "std::operator+" and n.kids and ("basic_string" in n.type):
        out = []
        for s, vs in I.evs(n.kids, st, fr):
            vs = [I.load(s, v, n) if isinstance(v, P) and not (v.sels and isinstance(v.sels[-1], int)) else v for v in vs]
            if any(isinstance(v, Unk) for v in vs):
                out.append((s, Unk(bare(n.type), "concatenation")))
                continue
            items = ()
            for v in vs:
                items += tuple(seqof(I, s, v, n).items)
            out.append((s, Seq(items, bare(n.type))))
        return out
    r = streammodel.call(I, n, d, st, fr, want_lv)
    if r is not None:
        return r
    if nm == "operator<<" or q.startswith("std::basic_ostream") or cls in (
            "std::basic_ostringstream", "std::basic_stringstream") or q == "std::basic_ios::widen":
        r = stream_op(I, n, d, st, fr)
        if r is not None:
            return r
    if q in ("std::operator<", "std::operator>", "std::operator<=", "std::operator>=", "std::operator==",
             "std::operator!=") and len(n.kids) == 2 and strip_targs(bare(n.kids[0].type)) in ("std::tuple", "std::pair"):
        out = []
        for s, vs in I.evs(n.kids, st, fr):
            x, y = [I.load(s, v, n) if isinstance(v, P) else v for v in vs]
            if not (isinstance(x, Obj) and isinstance(y, Obj)):
                out.append((s, Unk("bool", "comparison")))
            else:
                out += I.tuple_op(s, nm[8:], x, y, n)
        return out
    if q in ("std::operator<", "std::operator>", "std::operator<=", "std::operator>=") and len(n.kids) == 2:
        out = []
        for s, vs in I.evs(n.kids, st, fr):
            vs = [I.load(s, v, n) if isinstance(v, P) and not (v.sels and isinstance(v.sels[-1], int)) else v for v in vs]
            if not all(isinstance(v, (Seq, P)) for v in vs) or not any(isinstance(v, Seq) for v in vs):
                out.append((s, Unk("bool", "comparison")))
                continue
            out.append((s, seq_order(I, seqof(I, s, vs[0], n), seqof(I, s, vs[1], n), nm[8:])))
        return out
    if q in ("std::operator==", "std::operator!=") and len(n.kids) == 2:
        out = []
        for s, vs in I.evs(n.kids, st, fr):
            vs = [I.load(s, v, n) if isinstance(v, P) and not (v.sels and isinstance(v.sels[-1], int)) else v for v in vs]
            if all(isinstance(v, (Seq, P)) for v in vs) and any(isinstance(v, Seq) for v in vs):
                out.append((s, I.seq_eq(seqof(I, s, vs[0], n), seqof(I, s, vs[1], n), nm[-2:])))
            else:
                out.append((s, Unk("bool", "comparison")))
        return out
    if q in ("std::tie", "std::forward_as_tuple"):
        return [(s, Obj("std::tuple", {str(i): Ref(p.root, p.sels) for i, p in enumerate(ps)}))
                for s, ps in lvs(I, n.args, st, fr)]
    if cls == "std::numeric_limits" and nm in ("max", "min", "lowest"):
        it = INT.get(bare(n.type))
        if it is None:
            return None
        w, sg = it
        return [(st, ((1 << (w - sg)) - 1) if nm == "max" else -(1 << (w - 1)) if sg else 0)]
    if q == "std::swap":
        out = []
        for s, (a, b) in lvs(I, n.args, st, fr):
            x, y = I.load(s, a, n), I.load(s, b, n)
            I.put(s, a, y, n)
            I.put(s, b, x, n)
            if isinstance(x, Obj) and "#o" in x.f:
                nodemodel.exchange(I, s, I_canon(I, s, a), I_canon(I, s, b))
            out.append((s, None))
        return out
    if q in ("std::min", "std::max") and len(n.args) >= 2:
        out = []
        for s, (a, b) in lvs(I, n.args[:2], st, fr):
            x, y = I.load(s, a, n), I.load(s, b, n)
            if isinstance(x, int) and isinstance(y, int):
                r = a if (x <= y) == (nm == "min") else b
                out.append((s, r if n.o.get("lv") else I.load(s, r, n)))
            else:
                out.append((s, I.temp(s, Unk("?", nm)) if n.o.get("lv") else Unk("?", nm)))
        return out
    if q in ("std::min_element", "std::max_element"):
        out = []
        for s, vs in I.evs(n.args, st, fr):
            pl = places(I, s, vs[0], vs[1], n)
            live = [(s, pl[0] if pl else vs[1])]
            for x in pl[1:]:
                nx = []
                for s1, best in live:
                    a, b = (x, best) if nm == "min_element" else (best, x)
                    if len(vs) > 2:
                        rs = [y for s2, v in I.apply(vs[2], [a, b], s1, n) for y in I.branch(v, s2, n)]
                    else:
                        rs = [y for s2, v in I.operate(s1, "<", I.load(s1, a, n), I.load(s1, b, n), n)
                              for y in I.branch(v, s2, n)]
                    nx += [(s2, x if t else best) for s2, t in rs]
                live = nx
            out += live
        return out
    if q == "std::mismatch":
        return mismatch(I, n, st, fr)
    if q == "std::equal":
        out = []
        for s, vs in I.evs(n.args, st, fr):
            a = rng(I, s, vs[0], vs[1], n)
            if len(vs) > 3:
                b = rng(I, s, vs[2], vs[3], n)
            else:
                b = rng(I, s, vs[2], vs[2].plus(len(a)), n)
            out.append((s, I.seq_eq(Seq(a, ""), Seq(b, ""), "==")))
        return out
    if q in ("std::copy", "std::copy_n", "std::transform", "std::for_each", "std::generate", "std::fill", "std::any_of",
             "std::all_of", "std::none_of", "std::find_if", "std::find", "std::accumulate", "std::reverse",
             "std::find_if_not", "std::count", "std::count_if"):
        return algorithm(I, n, nm, st, fr)
    if q == "std::back_inserter":
        return [(s, Obj("std::back_insert_iterator", {"p": p})) for s, p in I.lv(n.args[0], st, fr)]
    if q in ("std::to_string",):
        out = []
        for s, v in I.ev(n.args[0], st, fr):
            out.append((s, Seq([ord(c) for c in str(v)], "std::basic_string<char>") if isinstance(v, int)
                        else Unk("std::basic_string<char>", "number")))
        return out
    if q in ("isxdigit", "std::isxdigit", "isdigit", "isalnum", "isalpha", "isupper", "islower", "isspace", "tolower",
             "toupper", "std::tolower", "std::toupper", "std::isdigit", "std::isalnum"):
        return [(s, ctype(I, nm, v)) for s, v in I.ev(n.args[0], st, fr)]
    if q in ("abs", "std::abs"):
        return [(s, abs(v) if isinstance(v, int) else Unk("int", "abs")) for s, v in I.ev(n.args[0], st, fr)]
    if q in ("std::current_exception", "boost::diagnostic_information"):
        return [(st, Unk(bare(n.type), q))]
    return None


def ctype(I, nm, v):
    f = {"isxdigit": lambda c: c in b"0123456789abcdefABCDEF", "isdigit": lambda c: 48 <= c < 58,
         "isalnum": lambda c: c < 128 and chr(c).isalnum(), "isalpha": lambda c: c < 128 and chr(c).isalpha(),
         "isupper": lambda c: 65 <= c < 91, "islower": lambda c: 97 <= c < 123,
         "isspace": lambda c: c in b" \t\n\r\v\f"}.get(nm)
    if nm in ("tolower", "toupper"):
        g = (lambda c: c + 32 if 65 <= c < 91 else c) if nm == "tolower" else (lambda c: c - 32 if 97 <= c < 123 else c)
    else:
        g = lambda c: 1 if 0 <= c < 256 and f(c) else 0
    if isinstance(v, int):
        return g(v)
    if isinstance(v, N):
        r = B.gen(lambda c: g(c) & 0xffffffff, [(tuple(v), v.__class__ is NS)], 32)
        return NS(r)
    return Unk("int", nm)


def lvs(I, nodes, st, fr):
    out = [(st, [])]
    for x in nodes:
        out = [(s2, vs + [p]) for s, vs in out for s2, p in I.lv(x, s, fr)]
    return out


def I_canon(I, st, p):
    """Follow a stored reference so that iterators into the same object compare equal."""
    v = st.mem.get(p.root)
    hops = 0
    while isinstance(v, Ref) and hops < 20:
        p = P(v.root, v.sels + p.sels)
        v = st.mem.get(p.root)
        hops += 1
    # references stored in members
    cur = st.mem.get(p.root)
    for i, s in enumerate(p.sels):
        if isinstance(cur, Ref):
            return I_canon(I, st, P(cur.root, cur.sels + p.sels[i:]))
        cur = I.peek(cur, s)
    if isinstance(cur, Ref):
        return I_canon(I, st, P(cur.root, cur.sels))
    return P(p.root, p.sels)


def seq_method(I, n, d, st, fr, want_lv):
    nm, op = d.name, d.o.get("op")
    out = []
    argn = n.args if n.obj is not None else n.kids[1:]
    for s0, p in objplace(I, n, st, fr):
        if not isinstance(p, P):
            return None
        p = I_canon(I, s0, p)
        for s, vs in I.evs(argn, s0, fr):
            v = I.load(s, p, n)
            if isinstance(v, Unk):
                if op == "=":
                    v = Seq((), v.ty)
                else:
                    if not d.o.get("const"):
                        pass
                    out.append((s, I.temp(s, Unk("?", v.why)) if n.o.get("lv") else Unk(bare(n.type), v.why)))
                    continue
            if not isinstance(v, Seq):
                raise Undecided("%s of %r at %s" % (nm, v, n.loc))
            r = one(I, n, d, s, p, v, vs, nm, op)
            if r is None:
                return None
            if op == "=" and argn and d.ptypes and d.ptypes[0].endswith("&&"):
                from . import libmodel
                if libmodel.moves(argn[0], d.cls):
                    for s2, q in I.lv(argn[0], s, fr):
                        if I_canon(I, s2, q) != p:
                            drain(I, s2, q, n)
            if bare(n.type) == "bool" and not n.o.get("lv"):
                r = [(s2, I.load(s2, x, n) if isinstance(x, P) else x) for s2, x in r]
            out += r
    return out


def drain(I, st, p, n):
    """Leave a string or vector that was moved from empty."""
    v = I.peekv(st, p) if isinstance(p, P) else None
    if isinstance(v, Seq):
        I.put(st, p, Seq((), v.ty), n)


def one(I, n, d, s, p, v, vs, nm, op):
    ty = v.ty
    L = len(v.items)

    def wr(items):
        I.put(s, p, Seq([coerce(I, x, ty) for x in items], ty), n)

    def un(x):
        return I.load(s, x, n) if isinstance(x, P) else x
    if nm in ("size", "length"):
        return [(s, L)]
    if nm == "empty":
        return [(s, int(L == 0))]
    if nm in ("max_size", "capacity"):
        return [(s, (1 << 62))]
    if nm in ("begin", "cbegin"):
        return [(s, p.at(0))]
    if nm in ("end", "cend"):
        return [(s, p.at(L))]
    if nm in ("rbegin", "crbegin", "rend", "crend"):
        return [(s, Obj(nodemodel.REV, {"i": p.at(L if "begin" in nm else 0)}))]
    if nm in ("data", "c_str"):
        return [(s, p.at(0))]
    if op == "[]" or nm == "at":
        i = vs[0]
        if nm == "at":
            if isinstance(i, int) and not 0 <= i < L:
                I.sink[-1].append((s, Err("std::out_of_range")))
                return []
            if isinstance(i, N) and L <= 4096:
                w, inside, out = len(i), B.ZERO, []
                for k in range(L):
                    b = B.eq(I.nbits(i, w), I.nbits(k, w)) if k < 1 << w else B.ZERO
                    inside = B.bor(inside, b)
                if inside != B.ONE:
                    s2 = s.restrict(B.bnot(inside))
                    if s2 is not None:
                        I.sink[-1].append((s2, Err("std::out_of_range")))
                    s = s.restrict(inside)
                    if s is None:
                        return []
                if nodemodel.pointerish(eltype(v.ty or ty)):    # pointers cannot be merged
                    return [(s2, p.at(k)) for k in range(L)
                            for s2 in [s.restrict(B.eq(I.nbits(i, w), I.nbits(k, w)))] if s2 is not None]
                return [(s, p.at(i))]
        if isinstance(i, (int, N)):
            if isinstance(i, int) and not (0 <= i < L or i == L and "basic_string" in ty):
                I.note_oob(n, "index %d of %d elements" % (i, L))
                return [(s, I.temp(s, Unk("?", "out of range")))]
            if isinstance(i, N) and L <= 64 and nodemodel.pointerish(eltype(v.ty or ty)):
                w = len(i)
                out = [(s2, p.at(k)) for k in range(L)
                       for s2 in [s.restrict(B.eq(I.nbits(i, w), I.nbits(k, w)))] if s2 is not None]
                inside = B.ZERO
                for k in range(L):
                    inside = B.bor(inside, B.eq(I.nbits(i, w), I.nbits(k, w)))
                if s.restrict(B.bnot(inside)) is None:      # one of the elements on every path
                    return out
            return [(s, p.at(i))]
        return [(s, I.temp(s, Unk("?", "element")))]
    if nm in ("front", "back"):
        if L == 0:
            I.note_oob(n, "%s() of an empty container" % nm)
            return [(s, I.temp(s, Unk("?", "empty")))]
        return [(s, p.at(0 if nm == "front" else L - 1))]
    if nm in ("push_back", "emplace_back"):
        from . import libmodel
        el = eltype(v.ty or ty)
        if nodemodel.pointerish(el) and len(vs) == 1:
            w = I.peekv(s, vs[0]) if isinstance(vs[0], P) else None
            made = [(s, w if isinstance(w, P) else vs[0])]
        elif nm == "emplace_back" and not vs:
            made = [(s, nodemodel.default_value(I, s, el, n))]
        elif nm == "emplace_back" and (len(vs) > 1 or I.prog.records(libmodel.strip_targs(bare(el)))):
            x = un(vs[0])
            if len(vs) == 1 and (isinstance(x, (Unk, P)) or isinstance(x, Obj) and x.cls == libmodel.strip_targs(bare(el))):
                made = [(s, x)]
            else:
                made = libmodel.make_object(I, s, el, vs, n)
                if made is None:
                    return None
        else:
            made = [(s, un(vs[0]))]
        out = []
        for s2, x in made:
            v2 = I.load(s2, p, n)
            I.put(s2, p, Seq(tuple(v2.items) + (coerce(I, x, ty),), ty), n)
            out.append((s2, p.at(len(v2.items)) if n.o.get("lv") else None))
        return out
    if nm == "pop_back":
        if L == 0:
            I.note_oob(n, "pop_back() of an empty container")
            return [(s, None)]
        wr(v.items[:-1])
        return [(s, None)]
    if nm in ("reserve", "shrink_to_fit"):
        return [(s, None)]
    if nm == "clear":
        wr(())
        return [(s, None)]
    if nm == "resize":
        k = vs[0]
        if not isinstance(k, int) or k > 100000:
            return None
        fill = un(vs[1]) if len(vs) > 1 else \
            nodemodel.default_value(I, s, eltype(v.ty or ty), n) if k > L else 0
        wr(v.items[:k] + (fill,) * (k - L))
        return [(s, None)]
    if op == "=" or nm == "assign":
        if len(vs) == 1:
            x = vs[0]
            if isinstance(x, P) and not (x.sels and isinstance(x.sels[-1], int)):
                x = I.load(s, x, n)
            if isinstance(x, Unk):
                I.put(s, p, x, n)
            else:
                wr(seqof(I, s, x, n).items)
        elif isinstance(vs[0], P):
            wr(rng(I, s, vs[0], vs[1], n) if isinstance(vs[1], P) else seqof(I, s, vs[0], n).items[:vs[1]])
        else:
            wr((un(vs[1]),) * vs[0])
        return [(s, p)]
    if op == "+=" or nm == "append":
        if len(vs) == 1:
            x = vs[0]
            if isinstance(x, P) and not (x.sels and isinstance(x.sels[-1], int)):
                x = I.load(s, x, n)
            if isinstance(x, Unk):
                I.put(s, p, Unk(ty, "append"), n)
                return [(s, p)]
            wr(v.items + tuple(seqof(I, s, x, n).items))
        elif isinstance(vs[0], P) and isinstance(vs[1], P):
            wr(v.items + tuple(rng(I, s, vs[0], vs[1], n)))
        elif isinstance(vs[0], int):
            wr(v.items + (un(vs[1]),) * vs[0])
        elif len(vs) == 3:
            q = seqof(I, s, vs[0], n)
            wr(v.items + q.items[vs[1]:vs[1] + vs[2]])
        else:
            return None
        return [(s, p)]
    if nm == "substr":
        ln = vs[1] if len(vs) > 1 else 1 << 62
        pos = vs[0] if vs else 0
        if not isinstance(pos, int) or not isinstance(ln, int):
            return None
        return substr(I, s, v, pos, ln, ty, n)
    if nm == "compare" and "basic_string" in ty and len(vs) in (1, 3):
        mine, other = v.items, seqof(I, s, vs[-1], n).items
        if len(vs) == 3:
            if not isinstance(vs[0], int) or not isinstance(vs[1], int):
                return None
            if vs[0] > L:
                I.sink[-1].append((s, Err("std::out_of_range")))
                return []
            mine = mine[vs[0]:vs[0] + vs[1]]
        k = min(len(mine), len(other))
        lt, same = B.ZERO, B.ONE
        for x, y in zip(mine[:k], other[:k]):
            a, b = I.nbits(x, 8)[:8], I.nbits(y, 8)[:8]
            lt = B.bor(lt, B.band(same, B.ult(a, b)))
            same = B.band(same, B.eq(a, b))
        if len(mine) < len(other):
            lt = B.bor(lt, same)
        if len(mine) != len(other):
            same = B.ZERO
        if B.TOP in (lt, same):
            return None
        from .absint import NS
        return [(s, I.wrap(NS((B.bnot(same),) + (lt,) * 31), (32, True)))]
    if nm == "insert" and len(vs) >= 2:
        at = vs[0].sels[-1] if isinstance(vs[0], P) else vs[0]
        if len(vs) == 3 and isinstance(vs[1], P):
            new = tuple(rng(I, s, vs[1], vs[2], n))
        elif len(vs) == 3:
            new = (un(vs[2]),) * vs[1]
        elif isinstance(vs[0], P):
            new = (un(vs[1]),)
        else:
            new = tuple(seqof(I, s, vs[1], n).items)
        if not 0 <= at <= L:
            I.note_oob(n, "insertion at %d of %d" % (at, L))
            return [(s, None)]
        wr(v.items[:at] + new + v.items[at:])
        return [(s, p.at(at) if isinstance(vs[0], P) else p)]
    if nm == "erase":
        if not vs:
            wr(())
        elif isinstance(vs[0], P):
            a = vs[0].sels[-1]
            b = vs[1].sels[-1] if len(vs) > 1 else a + 1
            wr(v.items[:a] + v.items[b:])
            return [(s, p.at(a))]
        else:
            k = vs[1] if len(vs) > 1 else 1 << 62
            if vs[0] > L:
                I.sink[-1].append((s, Err("std::out_of_range")))
                return []
            wr(v.items[:vs[0]] + v.items[vs[0] + k:])
        return [(s, p)]
    if nm == "swap":
        o = vs[0]
        x = I.load(s, o, n) if isinstance(o, P) else o
        if isinstance(o, P):
            I.put(s, o, v, n)
        I.put(s, p, x, n)
        return [(s, None)]
    if nm == "compare" and len(vs) == 1:
        x = seqof(I, s, vs[0], n)
        e = I.seq_eq(v, x, "==")
        if e == 1:
            return [(s, 0)]
        return [(s, Unk("int", "compare"))]
    if nm in ("find_first_not_of", "find_first_of", "find", "find_last_not_of", "find_last_of", "rfind"):
        return find(I, n, s, v, vs, nm)
    return None


def find(I, n, s, v, vs, nm):
    q = seqof(I, s, vs[0], n) if not isinstance(vs[0], (int, N)) else Seq((vs[0],), "")
    if nm in ("find", "rfind") and len(q.items) != 1:
        return [(s, Unk("unsigned long", nm))]
    rev = nm in ("rfind", "find_last_of", "find_last_not_of")
    start = vs[1] if len(vs) > 1 and isinstance(vs[1], int) else None
    order = list(range(len(v.items)))
    if rev:
        if start is not None and start < len(order):
            order = order[:start + 1]
        order.reverse()
    elif start:
        order = order[start:]
    out = []
    for i in order:
        if s is None:
            break
        m = B.ZERO
        for c in q.items:
            m = B.bor(m, I.truth(I.compare("==", v.items[i], c, False, 8)))
        if "not" in nm:
            m = B.bnot(m)
        a = s.restrict(m)
        if a is not None:
            out.append((a if a is not s else s.fork(), i))
        s = s.restrict(B.bnot(m))
    if s is not None:
        out.append((s, (1 << 64) - 1))
    return out


def iterator_op(I, n, d, st, fr):
    op, nm = d.o.get("op"), d.name
    out = []
    ks = n.kids
    if nm == "base":
        return I.ev(n.obj, st, fr)
    if op in ("++", "--") or op in ("+=", "-="):
        for s, p in I.lv(ks[0], st, fr):
            for s2, vs in I.evs(ks[1:], s, fr):
                it = I.load(s2, p, n)
                if isinstance(it, Obj):
                    out.append((s2, p))
                    continue
                k = vs[0] if op in ("+=", "-=") else 1
                new = it.plus(k if op in ("++", "+=") else -k)
                I.put(s2, p, new, n)
                post = op in ("++", "--") and len(ks) > 1
                out.append((s2, it if post else p))
        return out
    if op == "=":
        for s, p in I.lv(ks[0], st, fr):
            for s2, v in I.ev(ks[1], s, fr):
                I.put(s2, p, v, n)
                out.append((s2, p))
        return out
    for s, vs in I.evs(ks, st, fr):
        a = vs[0]
        if op == "*":
            if not isinstance(a, P):
                return None
            out.append((s, P(a.root, a.sels)))
        elif op == "->":
            out.append((s, P(a.root, a.sels)))
        elif op == "[]":
            out.append((s, a.plus(vs[1])))
        elif op in ("+", "-", "==", "!=", "<", ">", "<=", ">="):
            out.append((s, I.ptrop(op, a, vs[1], n)))
        else:
            return None
    return out


def mismatch(I, n, st, fr):
    out = []
    for s, vs in I.evs(n.args, st, fr):
        a = rng(I, s, vs[0], vs[1], n)
        k = 0
        cur = s
        m = I.models.get("std::mismatch#at")
        if m is not None:
            out += m(I, n, s, vs, a)
            continue
        while k < len(a) and cur is not None:
            b = I.load(cur, vs[2].plus(k), n)
            e = I.truth(I.compare("==", a[k], b, False, 8))
            ne = cur.restrict(B.bnot(e))
            if ne is not None:
                out.append((ne if ne is not cur else cur.fork(),
                            Obj("std::pair", {"first": vs[0].plus(k), "second": vs[2].plus(k)})))
            cur = cur.restrict(e)
            k += 1
        if cur is not None:
            out.append((cur, Obj("std::pair", {"first": vs[0].plus(k), "second": vs[2].plus(k)})))
    return out


def emit(I, s, it, v, n):
    """Write through an output iterator; returns the advanced iterator."""
    if isinstance(it, Obj) and "p" in it.f:
        q = I.load(s, it.f["p"], n)
        I.put(s, I_canon(I, s, it.f["p"]), Seq(q.items + (coerce(I, v, q.ty),), q.ty), n)
        return it
    base = I.load(s, P(it.root, it.sels[:-1]), n)
    I.put(s, it, coerce(I, v, base.ty) if isinstance(base, Seq) else v, n)
    return nodemodel.step(I, s, it, 1, n) if nodemodel.is_node_iter(it) else it.plus(1)


def algorithm(I, n, nm, st, fr):
    from . import libmodel
    out = []
    for s, vs in I.evs(n.args, st, fr):
        if nm == "copy_n":
            items = rng(I, s, vs[0], vs[0].plus(vs[1]), n)
            it = vs[2]
        else:
            items = rng(I, s, vs[0], vs[1], n)
            it = vs[2] if len(vs) > 2 else None
        pl = places(I, s, vs[0], vs[0].plus(vs[1]) if nm == "copy_n" else vs[1], n)
        if nm in ("copy", "copy_n"):
            for x in items:
                it = emit(I, s, it, x, n)
            out.append((s, it))
        elif nm == "fill":
            for i in range(len(items)):
                I.put(s, pl[i], I.load(s, it, n) if isinstance(it, P) else it, n)
            out.append((s, None))
        elif nm == "reverse":
            for i, x in enumerate(reversed(items)):
                I.put(s, pl[i], x, n)
            out.append((s, None))
        elif nm == "transform":
            binary = len(vs) == 5
            it, f = (vs[3], vs[4]) if binary else (vs[2], vs[3])
            cur = [(s, it)]
            for i in range(len(items)):
                nx = []
                for s1, o in cur:
                    a = [pl[i]] + ([libmodel.adv(I, s1, vs[2], i, n)] if binary else [])
                    for s2, r in I.apply(f, a, s1, n):
                        r = I.load(s2, r, n) if isinstance(r, P) else r
                        nx.append((s2, emit(I, s2, o, r, n)))
                cur = I.join(nx)
            out += cur
        elif nm in ("for_each", "generate"):
            cur = [s]
            for i in range(len(items)):
                nx = []
                for s1 in cur:
                    for s2, r in I.apply(it, [pl[i]] if nm == "for_each" else [], s1, n):
                        if nm == "generate":
                            I.put(s2, pl[i], I.load(s2, r, n) if isinstance(r, P) else r, n)
                        nx.append(s2)
                cur = I.joins(nx)
            out += [(s1, it if nm == "for_each" else None) for s1 in cur]
        elif nm == "accumulate":
            cur = [(s, vs[2])]
            for i in range(len(items)):
                nx = []
                for s1, acc in cur:
                    if len(vs) > 3:
                        nx += I.apply(vs[3], [acc, pl[i]], s1, n)
                    else:
                        nx.append((s1, I.arith("+", acc, items[i], (64, True), n)))
                cur = I.join(nx)
            out += cur
        elif nm in ("find", "count"):
            cur = s
            want = I.load(s, it, n) if isinstance(it, P) else it
            if nm == "count":
                if all(isinstance(x, int) for x in items) and isinstance(want, int):
                    out.append((s, sum(1 for x in items if x == want)))
                    continue
                return None
            for i, x in enumerate(items):
                e = I.truth(I.compare("==", x, want, False, 8))
                a = cur.restrict(e)
                if a is not None:
                    out.append((a if a is not cur else cur.fork(), pl[i]))
                cur = cur.restrict(B.bnot(e))
                if cur is None:
                    break
            if cur is not None:
                out.append((cur, vs[1]))
        elif nm in ("any_of", "all_of", "none_of", "find_if", "find_if_not"):
            cur = [s]
            stop_on = nm in ("any_of", "none_of", "find_if")
            hit = {"any_of": 1, "all_of": 0, "none_of": 0}.get(nm)
            for i in range(len(items)):
                nx = []
                for s1 in cur:
                    for s2, r in I.apply(it, [pl[i]], s1, n):
                        for s3, t in I.branch(r, s2, n):
                            if t == stop_on:
                                out.append((s3, hit if hit is not None else pl[i]))
                            else:
                                nx.append(s3)
                cur = I.joins(nx)
            out += [(s1, 1 - hit if hit is not None else vs[1]) for s1 in cur]
        else:
            return None
    return I.join(out) if nm in ("any_of", "all_of", "none_of") else out


def seq_order(I, a, b, op):
    """Lexicographic comparison of two sequences of known length."""
    if op in (">", "<="):
        a, b = b, a
    sg = "string" not in a.ty and any(isinstance(x, NS) for x in a.items + b.items)
    lt = B.ONE if len(a.items) < len(b.items) else B.ZERO
    for x, y in reversed(list(zip(a.items, b.items))):
        if not isinstance(x, (int, N)) or not isinstance(y, (int, N)):
            return Unk("bool", "comparison")
        w = max([len(v) for v in (x, y) if isinstance(v, N)] + [8])
        p, r = I.nbits(x, w), I.nbits(y, w)
        ne = B.bnot(B.eq(p, r))
        lt = B.mux(ne, B.slt(p, r) if sg else B.ult(p, r), lt) if B.TOP not in (ne, lt) else B.TOP
    if lt == B.TOP:
        return Unk("bool", "comparison")
    if op in ("<=", ">="):
        lt = B.bnot(lt)
    return 1 if lt == B.ONE else 0 if lt == B.ZERO else N((lt,))


def stream_op(I, n, d, st, fr):
    from . import streammodel
    nm = d.name
    if nm == "widen" and n.args:
        return I.ev(n.args[0], st, fr)
    if nm != "operator<<":
        return None
    ks = n.kids
    if n.obj is not None:
        ks = [n.obj] + list(n.args)
    if len(ks) != 2:
        return None
    out = []
    for s, p in (I.ev(ks[0], st, fr) if n.o.get("arrow") else I.lv(ks[0], st, fr)):
        p = I_canon(I, s, p)
        o = I.load(s, p, n)
        for s2, v in I.ev(ks[1], s, fr):
            if not isinstance(o, Obj) or o.cls != "stream":
                out.append((s2, p))
                continue
            t = bare(ks[1].type)
            if isinstance(v, P) and not (v.sels and isinstance(v.sels[-1], int)):
                v = I.load(s2, v, n)
            if isinstance(v, Seq) or isinstance(v, P) and ("char" in t or "string" in t):
                x = seqof(I, s2, v, n).items
            elif isinstance(v, (int, N)) and t in ("char", "unsigned char", "signed char"):
                x = (v,)
            elif isinstance(v, int):
                x = tuple(ord(c) for c in str(v))
            elif isinstance(v, Unk) and v.why == "std::endl":
                x = (10,)
            else:
                I.put(s2, p, Obj("stream", dict(o.f, s=Unk("std::basic_string<char>", "streamed"))), n)
                out.append((s2, p))
                continue
            streammodel.write(I, s2, p, o, tuple(x), n)
            out.append((s2, p))
    return out


def make_object(I, st, ty, vals, n):
    from . import libmodel
    return libmodel.make_object(I, st, ty, vals, n)
