"""Network addresses and endpoints of asio and boost::asio, as values: bytes in network order, scope, kind, port."""
from . import bits as B
from .absint import N, P, Seq, Obj, Unk, Err, Undecided, INT, bare, strip_targs

KIND = {"ip::address_v4": "4", "ip::address_v6": "6", "ip::address": "a", "ip::basic_endpoint": "e",
        "ip::detail::endpoint": "e"}


def kind(cls):
    for p in ("asio::", "boost::asio::"):
        if cls.startswith(p):
            return KIND.get(cls[len(p):])
    return None


def is_net(cls):
    return kind(cls) is not None


def lib(cls):
    return "boost::asio::" if cls.startswith("boost::") else "asio::"


def make(k, lb, **f):
    names = {"4": "ip::address_v4", "6": "ip::address_v6", "a": "ip::address", "e": "ip::basic_endpoint"}
    return Obj(lb + names[k], f)


def default(t):
    cls = strip_targs(bare(t))
    k = kind(cls)
    if k is None:
        return None
    lb = lib(cls)
    v4 = make("4", lb, b=Seq([0] * 4, "std::array<unsigned char, 4>"))
    if k == "4":
        return v4
    v6 = make("6", lb, b=Seq([0] * 16, "std::array<unsigned char, 16>"), scope=0)
    if k == "6":
        return v6
    a = make("a", lb, six=0, v4=v4, v6=v6)
    return a if k == "a" else make("e", lb, a=a, p=0)


def val(I, s, v, n):
    return I.load(s, v, n) if isinstance(v, P) else v


def ulong(I, o, w):
    from . import byteview
    return byteview.from_bytes(I, list(reversed(o.f["b"].items)) + [0] * (w // 8 - 4), (w // 8, False, w))


def of_ulong(I, lb, v):
    from . import byteview
    bs = byteview.to_bytes(I, I.wrap(v, (32, False)) if isinstance(v, (int, N)) else v, (4, False, 32))
    return make("4", lb, b=Seq(list(reversed(bs)), "std::array<unsigned char, 4>"))


def address(I, v, lb):
    """An address made from v (an address of any kind)."""
    k = kind(v.cls) if isinstance(v, Obj) else None
    d = default(lb + "ip::address")
    if k == "a":
        return Obj(lb + "ip::address", v.f)
    if k == "4":
        return make("a", lb, six=0, v4=v, v6=d.f["v6"])
    if k == "6":
        return make("a", lb, six=1, v4=d.f["v4"], v6=v)
    return Unk(lb + "ip::address", "address")


def build(I, s, k, lb, vs, n):
    vs = [val(I, s, v, n) for v in vs]
    if not vs:
        return default(lb + {"4": "ip::address_v4", "6": "ip::address_v6", "a": "ip::address",
                             "e": "ip::basic_endpoint"}[k])
    if len(vs) == 1 and isinstance(vs[0], Obj) and kind(vs[0].cls) == k:
        return vs[0]
    if k == "4":
        if isinstance(vs[0], (int, N)):
            return of_ulong(I, lb, vs[0])
        return make("4", lb, b=vs[0]) if isinstance(vs[0], Seq) else None
    if k == "6":
        sc = vs[1] if len(vs) > 1 else 0
        return make("6", lb, b=vs[0], scope=sc) if isinstance(vs[0], Seq) else None
    if k == "a":
        return address(I, vs[0], lb)
    if len(vs) == 2 and isinstance(vs[0], Obj) and kind(vs[0].cls) in ("a", "4", "6"):
        return make("e", lb, a=address(I, vs[0], lb), p=vs[1])
    return None


def construct(I, n, cls, st, fr):
    out = []
    for s, vs in I.evs(n.kids, st, fr):
        v = build(I, s, kind(cls), lib(cls), vs, n)
        out.append((s, v if v is not None else Unk(bare(n.type), "address")))
    return out


def eq(I, a, b):
    """Bit of a == b."""
    k = kind(a.cls)
    if k == "4":
        return I.truth(I.seq_eq(a.f["b"], b.f["b"], "=="))
    if k == "6":
        return B.band(I.truth(I.seq_eq(a.f["b"], b.f["b"], "==")),
                      I.truth(I.compare("==", a.f["scope"], b.f["scope"], False)))
    if k == "a":
        if not isinstance(a.f["six"], int) or not isinstance(b.f["six"], int):
            return B.TOP
        if a.f["six"] != b.f["six"]:
            return B.ZERO
        return eq(I, a.f["v6"], b.f["v6"]) if a.f["six"] else eq(I, a.f["v4"], b.f["v4"])
    return B.band(eq(I, a.f["a"], b.f["a"]), I.truth(I.compare("==", a.f["p"], b.f["p"], False)))


def pred(I, o, nm):
    """Bit of a predicate on an address, or None."""
    def same(bs, xs):
        return I.truth(I.seq_eq(Seq(bs, ""), Seq(xs, ""), "=="))

    def masked(b, m, x):
        return I.truth(I.compare("==", I.arith("&", b, m, (32, False)), x, False))
    k = kind(o.cls)
    if k == "a":
        return pred(I, o.f["v6"] if o.f["six"] else o.f["v4"], nm) if isinstance(o.f["six"], int) else None
    if k not in ("4", "6") or not nm.startswith("is_"):
        return None
    b = list(o.f["b"].items)
    if nm == "is_unspecified":
        return same(b, [0] * len(b))
    if nm == "is_loopback":
        return same(b[:1], [127]) if k == "4" else same(b, [0] * 15 + [1])
    if nm == "is_multicast":
        return masked(b[0], 0xf0, 0xe0) if k == "4" else same(b[:1], [0xff])
    if nm in ("is_link_local", "is_site_local") and k == "6":
        return B.band(same(b[:1], [0xfe]), masked(b[1], 0xc0, 0x80 if nm == "is_link_local" else 0xc0))
    if nm == "is_v4_mapped" and k == "6":
        return same(b[:12], [0] * 10 + [255, 255])
    if nm == "is_v4_compatible" and k == "6":
        return B.band(same(b[:12], [0] * 12), B.bnot(B.band(same(b[12:15], [0] * 3), I.truth(
            I.compare("<", b[15], 2, False)))))
    return None


def call(I, n, d, st, fr):
    from .stdmodel import objplace
    nm, cls, op = d.name, d.cls or "", d.o.get("op")
    if op in ("==", "!=") and len(n.kids) == 2:
        out = []
        for s, vs in I.evs(n.kids, st, fr):
            a, b = (val(I, s, v, n) for v in vs)
            if not (isinstance(a, Obj) and isinstance(b, Obj) and kind(a.cls) and kind(a.cls) == kind(b.cls)):
                out.append((s, Unk("bool", "addresses")))
                continue
            r = eq(I, a, b)
            if r == B.TOP:
                out.append((s, Unk("bool", "addresses")))
                continue
            if op == "!=":
                r = B.bnot(r)
            out.append((s, 1 if r == B.ONE else 0 if r == B.ZERO else N((r,))))
        return out
    if op == "=" and is_net(cls):
        out = []
        for s, p in I.lv(n.kids[0], st, fr):
            for s2, v in I.ev(n.kids[1], s, fr):
                v = val(I, s2, v, n)
                I.put(s2, p, address(I, v, lib(cls)) if kind(cls) == "a" else v, n)
                out.append((s2, p))
        return out
    if op:
        return None
    if nm in ("make_address_v4", "make_address_v6") and not is_net(cls) and n.args:
        lb, out = lib(d.q), []
        if bare(n.args[0].type).endswith("v4_mapped_t"):
            a = n.args[1]
            for s, v in I.ev(a, st, fr):
                v = val(I, s, v, n)
                if not isinstance(v, Obj):
                    return None
                if nm.endswith("v6"):
                    out.append((s, make("6", lb, scope=0, b=Seq([0] * 10 + [255, 255] + list(v.f["b"].items),
                                                                 "std::array<unsigned char, 16>"))))
                    continue
                m = pred(I, v, "is_v4_mapped")
                for s2, t in I.branch(1 if m == B.ONE else 0 if m == B.ZERO else N((m,)), s, n):
                    if t:
                        out.append((s2, make("4", lb, b=Seq(v.f["b"].items[12:], "std::array<unsigned char, 4>"))))
                    else:
                        I.sink[-1].append((s2, Err("std::bad_cast")))
            return out
        for s, vs in I.evs(n.args, st, fr):
            vs = [val(I, s, v, n) for v in vs]
            if nm.endswith("v6") and isinstance(vs[-1], Obj) and kind(vs[-1].cls) == "4":
                v = make("6", lb, scope=0, b=Seq([0] * 10 + [255, 255] + list(vs[-1].f["b"].items),
                                                 "std::array<unsigned char, 16>"))
            elif isinstance(vs[0], Seq) and not vs[0].ty.startswith("std::array"):
                return None
            else:
                v = build(I, s, nm[-1], lb, vs, n)
            if v is None:
                return None
            out.append((s, v))
        return out
    if not is_net(cls) or d.o.get("static"):
        return None
    k, lb = kind(cls), lib(cls)
    out = []
    for s, p in objplace(I, n, st, fr):
        o = I.load(s, p, n)
        if not isinstance(o, Obj):
            return None
        if k == "4" and nm in ("to_ulong", "to_uint"):
            out.append((s, ulong(I, o, 64 if nm == "to_ulong" else 32)))
        elif k in "46" and nm == "to_bytes":
            out.append((s, o.f["b"]))
        elif k == "6" and nm == "scope_id":
            if n.args:
                for s2, v in I.ev(n.args[0], s, fr):
                    I.put(s2, p.at("scope"), v, n)
                    out.append((s2, None))
            else:
                out.append((s, o.f["scope"]))
        elif pred(I, o, nm) is not None:
            r = pred(I, o, nm)
            out.append((s, 1 if r == B.ONE else 0 if r == B.ZERO else N((r,)) if r != B.TOP else Unk("bool", nm)))
        elif k == "6" and nm == "to_v4":
            m = B.bor(pred(I, o, "is_v4_mapped"), pred(I, o, "is_v4_compatible"))
            for s2, t in I.branch(1 if m == B.ONE else 0 if m == B.ZERO else N((m,)), s, n):
                if t:
                    out.append((s2, make("4", lb, b=Seq(o.f["b"].items[12:], "std::array<unsigned char, 4>"))))
                else:
                    I.sink[-1].append((s2, Err("std::bad_cast")))
        elif k == "a" and nm in ("is_v4", "is_v6"):
            if not isinstance(o.f["six"], int):
                return None
            out.append((s, o.f["six"] if nm == "is_v6" else 1 - o.f["six"]))
        elif k == "a" and nm in ("to_v4", "to_v6"):
            if not isinstance(o.f["six"], int):
                return None
            if o.f["six"] != int(nm == "to_v6"):
                I.sink[-1].append((s, Err("std::bad_cast")))
                continue
            out.append((s, o.f["v6" if nm == "to_v6" else "v4"]))
        elif k == "e" and nm in ("address", "port"):
            f = "a" if nm == "address" else "p"
            if n.args:
                for s2, v in I.ev(n.args[0], s, fr):
                    v = val(I, s2, v, n)
                    I.put(s2, p.at(f), address(I, v, lb) if f == "a" else v, n)
                    out.append((s2, None))
            else:
                out.append((s, o.f[f]))
        else:
            return None
    return out
