"""std::error_code, std::error_condition, std::error_category and exceptions carrying them.

A category is the place P of its object, or a name for the standard ones and for categories whose accessor has no
body in the program; an error code is Obj("std::error_code", value, cat); an exception is absint.Err."""
from .absint import P, Ref, Seq, Obj, N, NS, Unk, Err, bare, strip_targs

CODE = ("std::error_code", "std::error_condition", "boost::system::error_code", "boost::system::error_condition")
STDCAT = ("std::system_category", "std::generic_category", "boost::system::system_category",
          "boost::system::generic_category")
MS = "maidsafe::"


def is_enum_of_errors(I, t):
    return t.startswith(MS) and t.endswith("Errors") and t in I.enums


def real(I):
    """The program contains the bodies in error.cc."""
    r = getattr(I, "_real_errors", None)
    if r is None:
        r = I._real_errors = any(f.blocks for f in I.prog.find("maidsafe::make_error_code"))
    return r


def derives(I, cls, base, depth=0):
    if cls == base:
        return True
    if depth > 8:
        return False
    for tu, r in I.prog.records(cls):
        for b in r.get("bases", []):
            t = tu.types[b["t"]] if isinstance(b, dict) and "t" in b else b if isinstance(b, str) else tu.types[b]
            if derives(I, strip_targs(bare(t)), base, depth + 1):
                return True
    return cls in STD and derives(I, STD[cls], base, depth + 1)


STD = {"std::system_error": "std::runtime_error", "std::runtime_error": "std::exception",
       "std::logic_error": "std::exception", "std::out_of_range": "std::logic_error",
       "std::length_error": "std::logic_error", "std::invalid_argument": "std::logic_error",
       "std::bad_alloc": "std::exception", "std::future_error": "std::logic_error",
       "boost::bad_lexical_cast": "std::exception", "std::bad_cast": "std::exception"}


def name_of(I, val, cat):
    if isinstance(cat, str) and cat in I.enums and isinstance(val, int):
        return I.enums[cat].get(val, "%s(%d)" % (cat, val)).split("::")[-1]
    return "?"


def code_of(I, e):
    return Obj("std::error_code", {"value": e.val, "cat": e.cat})


def from_enum(I, node, v):
    t = strip_targs(bare(node.type))
    if is_enum_of_errors(I, t):
        return Obj("std::error_code", {"value": v, "cat": t})
    return None


def same_cat(I, a, b):
    if any(isinstance(x, P) and x.root in I.vague for x in (a, b)):
        return None
    if isinstance(a, Ref):
        a = P(a.root, a.sels)
    if isinstance(b, Ref):
        b = P(b.root, b.sels)
    if isinstance(a, str) and isinstance(b, str) or isinstance(a, P) and isinstance(b, P):
        return a == b
    if isinstance(a, (str, P)) and isinstance(b, (str, P)):
        p = a if isinstance(a, P) else b
        return False if p.root[0] == "cat" and str(p.root[1]) in STDCAT else None
    return None


def equal(I, a, b):
    """Truth of a == b for two codes (or two conditions): 0, 1, a bit, or None."""
    if not all(isinstance(x, Obj) and x.cls in CODE for x in (a, b)):
        return None
    c = same_cat(I, a.f.get("cat"), b.f.get("cat"))
    if c is None:
        return None
    if not c:
        return 0
    va, vb = a.f["value"], b.f["value"]
    if isinstance(va, Unk) or isinstance(vb, Unk):
        return None
    return I.compare("==", va, vb, True, 32)


def construct(I, n, cls, st, fr):
    pts = [bare(t) for t in n.decl.ptypes]
    if cls == "std::system_error":
        out = []
        for s, vs in I.args(n.kids, n.decl.ptypes, st, fr):
            e = make(I, s, n, pts, vs)
            if e is None:
                return None
            out.append((s, e))
        return out
    if cls not in CODE:
        return None
    out = []
    for s, vs in I.args(n.kids, n.decl.ptypes, st, fr):
        if not vs:
            out.append((s, Obj(cls, {"value": 0, "cat": P(("cat", cls.rsplit("::", 1)[0] + "::system_category"))})))
        elif len(vs) == 2:
            v = I.load(s, vs[0], n) if isinstance(vs[0], P) else vs[0]
            out.append((s, Obj(cls, {"value": v, "cat": vs[1]})))
        elif len(vs) == 1:
            v = I.load(s, vs[0], n) if isinstance(vs[0], P) else vs[0]
            t = strip_targs(pts[0])
            if isinstance(v, Obj) and v.cls == cls:
                out.append((s, v))
            elif t == "std::errc" and isinstance(v, int):
                out.append((s, Obj(cls, {"value": v, "cat": P(("cat", "std::generic_category"))})))
            elif is_enum_of_errors(I, t):
                f = maker(I, t, cls)
                if f is None:
                    out.append((s, Obj(cls, {"value": v, "cat": t})))
                else:
                    out += I.invoke(f, [v], None, s)
            else:
                return None
        else:
            return None
    return out


def maker(I, t, cls):
    nm = "maidsafe::make_" + cls.split("::")[1]
    for f in I.prog.find(nm):
        if f.blocks and len(f.params) == 1 and strip_targs(bare(f.params[0].type)) == t:
            return f
    return None


def make(I, s, n, pts, vs):
    """The exception made by a std::system_error constructor."""
    vs = [I.load(s, v, n) if isinstance(v, P) and not pts[i].endswith("error_category") else v for i, v in enumerate(vs)]
    if len(vs) >= 1 and isinstance(vs[0], Obj) and vs[0].cls in CODE:
        return Err(name_of(I, vs[0].f["value"], vs[0].f["cat"]), "std::system_error", vs[0].f["value"], vs[0].f["cat"])
    if len(vs) >= 2 and pts[1].endswith("error_category"):
        return Err(name_of(I, vs[0], vs[1]), "std::system_error", vs[0], vs[1])
    if len(vs) == 1 and isinstance(vs[0], Err):
        return vs[0]
    return None


def call(I, n, d, st, fr, want_lv):
    q, nm, cls = d.q, d.name, d.cls or ""
    if q.startswith("maidsafe::Get") and bare(d.rettype).endswith("error_category"):
        return [(st, P(("cat", q)))]
    if q == "maidsafe::make_error_code" or q == "maidsafe::make_error_condition":
        out = []
        for s, v in I.ev(n.args[0], st, fr):
            o = from_enum(I, n.args[0], v)
            if o is None:
                return None
            out.append((s, o))
        return out
    if q in ("std::make_error_code", "std::make_error_condition") and n.args and \
            strip_targs(bare(n.args[0].type)) == "std::errc":
        return [(s, Obj("std::" + q[10:], {"value": v, "cat": P(("cat", "std::generic_category"))}))
                for s, v in I.ev(n.args[0], st, fr)]
    if q in STDCAT:
        return [(st, P(("cat", q)))]
    if cls == "std::system_error" and nm == "code":
        out = []
        for s, p in obj(I, n, st, fr):
            e = I.load(s, p, n) if isinstance(p, P) else p
            if not isinstance(e, Err) or e.cat is None:
                return None
            o = code_of(I, e)
            out.append((s, I.temp(s, o) if want_lv else o))
        return out
    if cls in CODE and nm in ("value", "category", "operator bool"):
        out = []
        for s, p in obj(I, n, st, fr):
            o = I.load(s, p, n) if isinstance(p, P) else p
            if not isinstance(o, Obj) or "cat" not in o.f:
                return None
            if nm == "category":
                out.append((s, o.f["cat"]))
            elif nm == "value":
                out.append((s, o.f["value"]))
            else:
                out.append((s, I.compare("!=", o.f["value"], 0, True, 32)))
        return out
    if nm in ("operator==", "operator!=") and len(n.kids) == 2:
        ts = [strip_targs(bare(k.type)) for k in n.kids]
        if cls == "std::error_category" or any("Category" in t or t == "std::error_category" for t in ts):
            out = []
            for s, a in I.lv(n.kids[0], st, fr):
                for s2, b in I.lv(n.kids[1], s, fr):
                    c = same_cat(I, a, b)
                    if c is None:
                        return None
                    out.append((s2, int(c) if nm.endswith("==") else int(not c)))
            return out
        if ts[0] == ts[1] and ts[0] in CODE:
            out = []
            for s, (a, b) in I.evs(n.kids, st, fr):
                a = I.load(s, a, n) if isinstance(a, P) else a
                b = I.load(s, b, n) if isinstance(b, P) else b
                e = equal(I, a, b)
                if e is None:
                    return None
                out.append((s, e if nm.endswith("==") else I.compare("==", e, 0, False, 1) if not isinstance(e, int)
                            else 1 - e))
            return out
    if cls == "std::error_category" and nm in ("message", "default_error_condition", "name") and n.obj is not None:
        out = []
        for s, p in obj(I, n, st, fr):
            o = I.load(s, p, n) if isinstance(p, P) and p.root in s.mem else None
            f = None
            if isinstance(o, Obj):
                for g in I.prog.find(o.cls + "::" + nm):
                    if g.blocks:
                        f = g
            if f is None:
                return None
            for s2, vs in I.args(n.args, d.ptypes, s, fr):
                out += I.invoke(f, vs, P(p.root, p.sels), s2)
        return out
    return None


def obj(I, n, st, fr):
    return I.ev(n.obj, st, fr) if n.o.get("arrow") else I.lv(n.obj, st, fr)
