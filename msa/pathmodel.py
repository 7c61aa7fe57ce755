"""boost::filesystem::path as the text it is made of."""
from .absint import P, Seq, Obj, Unk, bare, strip_targs

CLS = "boost::filesystem::path"
TXT = "std::basic_string<char>"


def make(items=()):
    return Obj(CLS, {"t": Seq(tuple(items), TXT)})


def default(t):
    return make() if strip_targs(bare(t)) == CLS else None


def text(I, s, v, n):
    """Characters of a path or of anything a path is made of."""
    from .stdmodel import seqof
    if isinstance(v, P) and not (v.sels and isinstance(v.sels[-1], int)):
        v = I.load(s, v, n)
    if isinstance(v, Obj) and v.cls == CLS:
        v = v.f["t"]
    if isinstance(v, Seq):
        return seqof(I, s, v, n).items
    if isinstance(v, P):
        return seqof(I, s, v, n).items
    return None


def construct(I, n, st, fr):
    if not n.kids:
        return [(st, make())]
    out = []
    for s, vs in I.evs(n.kids[:1], st, fr):
        t = text(I, s, vs[0], n)
        out.append((s, make(t) if t is not None else Unk(bare(n.type), "path")))
    return out


def known(t, n):
    from .absint import Undecided
    if t is None or not all(isinstance(x, int) for x in t):
        raise Undecided("a path at %s" % n.loc)
    return tuple(x & 255 for x in t)


def below(a, b, n):
    """a / b"""
    from .absint import Undecided
    a, b = known(a, n), known(b, n)
    if b and b[0] == 47:
        raise Undecided("an absolute path appended at %s" % n.loc)
    if not b or not a:
        return a + b
    return a + (() if a[-1] == 47 else (47,)) + b


def parts(t, n):
    """(length of the parent path, start of the file name, start of its extension)"""
    from .absint import Undecided
    t = known(t, n)
    at = max([i for i, x in enumerate(t) if x == 47], default=-1) + 1
    name = t[at:]
    if t and not name or name in ((46,), (46, 46)) or name[:1] == (46,) or (47, 47) in zip(t, t[1:]):
        raise Undecided("a path of an unusual form at %s" % n.loc)
    dot = max([i for i, x in enumerate(name) if x == 46], default=len(name)) + at
    return (max(at - 1, 1) if at else 0), at, dot


def call(I, n, d, st, fr, want_lv):
    from .stdmodel import objplace
    nm, op = d.name, d.o.get("op")
    out = []
    if d.cls != CLS:
        if op in ("==", "!=") and len(n.kids) == 2:
            for s, vs in I.evs(n.kids, st, fr):
                a, b = (text(I, s, v, n) for v in vs)
                if a is None or b is None or not all(isinstance(x, int) for x in a + b):
                    return None      # compared part by part
                if op in ("==", "!=") and 47 in a + b and a != b:
                    return None
                out.append((s, int((a == b) == (op == "=="))))
            return out
        if op == "/" and len(n.kids) == 2:
            return [(s, make(below(text(I, s, a, n), text(I, s, b, n), n))) for s, (a, b) in I.evs(n.kids, st, fr)]
        return None
    argn = n.args if n.obj is not None else n.kids[1:]
    for s0, p in objplace(I, n, st, fr):
        for s, vs in I.evs(argn, s0, fr):
            o = I.load(s, p, n) if isinstance(p, P) else p
            if op == "=" or nm == "assign":
                t = text(I, s, vs[0], n) if len(vs) == 1 else None
                I.put(s, p, make(t) if t is not None else Unk(CLS, "path"), n)
                out.append((s, p))
                continue
            if not (isinstance(o, Obj) and o.cls == CLS):
                return None
            t = o.f["t"].items
            if nm == "parent_path":
                out.append((s, make(t[:parts(t, n)[0]])))
            elif nm in ("filename", "stem", "extension"):
                _, at, dot = parts(t, n)
                out.append((s, make(t[at:] if nm == "filename" else t[at:dot] if nm == "stem" else t[dot:])))
            elif nm == "replace_extension" and isinstance(p, P):
                x = known(text(I, s, vs[0], n), n) if vs else ()
                I.put(s, p, make(tuple(t[:parts(t, n)[2]]) + ((46,) if x and x[0] != 46 else ()) + x), n)
                out.append((s, p))
            elif op == "/=" and isinstance(p, P) and len(vs) == 1:
                I.put(s, p, make(below(t, text(I, s, vs[0], n), n)), n)
                out.append((s, p))
            elif nm == "is_absolute" or nm == "has_root_directory":
                out.append((s, int(bool(t) and t[0] == 47)))
            elif nm == "native" and isinstance(p, P):
                out.append((s, p.at("t") if want_lv else o.f["t"]))
            elif nm in ("string", "native", "generic_string"):
                out.append((s, o.f["t"]))
            elif nm == "c_str" and isinstance(p, P):
                out.append((s, p.at("t").at(0)))
            elif nm == "empty":
                out.append((s, int(not o.f["t"].items)))
            elif nm == "size":
                out.append((s, len(o.f["t"].items)))
            elif nm == "clear":
                I.put(s, p, make(), n)
                out.append((s, None))
            else:
                return None
    return out
