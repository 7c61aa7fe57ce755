"""Streams kept in memory: string streams and Boost.Interprocess vector streams.

A stream is Obj("stream", s: its characters, p: where the next write goes, g: where the next read starts, bad: whether
an input or output has failed, n: characters of the last unformatted input)."""
from . import bits as B
from .absint import N, NAMED, P, Ref, Seq, Obj, Unk, Err, Undecided, bare, strip_targs

STR = ("std::basic_ostringstream", "std::basic_stringstream", "std::basic_istringstream")
VEC = ("boost::interprocess::basic_ovectorstream", "boost::interprocess::basic_ivectorstream",
       "boost::interprocess::basic_vectorstream")
BASE = ("std::basic_ostream", "std::basic_istream", "std::basic_iostream", "std::basic_ios", "std::basic_streambuf",
        "std::basic_stringbuf", "boost::interprocess::basic_vectorbuf", "std::ios_base")


def fresh(ty="std::basic_string<char>", items=(), p=0):
    return Obj("stream", {"s": Seq(tuple(items), ty), "p": p, "g": 0, "bad": 0, "n": 0})


def is_stream(v):
    return isinstance(v, Obj) and v.cls == "stream"


def content_type(cls):
    return "std::basic_string<char>" if cls in STR else "std::vector<unsigned char>"


def default(t):
    cls = strip_targs(bare(t))
    if cls in STR + VEC:
        return fresh(content_type(cls))
    return None


def construct(I, n, cls, st, fr):
    if cls not in STR + VEC:
        return None
    from .stdmodel import seqof
    out = []
    for s, vs in I.evs(n.kids, st, fr):
        ty, items, mode = content_type(cls), (), None
        for k, v in zip(n.kids, vs):
            t = strip_targs(bare(k.type))
            if t in ("std::vector", "std::basic_string", "std::basic_string_view") or \
                    isinstance(v, Seq) or t.endswith("char *") or "char[" in t:
                q = seqof(I, s, v, n)
                if not isinstance(q, Seq):
                    return None
                items = tuple(q.items)
            elif "Openmode" in t or "openmode" in t or isinstance(v, int):
                m = mode_of(k)
                mode = m if m is not None else v
            else:
                return None
        if items and cls in ("std::basic_stringstream", "std::basic_ostringstream", VEC[0], VEC[2]):
            if mode is not None and not isinstance(mode, int):
                raise Undecided("the mode of a stream at %s" % n.loc)
            p = len(items) if mode is not None and mode & 3 else 0
        else:
            p = 0
        out.append((s, fresh(ty, items, p)))
    return out


def mode_of(n):
    """Value of an open mode expression, or None."""
    n = n.strip()
    if n.k == "ref" and n.decl is not None:
        return NAMED.get(n.decl.q)
    if n.k in ("call", "opcall", "op") and n.decl is not None and n.decl.q in ("std::operator|", "std::operator&"):
        v = [mode_of(k) for k in n.kids]
        if len(v) == 2 and None not in v:
            return v[0] | v[1] if n.decl.q.endswith("|") else v[0] & v[1]
    return n.cv if isinstance(n.cv, int) else None


def write(I, s, p, o, items, n):
    cur = o.f["s"]
    if not isinstance(cur, Seq):
        return
    at = o.f.get("p", len(cur.items))
    if not isinstance(at, int):
        raise Undecided("where a stream is written at %s" % n.loc)
    new = list(cur.items)
    new[at:at + len(items)] = items
    I.put(s, p, Obj("stream", dict(o.f, s=Seq(new, cur.ty), p=at + len(items))), n)


def streams(I, n, st, fr):
    from .stdmodel import objplace, I_canon
    for s, p in objplace(I, n, st, fr):
        p = I_canon(I, s, p)
        yield s, p, I.load(s, p, n) if isinstance(p, P) else None


def call(I, n, d, st, fr, want_lv):
    """Result of a stream operation other than <<, or None."""
    nm, cls = d.name, d.cls or ""
    if cls not in STR + VEC + BASE or n.obj is None and nm not in ("operator!", "operator bool"):
        return None
    from .stdmodel import seqof
    out = []
    for s, p, o in list(streams(I, n, st, fr)):
        if not is_stream(o):
            return None
        if nm == "rdbuf" and not n.args:
            out.append((s, P(p.root, p.sels)))
        elif nm in ("str", "vector"):
            if n.args:
                for s2, v in I.ev(n.args[0], s, fr):
                    q = seqof(I, s2, v, n)
                    if not isinstance(q, Seq):
                        return None
                    I.put(s2, p, fresh(o.f["s"].ty if isinstance(o.f["s"], Seq) else content_type(cls), q.items), n)
                    out.append((s2, None))
            elif nm == "vector" and want_lv:
                out.append((s, p.at("s")))
            else:
                out.append((s, o.f["s"]))
        elif nm in ("sputn", "write", "sputc", "put"):
            for s2, vs in I.evs(n.args, s, fr):
                if nm in ("sputc", "put"):
                    items = (vs[0],)
                else:
                    k = vs[1]
                    if not isinstance(k, int):
                        raise Undecided("the number of bytes written at %s" % n.loc)
                    if not isinstance(vs[0], P) and k or k > 100000 or k < 0:
                        return None
                    items = tuple(I.load(s2, vs[0].plus(i), n) for i in range(k))
                write(I, s2, p, o, items, n)
                out.append((s2, len(items) if nm == "sputn" else items[0] if nm == "sputc" else p))
        elif nm in ("sgetn", "read"):
            for s2, vs in I.evs(n.args, s, fr):
                k = vs[1]
                if not isinstance(k, int):
                    raise Undecided("the number of bytes read at %s" % n.loc)
                cur, g = o.f["s"], o.f.get("g", 0)
                if not isinstance(cur, Seq):
                    return None
                got = cur.items[g:g + max(k, 0)]
                if got and not isinstance(vs[0], P):
                    return None
                for i, x in enumerate(got):
                    I.put(s2, vs[0].plus(i), x, n)
                # the stream may itself be where the bytes go
                o2 = I.load(s2, p, n)
                bad = int(bool(o.f.get("bad")) or nm == "read" and len(got) < k)
                I.put(s2, p, Obj("stream", dict(o2.f, g=g + len(got), bad=bad, n=len(got))), n)
                out.append((s2, len(got) if nm == "sgetn" else p))
        elif nm in ("sbumpc", "sgetc", "get", "peek") and not n.args:
            cur, g = o.f["s"], o.f.get("g", 0)
            if not isinstance(cur, Seq):
                return None
            if g >= len(cur.items):
                if nm in ("get", "peek"):
                    I.put(s, p, Obj("stream", dict(o.f, bad=1)), n)
                out.append((s, -1))
                continue
            x = I.wrap(cur.items[g], (8, False))
            if nm in ("sbumpc", "get"):
                I.put(s, p, Obj("stream", dict(o.f, g=g + 1, n=1)), n)
            out.append((s, I.wrap(x, (32, True)) if isinstance(x, (int, N)) else x))
        elif nm == "in_avail":
            out.append((s, len(o.f["s"].items) - o.f.get("g", 0) if isinstance(o.f["s"], Seq) else Unk("long", nm)))
        elif nm == "gcount":
            out.append((s, o.f.get("n", 0)))
        elif nm in ("good", "operator bool"):
            out.append((s, 1 - int(bool(o.f.get("bad")))))
        elif nm in ("fail", "bad", "operator!", "eof"):
            out.append((s, int(bool(o.f.get("bad")))))
        elif nm == "clear" and not n.args:
            I.put(s, p, Obj("stream", dict(o.f, bad=0)), n)
            out.append((s, None))
        elif nm in ("flush", "reserve"):
            for s2, _ in I.evs(n.args, s, fr):
                out.append((s2, p))
        elif nm in ("tellp", "tellg") and isinstance(o.f["s"], Seq):
            out.append((s, o.f.get("p", len(o.f["s"].items)) if nm == "tellp" else o.f.get("g", 0)))
        else:
            return None
    return out
