"""One file and the streams that read and write it, with faults.

A file stream is the streammodel's stream with a mark "file"; #file is what the file holds, #fault what goes wrong
(see drivers/files.cc)."""
from . import streammodel as SM, pathmodel
from .absint import P, Seq, Obj, Unk, Err, Undecided, bare, strip_targs

FILE, FAULT = ("g", "#file"), ("g", "#fault")
BYTES = "std::vector<unsigned char>"
FS = ("std::basic_ifstream", "std::basic_ofstream", "std::basic_fstream", "boost::filesystem::basic_ifstream",
      "boost::filesystem::basic_ofstream", "boost::filesystem::basic_fstream")


def disk(I, n, st, fr):
    out = []
    for s, p in I.lv(n.args[0], st, fr):
        for s2, f in I.ev(n.args[1], s, fr):
            s2.mem[FILE], s2.mem[FAULT] = I.load(s2, p, n), f
            out.append((s2, None))
    return out


def content(I, n, st, fr):
    return [(st, st.mem[FILE])]


def closed(**kw):
    return Obj("stream", dict({"s": Seq((), BYTES), "p": 0, "g": 0, "bad": 0, "n": 0, "file": 1, "open": 0}, **kw))


def opened(I, s, cls, mode, n):
    if mode is None:
        mode = 8 if "ifstream" in cls else 16 if "ofstream" in cls else 24
    mode |= 8 if "ifstream" in cls else 16 if "ofstream" in cls else 0
    fault = s.mem.get(FAULT, 0)
    if fault == 1:
        return closed(bad=1)
    cur = s.mem[FILE]
    items = cur.items
    at = 0
    if mode & 16:
        if mode & 1:
            at = len(items)
        elif mode & 32 or not mode & 8:
            items = ()
            s.mem[FILE] = Seq((), cur.ty)
        if mode & 2:
            at = len(items)
    elif fault == 2:
        return closed(open=1, fail=1)
    elif fault == 5:
        items = items[:-1]
    return closed(s=Seq(items, BYTES), p=at, g=len(items) if mode & 2 else 0, open=1, fail=int(fault == 2), out=int(bool(mode & 16)))


def modes(n, vs, k):
    if len(vs) <= k:
        return None
    m = SM.mode_of(n)
    if m is None:
        m = vs[k]
    if not isinstance(m, int):
        raise Undecided("how a file is opened at %s" % n.loc)
    return m


def construct(I, n, st, fr):
    cls = n.decl.cls
    if not n.kids:
        return [(st, closed())]
    if len(n.kids) == 1 and strip_targs(bare(n.kids[0].type)) == cls:
        return I.ev(n.kids[0], st, fr)
    return [(s, opened(I, s, cls, modes(n.kids[1] if len(n.kids) > 1 else None, vs, 1), n)) for s, vs in I.evs(n.kids, st, fr)]


def base(I, n, st, fr):
    r = SM.call(I, n, n.decl, st, fr, False)
    if r is None:
        from . import stdmodel
        r = stdmodel.stream_op(I, n, n.decl, st, fr) if n.decl.name == "operator<<" else None
    if r is None:
        raise Undecided("%s at %s" % (n.decl.q, n.loc))
    return r


def each(I, n, st, fr):
    from .stdmodel import objplace, I_canon
    for s, p in objplace(I, n, st, fr):
        p = I_canon(I, s, p)
        yield s, p, I.load(s, p, n) if isinstance(p, P) else None


def settle(I, s, p, n):
    """What a stream has written so far reaches the file, or does not."""
    o = I.load(s, p, n)
    if o.f.get("out"):
        fault = s.mem.get(FAULT, 0)
        s.mem[FILE] = Seq(o.f["s"].items if fault != 3 else o.f["s"].items[:-1], s.mem[FILE].ty)


def write(I, n, st, fr):
    out = []
    for s, p, o in list(each(I, n, st, fr)):
        if not (SM.is_stream(o) and o.f.get("file")):
            out += base(I, n, s, fr)
            continue
        for s2, vs in I.evs(n.args, s, fr):
            o = I.load(s2, p, n)
            if o.f["bad"] or not o.f["open"] or o.f.get("fail"):
                I.put(s2, p, Obj("stream", dict(o.f, bad=1)), n)
                out.append((s2, p))
                continue
            if n.decl.name == "put":
                items = (vs[0],)
            else:
                k = vs[1]
                if not isinstance(k, int) or k > 100000 or k < 0 or k and not isinstance(vs[0], P):
                    raise Undecided("what is written at %s" % n.loc)
                items = tuple(I.load(s2, vs[0].plus(i), n) for i in range(k))
            from . import bits as B
            items = tuple(I.wrap(x, (8, False)) for x in items)
            SM.write(I, s2, p, o, items, n)
            settle(I, s2, p, n)
            out.append((s2, p))
    return out


def read(I, n, st, fr):
    out = []
    for s, p, o in list(each(I, n, st, fr)):
        if SM.is_stream(o) and o.f.get("file") and (o.f["bad"] or not o.f["open"] or o.f.get("fail")):
            for s2, _ in I.evs(n.args, s, fr):
                I.put(s2, p, Obj("stream", dict(o.f, bad=1, n=0)), n)
                out.append((s2, p))
            continue
        out += base(I, n, s, fr)
    return out


def close(I, n, st, fr):
    """close() and flush(): what was buffered is written now."""
    out = []
    for s, p, o in list(each(I, n, st, fr)):
        if not (SM.is_stream(o) and o.f.get("file")):
            out += base(I, n, s, fr)
            continue
        lost = s.mem.get(FAULT, 0) == 3 and o.f.get("out") and o.f["open"] and o.f["s"].items
        bad = int(bool(o.f["bad"] or lost or n.decl.name == "close" and not o.f["open"]))
        I.put(s, p, Obj("stream", dict(o.f, bad=bad, open=o.f["open"] if n.decl.name != "close" else 0)), n)
        out.append((s, p if n.decl.name != "close" else None))
    return out


def open_(I, n, st, fr):
    out = []
    for s, p, o in list(each(I, n, st, fr)):
        for s2, vs in I.evs(n.args, s, fr):
            I.put(s2, p, opened(I, s2, n.decl.cls, modes(n.args[1] if len(n.args) > 1 else None, vs, 1), n), n)
            out.append((s2, None))
    return out


def is_open(I, n, st, fr):
    return [(s, o.f["open"]) for s, p, o in each(I, n, st, fr)]


def file_size(I, n, st, fr):
    if len(n.args) > 1:
        raise Undecided("%s at %s" % (n.decl.q, n.loc))
    out = []
    for s, _ in I.evs(n.args, st, fr):
        if s.mem.get(FAULT, 0) == 4:
            I.sink[-1].append((s, Err("filesystem_error", "boost::filesystem::filesystem_error")))
        else:
            out.append((s, len(s.mem[FILE].items)))
    return out


def seek(I, n, st, fr):
    out = []
    for s, p, o in list(each(I, n, st, fr)):
        for s2, vs in I.evs(n.args, s, fr):
            to = vs[0]
            if len(vs) == 2:
                w = (n.args[1].strip().decl.name if n.args[1].strip().decl is not None else "")
                b = {"beg": 0, "cur": o.f["g"], "end": len(o.f["s"].items)}.get(w)
                to = b + to if b is not None and isinstance(to, int) else None
            if not isinstance(to, int):
                raise Undecided("where a file is read at %s" % n.loc)
            I.put(s2, p, Obj("stream", dict(o.f, g=max(0, min(to, len(o.f["s"].items))))), n)
            out.append((s2, p))
    return out


def has_filename(I, n, st, fr):
    from .stdmodel import objplace
    out = []
    for s, p in objplace(I, n, st, fr):
        t = pathmodel.text(I, s, p, n)
        if t is None or t and not isinstance(t[-1], int):
            raise Undecided("a path at %s" % n.loc)
        out.append((s, int(bool(t) and t[-1] != 47)))
    return out


def yes(I, n, st, fr):
    if len(n.args) > 1:
        raise Undecided("%s at %s" % (n.decl.q, n.loc))
    return [(s, 1) for s, _ in I.evs(n.args, st, fr)]


def joined(I, n, st, fr):
    out = []
    for s, vs in I.evs(n.args if n.args else n.kids, st, fr):
        if len(vs) != 2 or not all(isinstance(v, int) for v in vs):
            raise Undecided("%s at %s" % (n.decl.q, n.loc))
        out.append((s, vs[0] | vs[1] if n.decl.name == "operator|" else vs[0] & vs[1]))
    return out


MODELS = {"probe::disk": disk, "probe::content_on_disk": content, "std::basic_ostream::write": write,
          "std::basic_ostream::put": write, "std::basic_istream::read": read, "std::basic_ostream::flush": close,
          "std::basic_istream::seekg": seek, "boost::filesystem::file_size": file_size,
          "boost::filesystem::path::has_filename": has_filename, "boost::filesystem::exists": yes,
          "boost::filesystem::is_regular_file": yes, "std::operator|": joined, "std::operator&": joined}
for c in FS:
    b = c.split("::")[-1]
    MODELS.update({c + "::" + b: construct, c + "::close": close, c + "::open": open_, c + "::is_open": is_open})
