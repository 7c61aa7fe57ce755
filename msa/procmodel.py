"""What the operating system says: a process that is there or not, a link that can be read or not."""
from . import pathmodel
from .absint import P, Seq, Obj, Unk, Err, Undecided, bare

PROCESS, LINK, ERRNO, ME, WRONG = ("g", "#process"), ("g", "#link"), ("g", "#errno"), ("g", "#me"), ("g", "#wrong")


def word(where):
    def f(I, n, st, fr):
        from .stdmodel import seqof
        out = []
        for s, vs in I.evs(n.args, st, fr):
            s.mem[where] = seqof(I, s, vs[0], n) if where == LINK and len(vs) == 1 and not isinstance(vs[0], int) else \
                tuple(vs) if len(vs) > 1 else vs[0]
            out.append((s, None))
        return out
    return f


def errno(I, n, st, fr):
    st.mem.setdefault(ERRNO, 0)
    return [(st, P(ERRNO))]


def kill(I, n, st, fr):
    out = []
    for s, vs in I.evs(n.args, st, fr):
        if vs[1] != 0:
            I.note_oob(n, "a signal is sent")
        pid, code = s.mem.get(PROCESS, (None, None))
        if pid is None or pid != vs[0]:
            raise Undecided("which process is asked for at %s" % n.loc)
        if code:
            s.mem[ERRNO] = code
        out.append((s, -1 if code else 0))
    return out


def getpid(I, n, st, fr):
    return [(st, st.mem[ME])]


def readlink(I, n, st, fr):
    out = []
    for s, vs in I.evs(n.args, st, fr):
        v = s.mem.get(LINK)
        size = vs[2]
        if not isinstance(size, int) or not isinstance(vs[1], P):
            raise Undecided("readlink at %s" % n.loc)
        if isinstance(v, int) or v is None:
            s.mem[ERRNO] = 2
            out.append((s, -1))
            continue
        base = I.load(s, P(vs[1].root, vs[1].sels[:-1]), n)
        if isinstance(base, Seq) and vs[1].sels[-1] + size > len(base.items):
            I.note_oob(n, "more room is promised than there is")
        for i, x in enumerate(v.items[:size]):
            I.put(s, vs[1].plus(i), x, n)
        out.append((s, min(size, len(v.items))))
    return out


def call_once(I, n, st, fr):
    from .stdmodel import I_canon
    out = []
    for s, p in I.lv(n.args[0], st, fr):
        p = I_canon(I, s, p)
        key = ("g", "#once", p.root, p.sels)
        for s2, vs in I.evs(n.args[1:], s, fr):
            if s2.mem.get(key):
                out.append((s2, None))
                continue
            for s3, _ in I.apply(vs[0], vs[1:], s2, n):
                s3.mem[key] = 1
                out.append((s3, None))
    return out


def absolute(I, n, st, fr):
    out = []
    for s, vs in I.evs(n.args[:1], st, fr):
        t = pathmodel.known(pathmodel.text(I, s, vs[0], n), n)
        if s.mem.get(WRONG):
            I.sink[-1].append((s, Err("filesystem_error", "boost::filesystem::filesystem_error")))
        else:
            out.append((s, pathmodel.make(t if t and t[0] == 47 else tuple(b"/here/") + t)))
    return out


def flag(I, n, st, fr):
    return [(st, Obj("once", {}))]


MODELS = {"probe::process": word(PROCESS), "probe::link": word(LINK), "probe::no_link": word(LINK), "probe::self": word(ME),
          "probe::no_directory": word(WRONG), "__errno_location": errno, "kill": kill, "getpid": getpid, "readlink": readlink,
          "std::call_once": call_once, "std::once_flag::once_flag": flag, "boost::filesystem::absolute": absolute}
