"""The console: std::cin as a stream of typed lines, and the flags of the terminal it comes from.

The ghost variables are #term (None or the flags), #reads (the flags at every line read) and #ended (how often a read
found no line)."""
from . import bits as B, streammodel as SM
from .absint import N, P, Seq, Obj, Unk, Undecided, INT, bare, strip_targs

CIN = ("g", "std::cin")
TERM, READS, ENDED = ("g", "#term"), ("g", "#reads"), ("g", "#ended")
SPACE = (32, 9, 10, 11, 12, 13)


def cin(st):
    return st.mem.setdefault(CIN, SM.fresh())


def is_char(I, st, x, c):
    if isinstance(x, int):
        return x & 255 == c
    if isinstance(x, N):
        b = B.eq(I.nbits(x, 8), I.nbits(c, 8))
        if b == B.ZERO or st.restrict(b) is None:
            return False
        if b == B.ONE or st.restrict(B.bnot(b)) is None:
            return True
    raise Undecided("whether a character read is %r" % chr(c))


def getline(I, n, st, fr):
    from .stdmodel import I_canon
    out = []
    for s, p in I.lv(n.args[0], st, fr):
        p = I_canon(I, s, p)
        if p.root == CIN:
            cin(s)
        for s2, t in I.lv(n.args[1], s, fr):
            o = I.load(s2, p, n)
            if not SM.is_stream(o) or not isinstance(o.f["s"], Seq):
                raise Undecided("getline at %s" % n.loc)
            ty, items, g = o.f["s"].ty, o.f["s"].items, o.f.get("g", 0)
            if p.root == CIN:
                s2.mem[READS] = Seq(s2.mem.get(READS, Seq((), "")).items + (s2.mem.get(TERM),), "")
                if g >= len(items) or o.f.get("bad"):
                    s2.mem[ENDED] = s2.mem.get(ENDED, 0) + 1
                    if s2.mem[ENDED] > 3:
                        I.note_oob(n, "input that has ended is read again and again")
                        continue
            if o.f.get("bad"):
                out.append((s2, p))
                continue
            j = g
            while j < len(items) and not is_char(I, s2, items[j], 10):
                j += 1
            I.put(s2, t, Seq(items[g:j], "std::basic_string<char>"), n)
            I.put(s2, p, Obj("stream", dict(o.f, g=min(j + 1, len(items)), bad=int(g >= len(items)))), n)
            out.append((s2, p))
    return out


def extract(I, n, st, fr):
    """Formatted input of a number or a word."""
    from .stdmodel import I_canon
    ks = n.kids if n.obj is None else [n.obj] + list(n.args)
    if len(ks) != 2:
        return None
    out = []
    for s, p in I.lv(ks[0], st, fr):
        p = I_canon(I, s, p)
        if p.root == CIN:
            cin(s)
        for s2, t in I.lv(ks[1], s, fr):
            o = I.load(s2, p, n)
            if not SM.is_stream(o) or not isinstance(o.f["s"], Seq):
                return None
            ty = bare(ks[1].type)
            items, g = o.f["s"].items, o.f.get("g", 0)
            if o.f.get("bad"):
                out.append((s2, p))
                continue
            while g < len(items) and any(is_char(I, s2, items[g], c) for c in SPACE):
                g += 1
            j = g
            if strip_targs(ty) == "std::basic_string":
                while j < len(items) and not any(is_char(I, s2, items[j], c) for c in SPACE):
                    j += 1
                v, bad = Seq(items[g:j], "std::basic_string<char>"), int(j == g)
            elif INT.get(ty) and ty not in ("char", "unsigned char", "signed char", "bool"):
                w, sg = INT[ty]
                if j < len(items) and (is_char(I, s2, items[j], 43) or is_char(I, s2, items[j], 45)):
                    j += 1
                k = j
                while j < len(items) and any(is_char(I, s2, items[j], c) for c in range(48, 58)):
                    j += 1
                if j == k:
                    v, bad = 0, 1
                else:
                    if any(not isinstance(x, int) for x in items[g:j]):
                        raise Undecided("the number read at %s" % n.loc)
                    v, bad = int("".join(chr(x) for x in items[g:j])), 0
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                    if not sg and v < 0 and -v <= hi:
                        v = (1 << w) + v
                    if v < lo or v > hi:
                        v, bad = (lo if v < lo and sg else hi), 1
            else:
                return None
            if not (bad and isinstance(v, Seq)):
                I.put(s2, t, v, n)
            I.put(s2, p, Obj("stream", dict(o.f, g=j, bad=bad)), n)
            out.append((s2, p))
    return out


# ---------------------------------------------------------------- the terminal
def tcgetattr(I, n, st, fr):
    out = []
    for s, vs in I.evs(n.args, st, fr):
        t = s.mem.get(TERM)
        if t is not None:
            I.put(s, vs[1], Obj("termios", {"c_lflag": t, "#all": 1}), n)
        else:
            I.put(s, vs[1], Obj("termios", {"c_lflag": Unk("unsigned int", "uninitialised")}), n)
        out.append((s, 0 if t is not None else -1))
    return out


def tcsetattr(I, n, st, fr):
    out = []
    for s, vs in I.evs(n.args, st, fr):
        o = I.load(s, vs[2], n)
        if s.mem.get(TERM) is None:
            out.append((s, -1))
            continue
        if not isinstance(o, Obj) or "#all" not in o.f:
            I.note_oob(n, "the terminal is set from flags that were not got from it")
        else:
            s.mem[TERM] = o.f["c_lflag"]
        out.append((s, 0))
    return out


# ---------------------------------------------------------------- boost::tokenizer
def separator(I, n, st, fr):
    from .stdmodel import seqof
    out = []
    for s, vs in I.evs(n.kids, st, fr):
        kept = vs[1] if len(vs) == 3 else None
        if isinstance(kept, P) or isinstance(kept, Seq):
            kept = len([x for x in seqof(I, s, kept, n).items if x != 0])
        if len(vs) != 3 or kept != 0 or vs[2] not in (0, 1):        # kept delimiters, empty tokens
            out.append((s, Unk("separator", "separator")))
            continue
        q = seqof(I, s, vs[0], n)
        items = [x for x in q.items]
        if items and items[-1] == 0:
            items.pop()
        out.append((s, Obj("boost::char_separator", {"drop": Seq(items, "chars"), "keep": vs[2]})))
    return out


def tokenizer(I, n, st, fr):
    from .stdmodel import seqof
    from .nummodel import split
    out = []
    for s, vs in I.evs(n.kids, st, fr):
        if isinstance(vs[0], Unk):
            out.append((s, Unk("tokenizer", "tokens")))
            continue
        q, f = seqof(I, s, vs[0], n), I.load(s, vs[1], n) if len(vs) > 1 and isinstance(vs[1], P) else vs[-1]
        if not isinstance(q, Seq) or not (isinstance(f, Obj) and "drop" in f.f):
            out.append((s, Unk("tokenizer", "tokens")))
            continue
        live = [(s, [], [])]
        for x in q.items:
            nx = []
            for s1, words, cur in live:
                yes, no = split(I, s1, x, [c & 255 for c in f.f["drop"].items])
                if yes is not None:
                    nx.append((yes, words + [cur] if cur or f.f["keep"] else words, []))
                if no is not None:
                    nx.append((no, words, cur + [x]))
            live = nx
        t = "std::basic_string<char>"
        for s1, words, cur in live:
            words = words + [cur] if cur or f.f["keep"] and q.items else words
            out.append((s1, Seq([Seq(w, t) for w in words], "std::vector<%s>" % t)))
    return out


def m_first(I, n, st, fr):
    from .stdmodel import objplace
    return [(s, p.at(0)) for s, p in objplace(I, n, st, fr)]


def m_last(I, n, st, fr):
    from .stdmodel import objplace
    return [(s, p.at(len(I.load(s, p, n).items))) for s, p in objplace(I, n, st, fr)]


def m_iter(I, n, st, fr):
    from .stdmodel import iterator_op
    return iterator_op(I, n, n.decl, st, fr)


def m_post(I, n, st, fr):
    """it++: the iterator as it was."""
    from .stdmodel import I_canon
    out = []
    for s, p in I.lv(n.args[0], st, fr):
        p = I_canon(I, s, p)
        old = I.load(s, p, n)
        if not isinstance(old, P):
            raise Undecided("an iterator of tokens at %s" % n.loc)
        I.put(s, p, old.plus(1), n)
        out.append((s, old))
    return out


def m_value(I, n, st, fr):
    from .stdmodel import objplace
    out = []
    for s, p in objplace(I, n, st, fr):
        v = I.load(s, p, n) if isinstance(p, P) and not isinstance(I.load(s, p, n), Seq) else p
        out.append((s, v))
    return out


# ---------------------------------------------------------------- what drivers ask
def m_types(I, n, st, fr):
    from .stdmodel import seqof
    out = []
    for s, v in I.ev(n.args[0], st, fr):
        q = seqof(I, s, v, n)
        o = cin(s)
        s.mem[CIN] = Obj("stream", dict(o.f, s=Seq(o.f["s"].items + tuple(q.items) + (10,), o.f["s"].ty)))
        out.append((s, None))
    return out


def m_terminal(I, n, st, fr):
    out = []
    for s, v in I.ev(n.args[0], st, fr):
        s.mem[TERM] = v
        out.append((s, None))
    return out


def m_flags(I, n, st, fr):
    return [(st, st.mem.get(TERM) if st.mem.get(TERM) is not None else 0)]


def m_reads(I, n, st, fr):
    return [(st, len(st.mem.get(READS, Seq((), "")).items))]


def m_flags_at(I, n, st, fr):
    return [(s, s.mem[READS].items[i]) for s, i in I.ev(n.args[0], st, fr)]


def m_left(I, n, st, fr):
    o = cin(st)
    return [(st, int(o.f.get("g", 0) < len(o.f["s"].items)))]


def m_hash(I, n, st, fr):
    """A stand-in for a hash function: different short texts have different hashes."""
    from .stdmodel import seqof, make_object
    out = []
    for s, v in I.lv(n.args[0], st, fr):
        q = seqof(I, s, v, n)
        if not isinstance(q, Seq):
            raise Undecided("what is hashed at %s" % n.loc)
        items = ((len(q.items),) + tuple(q.items) + (0,) * 64)[:64]
        for s2, o in make_object(I, s, bare(n.type), [I.temp(s, Seq(items, "std::basic_string<char>"))], n) or []:
            out.append((s2, o))
    return out


MODELS = {"probe::types": m_types, "probe::terminal": m_terminal, "probe::flags": m_flags, "probe::reads": m_reads,
          "probe::flags_at": m_flags_at, "probe::lines_left": m_left, "std::getline": getline,
          "boost::char_separator::char_separator": separator, "boost::tokenizer::tokenizer": tokenizer,
          "boost::iterators::operator!=": m_iter, "boost::iterators::detail::iterator_facade_base::operator*": m_iter,
          "boost::iterators::detail::iterator_facade_base::operator->": m_iter,
          "boost::iterators::detail::iterator_facade_base::operator++": m_iter, "boost::iterators::operator++": m_post,
          "boost::iterators::detail::postfix_increment_proxy::operator*": m_value, "boost::iterators::operator==": m_iter,
          "boost::tokenizer::begin": m_first, "boost::tokenizer::end": m_last, "tcgetattr": tcgetattr, "tcsetattr": tcsetattr}
