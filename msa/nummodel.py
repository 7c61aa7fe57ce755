"""Numbers read from text: std::stoi and its relatives, on characters known or not."""
from . import bits as B
from .absint import P, N, NS, Seq, Obj, Unk, Err, Undecided

LIMITS = {"std::stoi": (-2 ** 31, 2 ** 31 - 1), "std::stol": (-2 ** 63, 2 ** 63 - 1), "std::stoll": (-2 ** 63, 2 ** 63 - 1),
          "std::stoul": (0, 2 ** 64 - 1), "std::stoull": (0, 2 ** 64 - 1)}
SPACE = (32, 9, 10, 11, 12, 13)


def among(I, x, chars):
    b = B.ZERO
    for c in chars:
        b = B.bor(b, B.eq(I.nbits(x, 8), I.nbits(c, 8)))
    return b


def split(I, s, x, chars):
    """(the state in which x is one of the characters, the state in which it is not), either None."""
    if isinstance(x, int):
        return (s, None) if x & 255 in chars else (None, s)
    if not isinstance(x, N):
        raise Undecided("a character of a number")
    b = among(I, x, chars)
    if b == B.TOP:
        raise Undecided("a character of a number")
    return s.restrict(b), s.restrict(B.bnot(b))


def number(I, s, items, lo, hi, n):
    """[(state, value or None for no number, or "range")]"""
    out = []
    work = [(s, 0, 0, False, 0, 0)]         # state, position, phase, negative, value, digits
    while work:
        s, i, phase, neg, val, nd = work.pop()
        if i < len(items):
            x = items[i]
            if phase == 0:
                a, s = split(I, s, x, SPACE)
                if a is not None:
                    work.append((a, i + 1, 0, neg, val, nd))
                if s is None:
                    continue
                for c in (45, 43):
                    a, s = split(I, s, x, (c,))
                    if a is not None:
                        work.append((a, i + 1, 1, c == 45, val, nd))
                    if s is None:
                        break
                if s is None:
                    continue
            a, s = split(I, s, x, range(48, 58))
            if a is not None:
                if isinstance(x, int) and isinstance(val, int):
                    v = val * 10 + (x & 255) - 48
                else:
                    d = NS(tuple(I.nbits(x, 8)[:4]) + (B.ZERO,) * 60)
                    v = I.arith("+", I.arith("*", val, 10, (64, True), n), d, (64, True), n)
                if nd > 17 and not isinstance(v, int):
                    raise Undecided("a number of many digits at %s" % n.loc)
                work.append((a, i + 1, 2, neg, v, nd + 1))
            if s is None:
                continue
        if not nd:
            out.append((s, None))
            continue
        if isinstance(val, int):
            val = -val if neg else val
            out.append((s, val if lo <= val <= hi or lo == 0 and -hi <= val < 0 else "range"))
            continue
        if neg:
            val = I.arith("-", 0, val, (64, True), n)
        if lo == 0 and neg or nd > 18:
            raise Undecided("a number at %s" % n.loc)
        if lo > -2 ** 63 and lo != 0:
            b = B.band(B.bnot(B.slt(val, B.const(lo & (1 << 64) - 1, 64))), B.bnot(B.slt(B.const(hi, 64), val)))
            if b == B.TOP:
                raise Undecided("a number at %s" % n.loc)
            over = s.restrict(B.bnot(b))
            if over is not None:
                out.append((over, "range"))
            s = s.restrict(b)
            if s is None:
                continue
        out.append((s, val))
    return out


def stoi(I, n, st, fr):
    from .stdmodel import seqof
    lo, hi = LIMITS[n.decl.q]
    w = 32 if hi == 2 ** 31 - 1 else 64
    out = []
    for s, vs in I.evs(n.args, st, fr):
        if len(vs) > 1 and vs[1] != 0 or len(vs) > 2 and vs[2] != 10:
            raise Undecided("%s at %s" % (n.decl.q, n.loc))
        q = seqof(I, s, vs[0], n)
        for s2, v in number(I, s, q.items, lo, hi, n):
            if v is None:
                I.sink[-1].append((s2, Err("std::invalid_argument")))
            elif v == "range":
                I.sink[-1].append((s2, Err("std::out_of_range")))
            else:
                out.append((s2, I.wrap(v, (w, lo != 0))))
    return out


MODELS = {q: stoi for q in LIMITS}
