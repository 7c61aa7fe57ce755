"""Bit-level abstract values.

A value is a list of bits, least significant first.  Each bit is a boolean function of the input bits, kept as a node
of one shared reduced ordered decision diagram, or TOP (unknown).  A function whose diagram would grow beyond a fixed
size becomes TOP, so every operation is total.
"""
import sys

sys.setrecursionlimit(40000)
TOP = "T"
ZERO, ONE = 0, 1
BUDGET = 60000          # nodes one operation may add
LIMIT = 8000000          # nodes altogether
MAXSUP = 16              # input bits of a pointwise tabulated operation

_INF = 1 << 60
_v = [_INF, _INF]
_lo = [0, 1]
_hi = [0, 1]
_uniq = {}
_and = {}
_xor = {}
_not = {0: 1, 1: 0}
_sup = {0: 0, 1: 0}
_cap = [0]


class Blow(Exception):
    pass


def _mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    r = _uniq.get(k)
    if r is None:
        r = len(_v)
        if r > _cap[0]:
            raise Blow()
        _v.append(v)
        _lo.append(lo)
        _hi.append(hi)
        _uniq[k] = r
    return r


def _guard(f, *a):
    if TOP in a:
        return TOP
    c = len(_v) + BUDGET
    _cap[0] = c if c < LIMIT else LIMIT
    if len(_and) > 3000000:
        _and.clear()
    if len(_xor) > 3000000:
        _xor.clear()
    try:
        return f(*a)
    except Blow:
        return TOP


def _band(a, b):
    if a == b:
        return a
    if a > b:
        a, b = b, a
    if a == 0:
        return 0
    if a == 1:
        return b
    k = (a, b)
    r = _and.get(k)
    if r is not None:
        return r
    va, vb = _v[a], _v[b]
    if va == vb:
        r = _mk(va, _band(_lo[a], _lo[b]), _band(_hi[a], _hi[b]))
    elif va < vb:
        r = _mk(va, _band(_lo[a], b), _band(_hi[a], b))
    else:
        r = _mk(vb, _band(a, _lo[b]), _band(a, _hi[b]))
    _and[k] = r
    return r


def _bnot(a):
    r = _not.get(a)
    if r is None:
        r = _mk(_v[a], _bnot(_lo[a]), _bnot(_hi[a]))
        _not[a] = r
        _not[r] = a
    return r


def _bxor(a, b):
    if a == b:
        return 0
    if a > b:
        a, b = b, a
    if a == 0:
        return b
    if a == 1:
        return _bnot(b)
    k = (a, b)
    r = _xor.get(k)
    if r is not None:
        return r
    va, vb = _v[a], _v[b]
    if va == vb:
        r = _mk(va, _bxor(_lo[a], _lo[b]), _bxor(_hi[a], _hi[b]))
    elif va < vb:
        r = _mk(va, _bxor(_lo[a], b), _bxor(_hi[a], b))
    else:
        r = _mk(vb, _bxor(a, _lo[b]), _bxor(a, _hi[b]))
    _xor[k] = r
    return r


def band(a, b):
    if a == ZERO or b == ZERO:
        return ZERO
    if a == ONE:
        return b
    if b == ONE or a == b:
        return a
    return _guard(_band, a, b)


def bnot(a):
    return _guard(_bnot, a)


def bor(a, b):
    if a == ONE or b == ONE:
        return ONE
    if a == ZERO:
        return b
    if b == ZERO or a == b:
        return a
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if a == ZERO:
        return b
    if b == ZERO:
        return a
    return _guard(_bxor, a, b)


def mux(c, a, b):
    """Bit: c ? a : b."""
    if c == ONE or a == b:
        return a
    if c == ZERO:
        return b
    return bor(band(c, a), band(bnot(c), b))


def var(i):
    _cap[0] = LIMIT
    return _mk(i, 0, 1)


def value(b, var):
    """A bit under a valuation var(i) -> 0/1."""
    while b > 1:
        b = _hi[b] if var(_v[b]) else _lo[b]
    return b


def sup(b):
    """Set of input bits, as a bit mask."""
    r = _sup.get(b)
    if r is None:
        st = [b]
        while st:
            x = st[-1]
            if x in _sup:
                st.pop()
                continue
            l, h = _sup.get(_lo[x]), _sup.get(_hi[x])
            if l is None:
                st.append(_lo[x])
            elif h is None:
                st.append(_hi[x])
            else:
                _sup[x] = l | h | 1 << _v[x]
                st.pop()
        r = _sup[b]
    return r


def overlaps(a, b):
    return bool(sup(a) & sup(b))


# ------------------------------------------------------------------ vectors
def const(v, w):
    return tuple(ONE if v >> i & 1 else ZERO for i in range(w))


def as_int(bits, signed=False):
    v = 0
    for i, b in enumerate(bits):
        if b == ONE:
            v |= 1 << i
        elif b != ZERO:
            return None
    if signed and bits and bits[-1] == ONE:
        v -= 1 << len(bits)
    return v


def support(*vecs):
    """Input bits of the vectors, in order; None if something is unknown."""
    s = 0
    for v in vecs:
        for b in v:
            if b == TOP:
                return None
            s |= sup(b)
    out, i = [], 0
    while s:
        t = s & -s
        out.append(t.bit_length() - 1)
        s ^= t
    return tuple(out)


def ext(bits, w, signed):
    if w <= len(bits):
        return tuple(bits[:w])
    return tuple(bits) + ((bits[-1] if signed else ZERO),) * (w - len(bits))


def add(a, b, cin=ZERO):
    out = []
    c = cin
    for x, y in zip(a, b):
        xy = bxor(x, y)
        out.append(bxor(xy, c))
        c = bor(band(x, y), band(c, xy))
    return tuple(out), c


def neg(a):
    return add([bnot(x) for x in a], const(0, len(a)), ONE)[0]


def sub(a, b):
    r, c = add(a, [bnot(x) for x in b], ONE)
    return r, c              # carry 1: no borrow


def ult(a, b):
    """One bit: a < b unsigned."""
    lt = ZERO
    for x, y in zip(a, b):
        lt = mux(bxor(x, y), y, lt)
    return lt


def slt(a, b):
    a, b = list(a), list(b)
    a[-1], b[-1] = bnot(a[-1]), bnot(b[-1])
    return ult(a, b)


def eq(a, b):
    r = ONE
    for x, y in zip(a, b):
        r = band(r, bnot(bxor(x, y)))
        if r == ZERO:
            return ZERO
    return r


def select(idx, entries, zero=ZERO):
    """Bit: entries[value of idx] (entries beyond the list: zero)."""
    def go(k, base):
        if base >= len(entries):
            return zero
        if k < 0:
            return entries[base]
        a = go(k - 1, base)
        b = go(k - 1, base + (1 << k))
        return mux(idx[k], b, a)
    n = max(1, (len(entries) - 1).bit_length())
    k = min(n, len(idx)) - 1
    return go(k, 0)


def signed_of(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def values(bits, s):
    """The value under every valuation of the input bits s (in order, first is least significant)."""
    n = len(s)
    pos = {v: i for i, v in enumerate(s)}
    out = [0] * (1 << n)
    for i, b in enumerate(bits):
        if b == ZERO:
            continue
        t = _table(b, pos, n)
        w = 1 << i
        for x in range(1 << n):
            if t >> x & 1:
                out[x] |= w
    return out


def _table(b, pos, n):
    full = (1 << (1 << n)) - 1
    memo = {ZERO: 0, ONE: full}

    def go(x):
        r = memo.get(x)
        if r is None:
            v = _var_tt(n, pos[_v[x]])
            r = (go(_lo[x]) & ~v & full) | (go(_hi[x]) & v)
            memo[x] = r
        return r
    return go(b)


_vt = {}


def _var_tt(n, i):
    k = (n, i)
    r = _vt.get(k)
    if r is None:
        blk = 1 << i
        r = ((1 << blk) - 1) << blk
        w = 2 * blk
        while w < 1 << n:
            r |= r << w
            w *= 2
        _vt[k] = r
    return r


def of_values(f, s):
    """Bit: f(x) for the valuation x of the input bits s."""
    vals = [1 if f(x) else 0 for x in range(1 << len(s))]
    _cap[0] = LIMIT
    return _build(s, vals)


def _build(s, vals):
    """vals indexed with s[0] as the least significant bit."""
    cur = vals
    # combine from the last variable (lowest in the diagram) upwards
    for v in reversed(s):
        half = len(cur) // 2
        cur = [_mk(v, cur[x], cur[x + half]) for x in range(half)]
    return cur[0]


def divmod(x, d):
    """Quotient and remainder of unsigned x by a number d > 0, by long division."""
    w = len(x)
    k = d.bit_length() + 1
    r, c, q = (ZERO,) * k, const(d, k), [ZERO] * w
    for i in reversed(range(w)):
        r = (x[i],) + tuple(r[:-1])
        ge = bnot(ult(r, c))
        if ge == TOP:
            return (TOP,) * w, (TOP,) * w
        q[i] = ge
        m = sub(r, c)[0]
        r = tuple(bor(band(ge, a), band(bnot(ge), b)) for a, b in zip(m, r))
    return tuple(q), (tuple(r) + (ZERO,) * w)[:w]


def gen(f, args, w):
    """Pointwise operation; args: [(bits, signed)]; f may return None for undefined."""
    s = support(*[a for a, g in args])
    if s is None or len(s) > MAXSUP:
        return (TOP,) * w
    vs = [[signed_of(x, len(a)) if g else x for x in values(a, s)] for a, g in args]
    rows = []
    for x in range(1 << len(s)):
        r = f(*[v[x] for v in vs])
        rows.append(0 if r is None else r)
    _cap[0] = LIMIT
    return tuple(_build(s, [r >> i & 1 for r in rows]) for i in range(w))


def reset():
    """Forget every diagram.  Only between runs: no bit may be kept."""
    for x in (_v, _lo, _hi):
        del x[2:]
    for d in (_uniq, _and, _xor, _not, _sup):
        d.clear()
    _not.update({0: 1, 1: 0})
    _sup.update({0: 0, 1: 0})


def size():
    return len(_v)
