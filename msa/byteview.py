"""Objects seen as bytes (x86-64 layout): what reinterpret_cast<const byte*>(&x) and memcpy see.

A pointer into an object's representation is P(root, place..., ("#b", T, flag), offset); flag "e" says the place is a
sequence of T (so that the pointer may walk over several elements), "o" that it is one T."""
import struct
from . import bits as B
from .absint import P, Seq, Obj, N, NS, Unk, Undecided, INT, bare, strip_targs

FLOAT = {"float": 4, "double": 8}


def scalar(I, t):
    """(bytes, signed, bits) of a scalar type, or None."""
    it = INT.get(t)
    if it is None and strip_targs(t) in I.enums:
        it = I.enumty[strip_targs(t)]
    if it is not None:
        return (max(8, it[0]) // 8, it[1], it[0])
    if t in FLOAT:
        return (FLOAT[t], False, FLOAT[t] * 8)
    return None


def layout(I, t):
    """(size, alignment, [(offset, path, scalar)])"""
    t = bare(t)
    s = scalar(I, t)
    if s is not None:
        return s[0], s[0], [(0, (), s)]
    from .nodemodel import targs
    q = strip_targs(t)
    if q == "std::pair":
        off, al, out = 0, 1, []
        for name, x in zip(("first", "second"), targs(t)):
            size, a, parts = layout(I, x)
            off = -(-off // a) * a
            out += [(off + o, (name,) + p, sc) for o, p, sc in parts]
            off, al = off + size, max(al, a)
        return -(-off // al) * al, al, out
    if q == "std::array":
        x = targs(t)
        size, a, parts = layout(I, x[0])
        k = int(x[1].rstrip("UL"))
        return size * k, a, [(size * i + o, (i,) + p, sc) for i in range(k) for o, p, sc in parts]
    raise Undecided("layout of %s" % t)


def dig(v, path):
    for k in path:
        if isinstance(v, Obj):
            v = v.f.get(k, Unk("?", "member"))
        elif isinstance(v, Seq):
            v = v.items[k] if k < len(v.items) else Unk("?", "element")
        else:
            return Unk("?", getattr(v, "why", ""))
    return v


def to_bytes(I, v, sc):
    n, sg, w = sc
    if isinstance(v, Seq) and v.ty == "#bytes":
        return list(v.items)
    if not isinstance(v, (int, N)):
        return [Unk("unsigned char", getattr(v, "why", ""))] * n
    bits = I.nbits(v, w) if w >= 8 else tuple(I.nbits(v, 1)) + (B.ZERO,) * 7
    out = []
    for k in range(n):
        b = bits[8 * k:8 * k + 8]
        i = B.as_int(b, False)
        out.append(i if i is not None else N(b))
    return out


def from_bytes(I, bs, sc):
    n, sg, w = sc
    if any(not isinstance(b, (int, N)) for b in bs):
        return Seq(bs, "#bytes")
    bits = ()
    for b in bs:
        bits += tuple(I.nbits(b, 8))
    bits = bits[:w]
    i = B.as_int(bits, sg)
    return i if i is not None else (NS if sg else N)(bits)


def image(I, v, t):
    """Bytes of one object of type t."""
    size, al, parts = layout(I, t)
    out = [Unk("unsigned char", "padding")] * size
    for off, path, sc in parts:
        out[off:off + sc[0]] = to_bytes(I, dig(v, path), sc)
    return out


def view(I, st, v, s, n):
    if isinstance(v, Unk):
        return v
    if s[2] == "e":
        if not isinstance(v, Seq):
            raise Undecided("bytes of %r at %s" % (v, n.loc if n else "?"))
        out = []
        for x in v.items:
            out += image(I, x, s[1])
        return Seq(out, "std::vector<unsigned char>")
    return Seq(image(I, v, s[1]), "std::vector<unsigned char>")


def write(I, base, s, rest, v, n):
    size, al, parts = layout(I, s[1])
    if len(rest) != 1 or not isinstance(rest[0], int):
        raise Undecided("byte write at %s" % (n.loc if n else "?"))
    k = rest[0]
    if s[2] == "e":
        if not isinstance(base, Seq) or not 0 <= k // size < len(base.items):
            I.note_oob(n, "bytes beyond the object are written")
            return base
        it = list(base.items)
        it[k // size] = write(I, it[k // size], (s[0], s[1], "o"), (k % size,), v, n)
        return Seq(it, base.ty)
    if not 0 <= k < size:
        I.note_oob(n, "bytes beyond the object are written")
        return base
    for off, path, sc in parts:
        if off <= k < off + sc[0]:
            old = dig(base, path) if base is not None else Unk("?")
            bs = to_bytes(I, old, sc)
            bs[k - off] = v
            new = from_bytes(I, bs, sc)
            return I.upd(base, path, new, n) if path else new
    return base


def pointee(t):
    t = t[:-1].strip() if t.endswith("*") else t
    return bare(t)


def cast(I, st, v, src, dst, n):
    if not isinstance(v, P):
        return v
    a, b = pointee(src), pointee(dst)
    sa, sb = scalar(I, a), scalar(I, b)
    tobyte = b == "void" or sb is not None and sb[0] == 1 and b != "bool"
    i = len(v.sels) - 2
    if i >= 0 and isinstance(v.sels[i], tuple) and v.sels[i][0] == "#b":
        if tobyte:
            return v
        T, flag, off = v.sels[i][1], v.sels[i][2], v.sels[i + 1]
        size = layout(I, T)[0]
        if T == b and isinstance(off, int) and off % size == 0 and (flag == "e" or off == 0):
            return P(v.root, v.sels[:i] + ((off // size,) if flag == "e" else ()))
        if sb is None:
            return v
        raise Undecided("an object of type %s is read as %s at %s" % (T, b, n.loc))
    if not tobyte:
        if sb is not None and sa is not None and sa[0] != sb[0]:
            raise Undecided("an object of type %s is read as %s at %s" % (a, b, n.loc))
        return v
    inseq = bool(v.sels) and isinstance(v.sels[-1], int)
    if sa is not None and sa[0] == 1 and a != "bool" and inseq:
        return v
    if a == "void":
        return v
    try:
        size = layout(I, a)[0]
    except Undecided:
        return v
    if inseq:
        return P(v.root, v.sels[:-1] + (("#b", a, "e"), v.sels[-1] * size))
    return P(v.root, v.sels + (("#b", a, "o"), 0))


# ---------------------------------------------------------------- floating point, as bit patterns
def literal(I, n):
    h = n.o.get("bits")
    return int(h, 16) if h is not None else Unk(bare(n.type), "floating literal")


def unpack(v, t):
    return struct.unpack("<f" if t == "float" else "<d", v.to_bytes(FLOAT[t], "little"))[0]


def pack(x, t):
    try:
        return int.from_bytes(struct.pack("<f" if t == "float" else "<d", x), "little")
    except (OverflowError, ValueError):
        return Unk(t, "float")


def float_cast(I, v, src, dst):
    if src in FLOAT and dst == src:
        return v
    if isinstance(v, int):
        try:
            x = unpack(v, src) if src in FLOAT else v
            if dst in FLOAT:
                return pack(float(x), dst)
            if dst == "bool":
                return int(x != 0)
            it = INT.get(dst)
            if it:
                return I.wrap(int(x), it)
        except (OverflowError, ValueError):
            pass
    if dst == "bool" and src in FLOAT and isinstance(v, N):
        return B_not(is_zero(I, v, FLOAT[src] * 8))
    return Unk(dst, "float conversion")


def B_not(v):
    return 1 - v if isinstance(v, int) else N((B.bnot(v[0]),))


def is_zero(I, v, w):
    bits = I.nbits(v, w)[:w - 1]
    r = B.eq(bits, B.const(0, w - 1))
    return 1 if r == B.ONE else 0 if r == B.ZERO else N((r,))


def float_bin(I, op, a, b, t):
    """Comparison or arithmetic of two floating-point values of type t; Unk where the abstraction cannot say."""
    w = FLOAT.get(t)
    if w is None:
        return Unk("?", "floating point")
    if isinstance(a, int) and isinstance(b, int):
        x, y = unpack(a, t), unpack(b, t)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return int({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        try:
            return pack({"+": x + y, "-": x - y, "*": x * y, "/": x / y if y else float("nan")}[op], t)
        except (KeyError, OverflowError):
            return Unk(t, "floating point")
    if op in ("==", "!="):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(a, N) and isinstance(b, int):
            y = unpack(b, t)
            if y != y:
                r = 0
            elif y == 0:
                r = is_zero(I, a, w * 8)
            else:
                r = I.compare("==", a, b, False, w * 8)
            if isinstance(r, Unk):
                return r
            return r if op == "==" else B_not(r)
    return Unk("?", "floating point")
