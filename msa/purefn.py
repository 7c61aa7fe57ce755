"""Deciding what a pure function returns: obligations over the outcomes of the abstract interpreter."""
from . import absint as A, bits as B
from .absint import Seq, N, NS, Err, Unk, P

STRING = "std::basic_string<char>"
BYTES = "std::vector<unsigned char>"


def chars(n, ty=STRING, base=0):
    """n unconstrained elements; element i owns input bits base+8i .. base+8i+7."""
    k = NS if "basic_string" in ty else N
    return Seq([k(B.var(base + 8 * i + b) for b in range(8)) for i in range(n)], ty)


def chunk(s, n):
    """Distinct functions of one name, by parameter list."""
    return s


def bits8(v):
    """Eight bits of an element."""
    if isinstance(v, int):
        return B.const(v & 255, 8)
    if isinstance(v, N):
        return B.ext(v, 8, isinstance(v, NS))
    return None


def differs(st, a, spec):
    """Can element a differ from the bits `spec` under st's constraints?  True / False / None = unknown."""
    x = bits8(a)
    if x is None:
        return None
    for p, q in zip(x, spec):
        d = B.bxor(p, q)
        if d == B.TOP:
            return None
        if d != B.ZERO and st.restrict(d) is not None:
            return True
    return False


def seq_differs(st, v, spec):
    """None: equal; else a message."""
    if not isinstance(v, Seq):
        return "the result's value cannot be determined (%r)" % (v,)
    if len(v.items) != len(spec):
        return "the result has %d elements, not %d" % (len(v.items), len(spec))
    for i, (a, b) in enumerate(zip(v.items, spec)):
        d = differs(st, a, b)
        if d is None:
            return "element %d of the result cannot be determined" % i
        if d:
            return "element %d of the result is not what the specification gives for every input" % i
    return None


def table(alpha, bits):
    """Bits of alpha[value(bits)]."""
    return B.gen(lambda i: alpha[i], [(tuple(bits), False)], 8)


def member(alpha, bits):
    """One bit: the character is in the alphabet."""
    s = set(alpha)
    return B.gen(lambda c: 1 if c in s else 0, [(tuple(bits), False)], 1)[0]


def value_of(alpha, bits, w):
    inv = {c: i for i, c in enumerate(alpha)}
    return B.gen(lambda c: inv.get(c), [(tuple(bits), False)], w)


def conj(st, preds):
    """Is the conjunction of predicate bits possible under st?"""
    s = st
    for p in preds:
        if p == B.TOP:
            return True
        s = s.restrict(p)
        if s is None:
            return False
    return True


def implies(st, preds):
    """First predicate that can fail under st, or None."""
    for i, p in enumerate(preds):
        if p == B.TOP or st.restrict(B.bnot(p)) is not None:
            return i
    return None


def name(fn):
    p = ", ".join(t.replace("std::basic_string<char>", "string").replace("const ", "").rstrip(" &")
                  for t in fn.decl.ptypes)
    return "%s(%s)->%s" % (fn.q.replace("maidsafe::", ""), p,
                           fn.decl.rettype.replace("std::basic_string<char>", "string"))


class Run:
    """One abstract execution and the generic obligations on it."""
    def __init__(self, ctx, prog, models=None, **kw):
        self.ctx, self.prog, self.models, self.kw = ctx, prog, models, kw

    def __call__(self, rule, inst, fn, args, this=None, st=None):
        I = A.Interp(self.prog, self.models, **self.kw)
        out = I.run(fn, args, this, st)
        self.last = I
        self.ctx.saw(*I.functions)
        self.ctx.configs += I.steps
        if any(l not in I.sure for l in I.oob):
            self.ctx.undecided(rule, inst, "reached only through a branch the domain cannot decide: %s" % I.oob)
            return out
        for loc, msg in sorted(I.oob.items()):
            self.ctx.ob(rule, inst, loc, False, "undefined behaviour is reachable: " + msg,
                        key="%s|ub|%s" % (fn.q, msg.split(" of ")[0].split(" ")[0]))
        if not I.oob:
            self.ctx.ob(rule, inst + ": no access out of range", fn.loc, True)
        return out
