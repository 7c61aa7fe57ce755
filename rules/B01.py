"""Hexadecimal encoding and decoding."""
from msa import bits as B, purefn as F
from msa.absint import Err, Seq

ALPHA = b"0123456789abcdef"
NS_ = "maidsafe::hex::"
SRC = ("drivers/encode.cc", "src/maidsafe/common/encode.cc")


def enc_spec(inp):
    out = []
    for c in inp.items:
        out.append(F.table(ALPHA, tuple(c[4:8])))
        out.append(F.table(ALPHA, tuple(c[0:4])))
    return out


def abbreviated(spec):
    if len(spec) <= 14:
        return spec
    dot = B.const(ord("."), 8)
    return spec[:6] + [dot, dot] + spec[-6:]


def encoders(ctx, P, ns, spec_of, lens, run, least=2):
    fns = P.find(ns + "Encode")
    ctx.need(len(fns), least, "instantiations of %sEncode" % ns)
    subs = P.find(ns + "Substr")
    ctx.need(len(subs), 1, "instantiations of %sSubstr" % ns)
    for fn in fns + subs:
        ty = F.STRING if "basic_string" in fn.decl.ptypes[0] else F.BYTES
        sub = fn in subs
        for n in lens:
            inst = "%s, %d bytes" % (F.name(fn), n)
            inp = F.chars(n, ty)
            spec = spec_of(inp)
            if sub:
                spec = abbreviated(spec)
            rule = "substr" if sub else "encode"
            out = run(rule, inst, fn, [inp])
            for kind, st, v in out:
                if kind == "throw":
                    ctx.ob(rule, inst, fn.loc, False, "it can throw %r" % (v,), key="%s|throws" % fn.q, st=st)
                    continue
                m = F.seq_differs(st, v, spec)
                ctx.ob(rule, inst, fn.loc, m is None, m or "", key="%s|value" % fn.q, st=st)
            ctx.ob(rule, inst + ": returns", fn.loc, any(k == "ret" for k, s, v in out),
                   "it never returns normally", key="%s|noreturn" % fn.q)


def check(ctx):
    ctx.rule("encode", "for every input of the given length, output character 2i is the alphabet's digit for the high "
                       "nibble of byte i and 2i+1 the one for the low nibble, and nothing is thrown")
    ctx.rule("decode", "for every input of the given length, decoding returns only when the length is even and every "
                       "character is a lower-case digit of the alphabet, and then returns exactly the bytes whose "
                       "encoding it was; otherwise it throws invalid_conversion")
    ctx.rule("substr", "the abbreviation is the encoding itself up to 14 characters, else its first and last six "
                       "around two dots")
    P = ctx.prog(*SRC)
    run = F.Run(ctx, P)
    q = ctx.tier != "thorough"
    encoders(ctx, P, NS_, enc_spec, range(0, 10) if q else range(0, 41), run)
    decs = P.find(NS_ + "DecodeToString") + P.find(NS_ + "DecodeToBytes")
    ctx.need(len(decs), 2, "hex decoders")
    for fn in decs:
        for n in (range(0, 11) if q else range(0, 33)):
            inst = "%s, %d characters" % (F.name(fn), n)
            inp = F.chars(n)
            preds = [F.member(ALPHA, tuple(c)) for c in inp.items]
            vals = [F.value_of(ALPHA, tuple(c), 4) for c in inp.items]
            spec = [vals[2 * i + 1] + vals[2 * i] for i in range(n // 2)]
            rets = 0
            for kind, st, v in run("decode", inst, fn, [inp]):
                if kind == "throw":
                    ctx.ob("decode", inst, fn.loc, isinstance(v, Err) and v.name == "invalid_conversion",
                           "it can throw %r instead of invalid_conversion" % (v,), key="%s|wrongerror" % fn.q, st=st)
                    if n % 2 == 0:
                        ctx.ob("decode", inst, fn.loc, not F.conj(st, preds), "a well-formed input can be refused",
                               key="%s|refused" % fn.q, st=st)
                    continue
                rets += 1
                if n % 2:
                    ctx.ob("decode", inst, fn.loc, False, "an input of odd length can be accepted",
                           key="%s|oddaccepted" % fn.q, st=st)
                    continue
                bad = F.implies(st, preds)
                ctx.ob("decode", inst, fn.loc, bad is None,
                       "an input whose character %s is not a digit can be accepted" % bad, key="%s|accepted" % fn.q, st=st)
                if bad is None:
                    m = F.seq_differs(st, v, spec)
                    ctx.ob("decode", inst, fn.loc, m is None, m or "", key="%s|value" % fn.q, st=st)
            if n % 2 == 0:
                ctx.ob("decode", inst + ": accepts", fn.loc, rets > 0, "no input is accepted", key="%s|none" % fn.q)
