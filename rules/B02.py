"""Base-64 encoding and decoding."""
from msa import bits as B, purefn as F
from msa.absint import Err
from rules.B01 import SRC, encoders

ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
NS_ = "maidsafe::base64::"
PAD = ord("=")


def enc_spec(inp):
    out = []
    b = [tuple(c) for c in inp.items]
    z = B.const(0, 8)
    for i in range(0, len(b), 3):
        g = b[i:i + 3]
        k = len(g)
        g = g + [z] * (3 - k)
        word = g[2] + g[1] + g[0]               # least significant bit first
        q = [F.table(ALPHA, word[18 - 6 * j:24 - 6 * j]) for j in range(4)]
        for j in range(k + 1, 4):
            q[j] = B.const(PAD, 8)
        out += q
    return out


def check(ctx):
    ctx.rule("encode", "for every input of the given length the output is the standard base-64 text: each three bytes "
                       "give four alphabet characters, a final one or two bytes are padded with two or one '='")
    ctx.rule("decode", "for every input of the given length, decoding returns only when the length is a multiple of "
                       "four, padding is absent or is one or two final '=' and every other character is in the "
                       "alphabet; it then returns exactly the encoded bytes; otherwise it throws invalid_conversion")
    ctx.rule("substr", "the abbreviation is the encoding itself up to 14 characters, else its first and last six "
                       "around two dots")
    P = ctx.prog(*SRC)
    run = F.Run(ctx, P)
    q = ctx.tier != "thorough"
    encoders(ctx, P, NS_, enc_spec, range(0, 14) if q else range(0, 49), run)
    decs = P.find(NS_ + "DecodeToString") + P.find(NS_ + "DecodeToBytes")
    ctx.need(len(decs), 2, "base-64 decoders")
    for fn in decs:
        for n in (range(0, 14) if q else range(0, 33)):
            inst = "%s, %d characters" % (F.name(fn), n)
            inp = F.chars(n)
            inal = [F.member(ALPHA, tuple(c)) for c in inp.items]
            ispad = [B.eq(tuple(c), B.const(PAD, 8)) for c in inp.items]
            vals = [F.value_of(ALPHA, tuple(c), 6) for c in inp.items]
            pats = {}
            if n % 4 == 0:
                for p in ((0, 1, 2) if n else (0,)):
                    pats[p] = [ispad[i] if i >= n - p else inal[i] for i in range(n)]
            rets = set()
            for kind, st, v in run("decode", inst, fn, [inp]):
                if kind == "throw":
                    ctx.ob("decode", inst, fn.loc, isinstance(v, Err) and v.name == "invalid_conversion",
                           "it can throw %r instead of invalid_conversion" % (v,), key="%s|wrongerror" % fn.q, st=st)
                    for p, preds in pats.items():
                        ctx.ob("decode", inst, fn.loc, not F.conj(st, preds),
                               "a well-formed input with %d padding characters can be refused" % p,
                               key="%s|refused" % fn.q, st=st)
                    continue
                if n % 4:
                    ctx.ob("decode", inst, fn.loc, False, "an input whose length is not a multiple of four can be "
                           "accepted", key="%s|lengthaccepted" % fn.q, st=st)
                    continue
                L = len(v.items) if hasattr(v, "items") else -1
                p = 3 * n // 4 - L
                if not ctx.ob("decode", inst, fn.loc, p in pats,
                              "it can return %d bytes for %d characters" % (L, n), key="%s|length" % fn.q, st=st):
                    continue
                bad = F.implies(st, pats[p])
                ctx.ob("decode", inst, fn.loc, bad is None, "an input whose character %s is neither a digit nor "
                       "proper padding can be accepted" % bad, key="%s|accepted" % fn.q, st=st)
                if bad is not None:
                    continue
                rets.add(p)
                spec = []
                for i in range(0, n, 4):
                    w = [vals[i + j] if i + j < n - p else B.const(0, 6) for j in range(4)]
                    word = w[3] + w[2] + w[1] + w[0]
                    spec += [word[16:24], word[8:16], word[0:8]]
                m = F.seq_differs(st, v, spec[:L])
                ctx.ob("decode", inst, fn.loc, m is None, m or "", key="%s|value" % fn.q, st=st)
            if n % 4 == 0:
                ctx.ob("decode", inst + ": accepts", fn.loc, rets == set(pats), "only padding lengths %s are ever "
                       "accepted" % sorted(rets), key="%s|none" % fn.q)
