"""BoundedString: size bounds, validity, comparison, exclusive-or, conversion."""
from msa.claims import Claims


def check(ctx):
    ctx.rule("claim", "the condition holds in every abstract state reaching it, for unconstrained contents and every "
                      "length partition below, at, between and above the bounds")
    q = ctx.tier != "thorough"
    for d in ((), ("NDEBUG",)):
        P = ctx.prog("drivers/bounded.cc", "src/maidsafe/common/encode.cc", defs=d)
        C = Claims(ctx, P, lens=range(0, 7) if q else range(0, 10),
                   over={("p_compare", "s"): range(0, 4), ("p_compare", "t"): range(0, 4)})
        C.run()
