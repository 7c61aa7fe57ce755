"""Tagged values and enumerations with text."""
from msa.claims import Claims


def check(ctx):
    ctx.rule("claim", "the condition holds in every abstract state reaching it, for unconstrained values")
    P = ctx.prog("drivers/values.cc")
    t = ctx.tier == "thorough"
    C = Claims(ctx, P, lens=[0, 1, 2, 3] if not t else range(0, 8), maxsteps=2000000)
    C.run()
