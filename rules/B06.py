"""Serialisation: what is saved is what is loaded."""
from msa.claims import Claims
from msa.model import VERIF


def check(ctx):
    ctx.rule("claim", "the condition holds in every abstract state reaching it, for unconstrained values")
    P = ctx.prog("drivers/serialise.cc", roots=("/usr/include/cereal/", VERIF + "/stubs/"))
    t = ctx.tier == "thorough"
    C = Claims(ctx, P, lens=[0, 1, 3] if not t else range(0, 10), maxsteps=2000000,
               over={"n_size": [0, 1, 2], "n_cut": range(0, 15) if not t else range(0, 24)})
    C.run()
