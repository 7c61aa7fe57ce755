"""Hash framework: the bytes an algorithm is given."""
from msa.claims import Claims


def check(ctx):
    ctx.rule("claim", "the byte stream given to the algorithm equals the expected one in every abstract state")
    P = ctx.prog("drivers/hashing.cc")
    t = ctx.tier == "thorough"
    C = Claims(ctx, P, lens=[0, 1, 3] if not t else range(0, 10), over={"n_size": [0, 1, 2]}, maxsteps=2000000)
    C.run()
