"""Conversions between asio and boost::asio addresses, strings and bytes."""
from msa.claims import Claims


def check(ctx):
    ctx.rule("claim", "the condition holds in every abstract state reaching it, for unconstrained addresses and bytes")
    P = ctx.prog("drivers/convert.cc")
    t = ctx.tier == "thorough"
    C = Claims(ctx, P, lens=[0, 1, 2, 5] if not t else range(0, 33), maxsteps=2000000)
    C.run()
