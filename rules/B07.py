"""SipHash: the published function for every key, input and cutting into pieces."""
from msa.claims import Claims


def check(ctx):
    ctx.rule("claim", "the condition holds in every abstract state reaching it; 64-bit addition is an uninterpreted, "
                      "commutative function shared by the implementation and the published definition")
    q = ctx.tier != "thorough"
    P = ctx.prog("drivers/siphash.cc", "src/maidsafe/common/hash/algorithms/siphash.cc")
    C = Claims(ctx, P, lens=list(range(0, 18)) if q else list(range(0, 34)), over={
        "key": [16], ("p_two", "in"): [0, 5, 8, 11, 17] if q else list(range(0, 26)), ("p_long", "in"): [261] if q else [248, 255, 256, 257, 261, 515],
        ("p_long", "n_cut"): [3] if q else [0, 3], ("p_three", "in"): [9, 18] if q else [7, 9, 16, 18, 23],
        ("p_two", "n_cut"): range(0, 18) if q else range(0, 26),
        ("p_three", "n_cut"): [0, 1, 3, 7, 8] if q else range(0, 10), ("p_three", "n_second"): [0, 1, 4, 5, 8, 10] if q else range(0, 14),
        ("p_copy", "n_cut"): [0, 3, 8, 9], ("p_copy", "in"): [9, 17]}, maxsteps=3000000, uadd=True)
    C.run()
