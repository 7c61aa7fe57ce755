"""StructuredDataVersions: a tree of versions."""
from msa.claims import Claims
from msa.model import VERIF


def check(ctx):
    ctx.rule("claim", "the versions agree with the documented tree in every abstract state")
    t = ctx.tier == "thorough"
    P = ctx.prog("drivers/versions.cc", "src/maidsafe/common/data_types/structured_data_versions.cc",
                 "src/maidsafe/common/error.cc", "src/maidsafe/common/identity.cc", roots=("/usr/include/cereal/", VERIF + "/stubs/"))
    C = Claims(ctx, P, lens=[0, 1], maxsteps=3000000, over={
        "n_p2": [0, 1], "n_p3": [0, 1, 2, 3, 8] if t else [0, 1, 2, 3], "n_order": range(24),
        ("p_nothing", "n_versions"): [0, 1, 3], ("p_nothing", "n_branches"): [0, 1, 3],
        "n_limits": range(4) if t else [0, 1, 2], "n_free": [1, 2, 3] if t else [2], "n_mine": [0, 0xf, 0x15, 0x5f, 0x9b, 0xaf, 0x6f, 0xff] if t else [0, 0xf, 0x15, 0x9b], ("p_apply", "n_next"): [3, 7] if t else [3], "n_empty": [0, 1],
        "n_bad": range(9), ("p_lowest", "n_under"): [0, 1, 2, 3],
        ("p_late", "n_p2"): [0, 1, 7], ("p_late", "n_under"): [0, 1, 2, 3, 6, 7, 8, 9] if t else [0, 3, 8, 9], ("p_late", "n_new"): [4, 6, 7, 8] if t else [4, 6, 8], ("p_late", "n_limits"): range(4) if t else [0, 1, 2],
        "n_under": [0, 1, 2, 3, 6, 7, 9] if t else [0, 1, 3, 6, 9], "n_new": range(8), "n_next": [0, 1, 2, 3, 4, 7] if t else [1, 3, 7], "n_which": [0, 1, 2, 3, 7]})
    C.run()
