"""The SQLite wrapper."""
from msa import sqlmodel
from msa.claims import Claims


def check(ctx):
    ctx.rule("claim", "the engine is used as documented and its failures reach the caller in every abstract state")
    t = ctx.tier == "thorough"
    P = ctx.prog("drivers/sqlite.cc", "src/maidsafe/common/sqlite3_wrapper.cc", "src/maidsafe/common/error.cc")
    C = Claims(ctx, P, lens=[0, 1, 2] if not t else range(0, 9), models=sqlmodel.MODELS, maxsteps=2000000, over={
        "n_mode": range(3), "n_fails": [0, 1, 2, 3, 199, 200], ("p_settings", "n_fails"): [0, 1], "n_commit": [1, 2], "n_blob": [0, 1]})
    C.run()
