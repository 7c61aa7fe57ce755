"""Data objects: names, content, order, loading."""
from msa.claims import Claims, hash_model


def check(ctx):
    ctx.rule("claim", "the condition holds in every abstract state reaching it; SHA-512 is an uninterpreted function")
    P = ctx.prog("drivers/datatypes.cc", "src/maidsafe/common/data_types/data.cc",
                 "src/maidsafe/common/data_types/immutable_data.cc", "src/maidsafe/common/data_types/mutable_data.cc",
                 "src/maidsafe/common/encode.cc")
    q = ctx.tier != "thorough"
    C = Claims(ctx, P, lens=[1, 3] if q else [0, 1, 2, 3, 7, 64], over={
        "name": [64], "name_a": [64], "name_b": [64]}, maxsteps=3000000)
    C.models["maidsafe::crypto::Hash"] = hash_model(C)
    C.run()
