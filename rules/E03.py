"""Versions, exclusive or, file names and the small generator."""
from msa import conmodel, nummodel, pathmodel
from msa.claims import Claims
from msa.model import VERIF


def check(ctx):
    ctx.rule("claim", "the utilities agree with what is written beside them in every abstract state")
    t = ctx.tier == "thorough"
    P = ctx.prog("drivers/utils.cc", "src/maidsafe/common/utils.cc", "src/maidsafe/common/error.cc", "src/maidsafe/common/encode.cc",
                 "src/maidsafe/common/identity.cc",
                 "src/maidsafe/common/data_types/data.cc", roots=(VERIF + "/stubs/",))
    models = dict(conmodel.MODELS)
    models.update(nummodel.MODELS)
    types = [0, 1, 9, 10, 255, 256, 65536, 2 ** 31, 2 ** 32 - 1]
    def run(only, **kw):
        Claims(ctx, P, lens=[0, 1, 3] if not t else range(7), models=models, over={
            ("p_parts", "text"): [3], "n_major": [0, 1, 2] if not t else range(5), "n_minor": [0, 1, 2],
            "n_patch": [2, 3, 4] if not t else range(6), "n_where": range(3) if not t else range(5),
            ("p_valid", "text"): [5], ("p_short", "text"): range(5) if not t else range(7), ("p_dots", "d"): [1],
            "name": [64], "x": [64], "y": [64], "n_type": types, "n_type2": [0, 1, 256, 2 ** 32 - 1],
            ("p_file_names", "n_type"): [0, 1, 2 ** 32 - 1] if not t else types,
            "n_seed": [0, 1, 2 ** 31, 2 ** 32 - 1, 12345]}, **kw).run(only)
    run(("p_parts", "p_valid", "p_short", "p_dots", "p_large", "p_xor_string", "p_xor_bytes", "p_file_name", "p_file_names", "p_small_seed"))
    run(("p_small",), uadd=32)
