"""Processes, command lines and the path of the program."""
from msa import conmodel, procmodel
from msa.claims import Claims
from msa.model import VERIF


def check(ctx):
    ctx.rule("claim", "what is said about processes agrees with what the operating system says, in every abstract state")
    t = ctx.tier == "thorough"
    P = ctx.prog("drivers/process.cc", "src/maidsafe/common/process.cc", "src/maidsafe/common/config.cc", "src/maidsafe/common/error.cc",
                 roots=(VERIF + "/stubs/",))
    models = dict(conmodel.MODELS)
    models.update(procmodel.MODELS)
    C = Claims(ctx, P, lens=[0, 1, 3] if not t else range(6), models=models, over={
        "exe": [1, 2, 3] if not t else range(1, 7), "n_error": [0, 1, 3, 22] if not t else range(40),
        ("p_path", "n_length"): [5, 40, 4095], "n_length": [1, 4095, 4096, 5000]})
    C.start = True
    C.run()
