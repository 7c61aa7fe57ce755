"""Reading and writing files."""
from msa import filemodel
from msa.claims import Claims
from msa.model import VERIF


def check(ctx):
    ctx.rule("claim", "files are read and written whole or the failure is reported in every abstract state")
    t = ctx.tier == "thorough"
    P = ctx.prog("drivers/files.cc", "src/maidsafe/common/utils.cc", "src/maidsafe/common/error.cc", roots=(VERIF + "/stubs/",))
    C = Claims(ctx, P, lens=[0, 1, 3] if not t else range(0, 9), models=filemodel.MODELS, over={
        ("p_read", "n_fault"): [0, 1, 2, 4, 5], ("p_write", "n_fault"): [0, 1, 2, 3]})
    C.run()
