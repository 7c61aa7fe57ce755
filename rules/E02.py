"""Random values: size, range, alphabet, lock and seed."""
from msa import rngmodel
from msa.claims import Claims
from msa.model import VERIF

STD = "/usr/include/c++/13/bits/"


def check(ctx):
    ctx.rule("claim", "random values have the size and alphabet asked for, and are drawn under the lock, in every abstract state")
    t = ctx.tier == "thorough"
    P = ctx.prog("drivers/random.cc", "src/maidsafe/common/utils.cc", roots=(VERIF + "/stubs/", STD + "std_mutex.h", STD + "unique_lock.h"))
    far = [2 ** 32 - 1, 2 ** 31, 5000000]
    C = Claims(ctx, P, over={
        "n_signed": [-2 ** 31, -1, 0, 1, 2 ** 31 - 1], "n_unsigned": [0, 1, 2 ** 31, 2 ** 32 - 1],
        "n_size": [0, 1, 2] if not t else range(5), "n_byte": [0, 1, 127, 128, 255] if not t else range(256),
        "n_alnum": [ord(c) for c in ("09AZaz" if not t else
                    "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")],
        "n_what": range(4), "n_min": [0, 1, 5], "n_more": [0, 1, 2] if not t else range(5), "n_end": [0, 1],
        "n_low": [0, 1, 2 ** 32 - 1], "n_far": [2 ** 32 - 1]})
    C.models.update(rngmodel.Rng(C).models)
    C.run()
