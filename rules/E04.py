"""Encryption, compression, digests and derived passwords, over Crypto++ as ideal functions."""
from msa import conmodel
from msa.claims import Claims
from msa.cryptomodel import Crypto
from msa.model import VERIF


def check(ctx):
    ctx.rule("claim", "the library's use of Crypto++ agrees with what is written beside it in every abstract state")
    t = ctx.tier == "thorough"
    P = ctx.prog("drivers/crypto.cc", "src/maidsafe/common/crypto.cc", "src/maidsafe/common/error.cc", "src/maidsafe/common/encode.cc",
                 roots=(VERIF + "/stubs/",))
    C = Claims(ctx, P, lens=[1, 3] if not t else range(1, 9), models=dict(conmodel.MODELS), over={
        "key": [48], "other": [48], "n_at": [0, 1, 16, 99] if not t else list(range(17)) + [99], ("p_shortened", "n_at"): [1, 2, 16],
        "n_level": [0, 1, 5, 9, 10, 65535] if not t else list(range(11)) + [256, 265, 65535],
        ("p_long", "n_size"): [256, 1000] if not t else [17, 64, 255, 256, 1024, 1025], "label": [0, 2] if not t else range(5), ("p_hash", "text"): [0, 1, 5] if not t else range(10), ("p_hash_string", "text"): [0, 1, 5],
        ("p_password", "password"): [1, 3], ("p_password", "salt"): [1, 4],
        ("p_secret", "text"): [1, 3, 4] if not t else range(1, 9), ("p_info", "text"): [1, 4, 8] if not t else range(1, 13),
        "n_needed": [2, 3], "n_which": [0x24, 0x39] if not t else
        [a | b << 2 | c << 4 for a in range(4) for b in range(4) for c in range(4) if len({a, b, c}) == 3],
        ("p_no_pieces", "text"): [1, 4],
        "n_pin": [0, 1, 9999, 10000, 10001, 2 ** 31, 2 ** 32 - 1] if not t else
        [0, 1, 2, 9998, 9999, 10000, 10001, 55535, 55536, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1]})
    C.models.update(Crypto(C).models)
    C.run()
