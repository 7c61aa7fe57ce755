"""Identity: exclusive-or distance, common leading bits, encodings."""
from msa.claims import Claims


def check(ctx):
    ctx.rule("claim", "the condition holds in every abstract state reaching it, for unconstrained 64-byte identities")
    P = ctx.prog("drivers/identity.cc", "src/maidsafe/common/identity.cc", "src/maidsafe/common/encode.cc")
    q = ctx.tier != "thorough"
    C = Claims(ctx, P, lens=[64], over={
        ("p_leading", "n_k"): [0, 1, 30, 63] if q else range(64),
        ("p_hex_length", "s"): [0, 1, 2, 126, 127, 129, 130] if q else list(range(0, 128)) + [129, 130, 131],
        ("p_base64_length", "s"): [0, 4] if q else [0, 1, 3, 4],
        ("p_binary_length", "s"): [0, 1, 504, 511, 513, 600] if q else list(range(0, 20)) + list(range(500, 512)) + [513, 520, 1024],
        ("p_hex_content", "n_k"): [0, 127] if q else range(0, 128, 9),
        ("p_binary_content", "n_k"): [0, 511] if q else range(0, 512, 73),
    }, maxsteps=3000000)
    C.run()
