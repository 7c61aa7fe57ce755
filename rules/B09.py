"""Errors: codes, categories, exceptions, integers."""
from msa.claims import Claims

ENUMS = ["Common", "Asymm", "Passport", "Encrypt", "Routing", "Nfs", "Drive", "Vault", "VaultManager", "Api"]


def snake(n):
    return "".join(("_" if i and c.isupper() else "") + c.lower() for i, c in enumerate(n))


def check(ctx):
    ctx.rule("claim", "the condition holds for every enumerator of every error enumeration, by abstract evaluation")
    P = ctx.prog("drivers/errors.cc", "src/maidsafe/common/error.cc", "src/maidsafe/common/error_categories.cc")
    over = {("p_foreign_int", "n_i"): [0, 1, -1, 99999, 100000, -99999, -99998, 1100000, -1100000, -1100001, -1199999,
                                       -2000000, 2147483647, -2147483647, 200001]}
    for e in ENUMS:
        vals = sorted(set(P.enum("maidsafe::%sErrors" % e).values()))
        over[("p_round_" + snake(e), "n_v")] = vals
        # one value that is no error stands for all of them: it has the message of the default case
        over[("p_message_" + snake(e), "n_v")] = vals
        over[("p_message_" + snake(e), "n_w")] = vals if ctx.tier == "thorough" or len(vals) < 14 else vals
    C = Claims(ctx, P, lens=[0], over=over, maxsteps=2000000)
    C.run()
