"""Console input."""
from msa import conmodel
from msa.claims import Claims


def check(ctx):
    ctx.rule("claim", "the condition holds in every abstract state reaching it, for unconstrained flags and text")
    t = ctx.tier == "thorough"
    P = ctx.prog("drivers/cli.cc", *["src/maidsafe/common/" + f for f in ("cli.cc", "error.cc")])
    C = Claims(ctx, P, lens=[0, 1, 2] if not t else range(0, 4), models=dict(conmodel.MODELS, **{
        "maidsafe::crypto::Hash": conmodel.m_hash}), maxsteps=2000000, over={
        "n_line": range(9), ("p_tokens", "n_line"): range(8), "n_echo": [0, 1], "n_kind": [0, 1, 2], "n_text": [0, 1],
        "n_before": [0, 1], "n_after": [0, 1], "n_on": [0, 1], "n_repeat": [0, 1], "n_lines": [0, 1, 2, 3]})
    C.run()
