"""Menus."""
from msa import conmodel
from msa.claims import Claims


def check(ctx):
    ctx.rule("claim", "the menu follows the answers as documented in every abstract state")
    t = ctx.tier == "thorough"
    P = ctx.prog("drivers/menu.cc", *["src/maidsafe/common/" + f for f in ("menu.cc", "menu_item.cc", "cli.cc", "error.cc")])
    C = Claims(ctx, P, lens=[0, 1, 2] if not t else range(0, 4), models=conmodel.MODELS, maxsteps=2000000, over={
        "n_child": [0, 1], "n_children": [0, 1, 3], ("p_show", "n_children"): [0, 1, 9, 10, 12], "n_with": [0, 1],
        "n_a": [0, 1, 3, 5, 12] if not t else range(15), "n_b": [0, 1, 2, 3, 4, 11] if not t else range(15),
        "n_c": [0, 1, 2, 3, 4, 10] if not t else range(15),
        "n_d": [0, 1, 2, 3, 6] if not t else [0, 1, 2, 3, 4, 6, 8, 10, 13], "n_twice": [0, 1],
        "n_code": range(5), "n_answer": range(3), "n_lines": [0, 1, 2]})
    C.run()
