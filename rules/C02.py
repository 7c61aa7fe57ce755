"""Least-recently-used cache and filter."""
from msa.claims import Claims


def m_clock(I, n, st, fr):
    out = []
    for s, v in I.ev(n.args[0], st, fr):
        s.mem[("g", "#clock")] = v
        out.append((s, None))
    return out


def m_now(I, n, st, fr):
    return [(st, st.mem.get(("g", "#clock"), 0))]


def check(ctx):
    ctx.rule("claim", "the cache agrees with the documented reference behaviour in every abstract state")
    P = ctx.prog("drivers/lru.cc", "src/maidsafe/common/error.cc")
    t = ctx.tier == "thorough"
    ops = [0, 1, 2]
    over = {"n_cap": [0, 1, 2] if not t else [0, 1, 2, 3], "n_more": [2] if t else [1], "n_op": ops, "n_op1": [0] if not t else ops, "n_op2": ops, "n_op3": ops, "n_op4": ops,
            ("p_eviction", "n_op1"): ops,
            ("p_expiry", "n_cap"): [2] if not t else [1, 2, 3],
            ("p_filter", "n_cap"): [2] if not t else [1, 2, 3],
            "n_d1": [0, 60, 100, 101], "n_d2": [0, 40, 101], "n_d3": [0, 60, 101]}
    C = Claims(ctx, P, lens=[0, 1, 2], over=over, maxsteps=2000000, models={
        "probe::clock_at": m_clock, "std::chrono::steady_clock::now": m_now,
        "std::chrono::_V2::steady_clock::now": m_now})
    C.run()
