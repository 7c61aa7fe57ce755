"""Scope guards and make_unique."""
from msa import absint as A, libmodel
from msa.absint import bare
from msa.claims import Claims


def m_no_memory(I, n, st, fr):
    out = []
    for s, v in I.ev(n.args[0], st, fr):
        s.mem[("g", "#no_memory")] = v
        out.append((s, None))
    return out


def m_keep(I, n, st, fr):
    """Making a std::function from anything but one (or nothing) takes memory."""
    kids = n.kids
    if st.mem.get(("g", "#no_memory")) == 1 and kids and "nullptr" not in bare(kids[0].type) and \
            not bare(kids[0].type).startswith("std::function<"):
        for s, v in I.ev(kids[0], st, fr):
            I.sink[-1].append((s, A.Err("std::bad_alloc", "std::bad_alloc")))
        return []
    return libmodel.construct(I, n, "std::function", st, fr)


def m_assign(I, n, st, fr):
    kids = n.kids[1:]
    if st.mem.get(("g", "#no_memory")) == 1 and kids and "nullptr" not in bare(kids[0].type) and \
            not bare(kids[0].type).startswith("std::function<"):
        I.sink[-1].append((st, A.Err("std::bad_alloc", "std::bad_alloc")))
        return []
    return libmodel.function(I, n, n.decl, st, fr)


def check(ctx):
    ctx.rule("claim", "the condition holds in every abstract state reaching it, however the scope is left")
    t = ctx.tier == "thorough"
    for defs in ((), ("MSA_OTHER_COMPILER",)):
        P = ctx.prog("drivers/scope.cc", defs=defs)
        C = Claims(ctx, P, models={"probe::no_memory": m_no_memory, "std::function::function": m_keep,
                                         "std::function::operator=": m_assign}, lens=[0, 1, 2] if not t else range(0, 6), over={
            "n_how": [0, 1, 2], "n_named": [0, 1], "n_times": [1, 2, 3], "n_released": [0, 1],
            "n_size": [0, 1, 3] if not t else range(0, 9)})
        C.run()
