"""SafeQueue: a blocking FIFO whose elements are each handed to exactly one consumer."""
from msa import conc, queue
from msa.walk import Engine, Client, pstr
from msa.model import AnalysisError

CLS = "SafeQueue"


class Taker(queue.Consumer):
    """Adds: which result is returned on which path, and under which lock the whole step happens."""
    def __init__(self, fld, seqs, isout):
        super().__init__(fld, seqs, self.is_delivery, multi=True)
        self.isout = isout
        self.results = set()

    def is_delivery(self, ev):
        if ev.kind == "assign" and ev.path is not None and ev.path[0] == "var" and self.isout(ev.path, ev):
            return True
        if ev.kind == "call" and ev.decl is not None and ev.decl.name == "swap" and ev.path is not None and \
                self.isout(ev.path, ev):
            return True
        if ev.kind == "call" and ev.q in ("std::swap", "boost::swap") and \
                any(a[0] is not None and self.isout(a[0], ev) for a in ev.args):
            return True
        return False

    def on(self, ev, st):
        before = st
        st = super().on(ev, st)
        if ev.kind == "call" and ev.decl is not None and ev.decl.name in ("pop", "pop_front", "erase") and \
                queue.container_of(ev.path, self.seqs, self.fld) and not ev.locks:
            ev.eng.report("an element is removed while no lock is held", ev, "unlocked")
        if ev.kind == "exit" and ev.truth:
            self.results.add((self.took(ev, st), ev.term))
        return st

    def took(self, ev, st):
        return ev.env.env.get(("took",), None)


class Outcome(Client):
    """TryPop's result agrees with whether an element was handed over.  State: (delivered, known empty)."""
    def __init__(self, fld, seqs):
        self.fld, self.seqs = fld, seqs
        self.outcomes = set()

    def start(self):
        return (0, None)

    def on(self, ev, st):
        d, emp = st
        if ev.kind == "branch":
            e = queue.emptiness(ev.term, ev.truth)
            if e is not None and queue.container_of(e[0], self.seqs, self.fld):
                return (d, e[1])
        if ev.kind == "call" and ev.decl is not None and not ev.inlined and \
                ev.decl.name in ("pop", "pop_front", "erase") and queue.container_of(ev.path, self.seqs, self.fld):
            return (min(2, d + 1), emp)
        if ev.kind == "exit" and ev.truth:
            self.outcomes.add((d, emp, ev.term, ev.loc if ev.node is not None else ev.fn.loc))
        return st


def check(ctx):
    ctx.rule("lockset", "every access to the underlying queue holds the queue's mutex")
    ctx.rule("order", "lock acquisition is acyclic and no lock is taken twice")
    ctx.rule("consume", "a consumer reads and removes the oldest element once, known non-empty in the same critical "
                        "section, and hands it to the caller")
    ctx.rule("result", "a non-blocking take returns true exactly when it handed over an element, and refuses only "
                       "when the queue was seen empty under the lock")
    ctx.rule("produce", "Push inserts its argument once at the back and then notifies on every path")
    ctx.rule("wait", "a consumer waits holding exactly the queue's mutex, on the condition that Push notifies")
    P = ctx.prog("drivers/sync.cc")
    cc = conc.ClassConc(ctx, P, CLS)
    conc.lockset(ctx, "lockset", cc, floor=1)
    conc.lock_order(ctx, "order", [cc])
    ctx.ob("order", "no mutex taken twice", "", not cc.cl.selfdead, str(cc.cl.selfdead[:1]))
    fld = cc.fld
    seqs = [n for n, (t, a) in fld.items() if t.startswith(queue.SEQ)]
    ctx.need(len(seqs), 1, "queue members of SafeQueue")
    takers, puts, waits, notes = [], [], [], []
    for f in conc.methods(P, CLS):
        if f.decl.o.get("ctor") or f.decl.o.get("dtor") or not f.params:
            continue
        (takers if f.params[0].type.endswith("&") and not f.params[0].type.startswith("const ") and
         not f.params[0].type.endswith("&&") else puts).append(f)
    ctx.need(len(takers), 4, "consumer functions (two instantiations of two)")
    ctx.need(len(puts), 2, "producer functions")
    for f in takers:
        pids = set(p.id for p in f.params)
        cl = Taker(fld, seqs, lambda p, ev, pids=pids: p[0] == "var" and p[1] == ev.stack[0].fk and p[2] in pids)
        en = Engine(P, cl)
        en.run(f)
        ctx.engine("consume", en, f)
        if not (cl.fronts and cl.pops and cl.delivered):
            ctx.ob("consume", f.q + " shape", f.loc, False, "takes (%d), removes (%d), hands over (%d)" % (
                cl.fronts, cl.pops, cl.delivered), key="shape|" + f.n)
        waits += [(f, w) for w in cl.waits]
        oc = Outcome(fld, seqs)
        en = Engine(P, oc)
        en.run(f)
        isbool = f.decl.rettype == "bool"
        for d, emp, t, loc in oc.outcomes:
            if not isbool:
                ctx.ob("result", "%s returns with an element" % f.q, f.loc, d == 1,
                       "%s returns after removing %d elements" % (f.q, d), key="count|" + f.n)
            elif t == ("const", 1):
                ctx.ob("result", "%s returns true" % f.q, f.loc, d == 1, "%s returns true after removing %d elements" %
                       (f.q, d), key="true|" + f.n)
            elif t == ("const", 0):
                ctx.ob("result", "%s returns false" % f.q, f.loc, d == 0 and emp is True,
                       "%s returns false after removing %d elements (queue seen empty: %s)" % (f.q, d, emp),
                       key="false|" + f.n)
            else:
                ctx.notes.append("result of %s not a constant on one path: %s" % (f.q, pstr(t) if t else t))
    for f in puts:
        cl = queue.Producer(fld, seqs)
        en = Engine(P, cl)
        en.run(f)
        ctx.engine("produce", en, f)
        notes += cl.notifies
    conds = set(w.path for f, w in waits)
    g = cc.guarded()
    for f, w in waits:
        hs = set(cc.cl.lockname(m) for m, o in w.locks)
        qg = frozenset().union(*[g[s][0] for s in seqs])
        ctx.ob("wait", "wait in " + f.q, w.loc, hs and hs <= qg, "waits holding %s but the queue is guarded by %s" % (hs, qg),
               key="lock")
        ctx.ob("wait", "waited condition of " + f.q, w.loc, any(n.path == w.path for n in notes),
               "waits on %s, which no producer notifies" % pstr(w.path), key="cond")
    blocking = [f for f in takers if f.decl.rettype == "void"]
    for f in blocking:
        ctx.ob("wait", "%s blocks" % f.q, f.loc, any(w[0] is f for w in waits),
               "%s has no condition wait" % f.q, key="nowait")
