"""Active object: every accepted functor runs exactly once, oldest first, on the object's thread, off-lock."""
from msa import conc, queue
from msa.walk import Engine, Client, mentions, pstr
from msa.model import AnalysisError

CLS = "maidsafe::Active"


def runs_functor(ev):
    return ev.kind == "call" and (ev.extra == "functor" or ev.q == "*")


class Shutdown(Client):
    """Destructor: work is handed over (or the flag is set), then the thread is joined, on every path."""
    def __init__(self, fld):
        self.fld = fld
        self.joins = 0
        self.flagw = []

    def start(self):
        return (False, False)

    def on(self, ev, st):
        asked, joined = st
        if ev.kind == "call" and ev.decl is not None and not ev.inlined:
            if ev.decl.name in queue.BACK_INS and conc.storage(ev.path, self.fld)[0] is not None:
                return (True, joined)
            if ev.decl.name == "join":
                self.joins += 1
                if not asked:
                    ev.eng.report("the worker is joined before it has been told to stop", ev, "join-before-stop")
                return (asked, True)
            if ev.decl.name in ("detach", "interrupt", "pthread_cancel", "timed_join", "try_join_for"):
                ev.eng.report("%s() lets the destructor finish while the worker may still run" % ev.decl.name, ev, "detach")
        if ev.kind == "branch":
            from msa.walk import subterms
            if any(x[0] == "fld" and conc.storage(x, self.fld)[0] is not None for x in subterms(ev.term)):
                return (True, joined)      # the stop flag is consulted: already told
        if ev.kind == "assign":
            h, via = conc.storage(ev.path, self.fld)
            if h is not None:
                return (True, joined)
        if ev.kind == "exit" and ev.truth and not joined:
            ev.eng.report("the destructor returns on a path that does not join the worker thread", ev, "nojoin")
        return st


def check(ctx):
    ctx.rule("lockset", "every member shared between callers and the worker has one lock held at all its accesses")
    ctx.rule("order", "lock acquisition is acyclic and no lock is taken twice")
    ctx.rule("init", "every member the worker uses is initialised before the worker thread starts")
    ctx.rule("consume", "worker: an element is taken only when known non-empty under the lock, oldest first, removed "
                        "once, run exactly once")
    ctx.rule("offlock", "functors are run only by the worker and with no lock of the object held")
    ctx.rule("produce", "Send: exactly one insertion of the argument at the back, then a notification, unless the "
                        "stop flag was consulted")
    ctx.rule("wait", "the worker waits holding only the lock that guards the queue, on the condition Send notifies")
    ctx.rule("drain", "the stop flag is written only by queued work (so after all earlier functors) or the worker leaves "
                      "only once the queue is empty; the destructor joins on every path")
    P = ctx.prog("src/maidsafe/common/active.cc")
    cc = conc.ClassConc(ctx, P, CLS)
    conc.lockset(ctx, "lockset", cc, floor=2)
    conc.lock_order(ctx, "order", [cc])
    late = cc.late_init(P)
    ctx.ob("init", CLS + " constructor", "", not late, "; ".join(
        "%s is initialised at %s after the worker thread was started" % (n, l) for n, l, q in late))
    fld = cc.fld
    seqs = [n for n, (t, a) in fld.items() if t.startswith(queue.SEQ) and "thread" not in t]
    ctx.need(len(seqs), 1, "queue members of Active")
    roots = [f for f in P.funcs if f.cls == CLS and f.decl.o.get("ctor") and f.blocks and not f.o.get("defaulted")]
    # worker roots: functions handed to threads by constructors
    e = Engine(P, cc.cl)
    workers = []
    for f in roots:
        e = Engine(P, _Spawn())
        e.run(f)
        workers += [d for d in e.deferred.values() if e.client.kinds.get(d["fn"].uid)]
        fk = e.fkeys
    ctx.need(len(workers), 1, "worker threads started by Active")
    under = [u for u in cc.cl.under if u[0] == "functor"]
    for u in under:
        ctx.ob("offlock", CLS, u[2], False, "functor %s is run in %s while holding %s" % (u[1], u[3], u[4]), key="lock|" + u[3])
    flagset, drains = set(), True
    waits = []
    for d in workers:
        cl = queue.Consumer(fld, seqs, runs_functor)
        en = Engine(P, cl)
        en.fkeys = fk
        cc.run_lambda(en, d)
        ctx.engine("consume", en, d["fn"], "Active worker")
        if not cl.fronts or not cl.pops or not cl.delivered:
            ctx.ob("consume", "Active worker shape", d["fn"].loc, False,
                   "the worker no longer takes (%d), removes (%d) and runs (%d) queued functors" % (
                       cl.fronts, cl.pops, cl.delivered), key="shape")
        waits += cl.waits
        for flag, t in cl.exits:
            if flag == ("empty", True):
                continue
            drains = False
            if flag is not None and flag[0] != "empty":
                flagset.add(flag)
        if not cl.exits:
            ctx.ob("drain", "worker exit", d["fn"].loc, False, "the worker loop has no exit", key="noexit")
    ctx.ob("offlock", "functor calls off-lock", "", not under, "see above")
    # writes of the stop flag
    for name in set(f for f, _ in flagset):
        ws = [a for a in cc.cl.acc if a.names[0] == name and a.mode == "w" and a.kind != "ctor"]
        if not ws:
            ctx.ob("drain", "stop flag " + name, "", False, "nothing ever tells the worker to stop", key="nostop")
        for a in ws:
            ok = drains or a.kind == "task"
            ctx.ob("drain", "write of %s in %s" % (name, a.root), a.loc, ok,
                   "%s is cleared in %s, which does not run as queued work: functors still queued are dropped" %
                   (name, a.fn), key="flagwrite")
    dt = [f for f in P.funcs if f.cls == CLS and f.decl.o.get("dtor") and f.blocks]
    if not dt:
        ctx.ob("drain", "Active destructor", "", False, "Active has no destructor that joins the worker", key="nodtor")
    for f in dt:
        cl = Shutdown(fld)
        en = Engine(P, cl)
        en.run(f)
        ctx.engine("drain", en, f)
    # producers: public functions that take a functor
    prods = [f for f in conc.methods(P, CLS) if not f.decl.o.get("ctor") and f.params and
             "function" in f.params[0].type]
    ctx.need(len(prods), 1, "public functions of Active taking a functor")
    for f in prods:
        cl = queue.Producer(fld, seqs)
        cl.conditional_ok = True
        en = Engine(P, cl)
        en.run(f)
        ctx.engine("produce", en, f)
        calls = [a for a in en.functions]
        wconds = set(w.path for w in waits)
        for nev in cl.notifies:
            ctx.ob("wait", "notify in " + f.q, nev.loc, not wconds or nev.path in wconds,
                   "notifies %s, but the worker waits on %s" % (pstr(nev.path), [pstr(w) for w in wconds]), key="cond")
        runs = _Runs()
        en = Engine(P, runs)
        en.run(f)
        for r in runs.runs:
            ctx.ob("offlock", "run in " + f.q, r, False, "a functor is run on the calling thread", key="callerthread")
    g = cc.guarded()
    for w in waits:
        hs = set(conc.LockClient(P, CLS, fld).lockname(m) for m, o in w.locks)
        qg = frozenset().union(*[g[s][0] for s in seqs if s in g]) if g else frozenset()
        ctx.ob("wait", "wait", w.loc, hs and hs <= qg,
               "waits holding %s, but the queue is guarded by %s" % (sorted(map(str, hs)), sorted(map(str, qg))), key="lock")
    ctx.need(len(waits), 1, "condition waits of the worker") if not any(not o[3] for o in ctx.obs) else None


class _Runs(Client):
    def __init__(self):
        self.runs = []

    def on(self, ev, st):
        if runs_functor(ev):
            self.runs.append(ev.loc)
        return st


class _Spawn(Client):
    def __init__(self):
        self.kinds = {}

    def on(self, ev, st):
        if ev.kind == "defer" and conc.threadish(ev):
            self.kinds[ev.extra.uid] = True
        return st
