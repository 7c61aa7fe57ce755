"""IoService (AsioService / BoostAsioService): start, stop and worker-thread discipline."""
from msa import conc
from msa.queue import emptiness
from msa.walk import Engine, Client, mentions, pstr, subterms, roots, PRUNE
from msa.model import AnalysisError

CLS = "maidsafe::IoService"


def zero_test(t, truth, is_it):
    """Does the branch establish whether the count is zero?  Returns True (zero), False (non-zero), None."""
    while t[0] == "not":
        t, truth = t[1], not truth
    if is_it(t):
        return not truth
    if t[0] == "bin" and len(t) == 4:
        op, a, b = t[1], t[2], t[3]
        if is_it(b) and a[0] == "const":
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if is_it(a) and b[0] == "const":
            if op == "==" and b[1] == 0:
                return truth
            if op == "!=" and b[1] == 0:
                return not truth
            if op == "<" and b[1] == 1 or op == "<=" and b[1] == 0:
                return truth
            if op == ">" and b[1] == 0 or op == ">=" and b[1] == 1:
                return not truth
    return None


MUTATE = ("operator=", "store", "exchange", "reset", "clear", "operator--", "operator++", "fetch_sub")


class Start(Client):
    """Constructor.  State: what is known of the requested count (None, zero, nonzero)."""
    def __init__(self, f, fld):
        self.f, self.fld = f, fld
        self.throws = []
        self.spawns = 0
        self.tests = 0

    def is_count(self, t):
        if t[0] == "var" and t[2] in [p.id for p in self.f.params]:
            return True
        if t[0] == "ret" and t[2] is not None and t[1].split("::")[-1].startswith(("load", "operator")):
            t = t[2]
        return t[0] == "fld" and t[2] in self.fld and "atomic" in self.fld[t[2]][0]

    def on(self, ev, st):
        if ev.kind == "branch":
            z = zero_test(ev.term, ev.truth, self.is_count)
            if z is not None:
                self.tests += 1
                if st is not None and st != ("zero" if z else "nonzero"):
                    return PRUNE
                return "zero" if z else "nonzero"
        if ev.kind == "defer" and conc.threadish(ev):
            self.spawns += 1
            if st == "zero":
                ev.eng.report("a thread is started although the count is zero", ev, "zero-start")
            if st is None:
                ev.eng.report("a thread is started before a thread count of zero has been rejected", ev, "untested-start")
        if ev.kind == "throw":
            self.throws.append((st, ev.term, ev.loc))
        if ev.kind == "exit" and ev.truth and st != "nonzero":
            ev.eng.report("the constructor completes on a path where the thread count may be zero", ev, "zero-ok")
        return st


class Stop(Client):
    """State: (work released, thread list known empty, something joined, list cleared after joining)."""
    def __init__(self, fld):
        self.fld = fld
        self.work = [n for n, (t, a) in fld.items() if "unique_ptr" in t and "work" in t]
        self.threads = [n for n, (t, a) in fld.items() if "thread" in t and t.startswith("std::vector")]
        self.svc = [n for n, (t, a) in fld.items() if t.startswith(("asio::io_", "boost::asio::io_"))]
        self.compares = self.joins = self.releases = 0
        self.throws = []
        self.exits = []

    def start(self):
        return (False, None, False, False, False)

    def field(self, p):
        if p is None:
            return None
        h, via = conc.storage(p, self.fld)
        return h[1][0] if h is not None else None

    def on(self, ev, st):
        rel, emp, joined, cleared, early = st
        k = ev.kind
        if k == "branch":
            e = emptiness(ev.term, ev.truth)
            if e is not None and self.field(e[0]) in self.threads:
                if emp is not None and emp != e[1] and not joined:
                    return PRUNE
                if emp and not e[1]:
                    return PRUNE
                return (rel, e[1], joined, cleared, early)
        if k == "call" and ev.decl is not None and not ev.inlined:
            nm = ev.decl.name
            f = self.field(ev.path) if ev.path is not None else None
            if f is not None and nm in MUTATE and f not in self.svc:
                early = True
            if f in self.work and nm in ("reset", "operator=", "release"):
                self.releases += 1
                return (True, emp, joined, cleared, early)
            if f in self.svc and nm in ("stop", "reset"):
                ev.eng.report("%s() on the io_service abandons handlers that were already posted" % nm, ev, "svcstop")
            if nm.startswith("operator==") or nm.startswith("operator!="):
                if any("thread::id" in (ev.decl.ptypes[i] if i < len(ev.decl.ptypes) else "") for i in range(2)) or \
                        "thread::id" in (ev.decl.rectype or ""):
                    self.compares += 1
                    if rel or joined:
                        ev.eng.report("the calling thread is compared with the workers only after the service has "
                                      "begun to stop", ev, "late-compare")
            if "thread" in (ev.decl.cls or "") and nm == "join":
                self.joins += 1
                if not rel:
                    ev.eng.report("a worker is joined while the work object still keeps it running", ev, "join-before-release")
                return (rel, emp, True, False, early)
            if f in self.threads and nm in ("clear", "resize", "swap", "operator=", "assign", "erase"):
                if not joined and emp is not True and not rel:
                    ev.eng.report("the list of threads is emptied before they are joined", ev, "clear-before-join")
                return (rel, True if nm == "clear" else emp, joined, True, early)
            return (rel, emp, joined, cleared, early)
        if k == "throw":
            self.throws.append((rel, joined, ev.term, ev.loc))
            if rel or joined or early:
                ev.eng.report("throws after the object has been changed: a refused Stop must leave it running", ev, "late-throw")
        if k == "exit" and ev.truth:
            self.exits.append(st)
            if joined and not cleared:
                ev.eng.report("returns with already joined threads still listed: a second Stop would join them again", ev, "notcleared")
            if rel and not joined and emp is not True:
                ev.eng.report("returns on a path that releases the work object but joins no worker", ev, "nojoin")
        return st


class Body(Client):
    """A worker thread: runs the service, and never swallows an exception."""
    def __init__(self):
        self.runs = 0

    def start(self):
        return False

    def nothrow(self, d, n):
        return d is None or d.name not in ("run", "run_one", "poll")

    def on(self, ev, st):
        if ev.kind == "call" and ev.decl is not None and ev.decl.name in ("run", "run_one", "poll") and \
                "io_" in (ev.decl.cls or ""):
            self.runs += 1
            if ev.decl.name != "run":
                ev.eng.report("the worker uses %s(), which returns before the service is stopped" % ev.decl.name, ev, "run")
        if ev.kind == "catch":
            return True
        if ev.kind == "exit" and ev.truth and st:
            ev.eng.report("an exception thrown by a handler is swallowed by the worker thread", ev, "swallow")
        return st


class Reject(Client):
    def opaque(self, d, eng, fr):
        return False


def check(ctx):
    ctx.rule("lockset", "the work object and the thread list are only touched under the service's mutex")
    ctx.rule("order", "no mutex is taken twice and lock order is acyclic")
    ctx.rule("init", "no member a worker uses is initialised after the workers start")
    ctx.rule("start", "a thread count of zero is rejected with invalid_argument before any thread is started")
    ctx.rule("stop", "Stop first refuses a call from a worker thread, then releases the work object, joins every worker and "
                     "clears the list; it never abandons posted handlers; a second Stop does nothing")
    ctx.rule("body", "each worker runs the service to completion and lets handler exceptions terminate the process")
    ctx.rule("dtor", "the destructor performs Stop on every path")
    P = ctx.prog("drivers/sync.cc")
    cc = conc.ClassConc(ctx, P, CLS)
    conc.lockset(ctx, "lockset", cc, floor=2)
    conc.lock_order(ctx, "order", [cc])
    ctx.ob("order", "no mutex taken twice", "", not cc.cl.selfdead, str(cc.cl.selfdead[:1]))
    late = cc.late_init(P)
    ctx.ob("init", "constructor", "", not late, str(late[:2]))
    fld = cc.fld
    ctors = [f for f in P.funcs if f.cls == CLS and f.decl.o.get("ctor") and f.params and f.blocks and
             not f.o.get("defaulted")]
    ctx.need(len(ctors), 2, "constructors of IoService")
    for f in ctors:
        cl = Start(f, fld)
        en = Engine(P, cl)
        en.run(f)
        ctx.engine("start", en, f)
        ctx.ob("start", "threads are started", f.loc, cl.spawns > 0, "the constructor starts no thread", key="nospawn")
        zt = [t for s, t, l in cl.throws if s == "zero"]
        ctx.ob("start", "zero is rejected", f.loc, zt and all(
            t[0] == "maidsafe" and t[1].endswith("::invalid_argument") for t in zt),
            "zero threads: throws %s" % zt, key="zero-error")
        bodies = [d for d in en.deferred.values()]
        for d in bodies:
            b = Body()
            e2 = Engine(P, b, exc=True)
            e2.fkeys = en.fkeys
            cc.run_lambda(e2, d)
            ctx.engine("body", e2, d["fn"], "worker thread of " + f.q)
            ctx.ob("body", "worker runs the service", d["fn"].loc, b.runs > 0, "the worker does not run the service", key="norun")
    stops = [f for f in conc.methods(P, CLS) if f.n == "Stop"]
    dtors = [f for f in P.funcs if f.cls == CLS and f.decl.o.get("dtor") and f.blocks]
    ctx.need(len(stops), 2, "Stop functions")
    for f in stops + dtors:
        cl = Stop(fld)
        if not cl.work or not cl.threads:
            raise AnalysisError("work object or thread list of IoService not found")
        en = Engine(P, cl)
        en.run(f)
        rule = "stop" if f.n == "Stop" else "dtor"
        ctx.engine(rule, en, f)
        ctx.ob(rule, f.q + " joins", f.loc, cl.joins > 0, "no worker is joined", key="nojoins")
        ctx.ob(rule, f.q + " releases", f.loc, cl.releases > 0, "the work object is not released", key="norelease")
        ctx.ob(rule, f.q + " checks caller", f.loc, cl.compares > 0 and any(
            t[0] == "maidsafe" and t[1].endswith("cannot_invoke_from_this_thread") for r, j, t, l in cl.throws),
            "a call from a worker thread is not refused with cannot_invoke_from_this_thread", key="nocompare")
