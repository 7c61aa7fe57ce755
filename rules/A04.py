"""DataBuffer: stores, limits and worker only under their locks; nobody waits for ever."""
from msa import conc
from msa.walk import Engine, pstr
from msa.model import AnalysisError

CLS = "maidsafe::DataBuffer"
NOTIFY = ("notify_one", "notify_all")
SET = ("operator=", "store", "exchange", "clear", "test_and_set", "compare_exchange_strong")
REL = ("<", ">", "<=", ">=", "==", "!=")
LOOPS = ("WhileStmt", "ForStmt", "DoStmt")


class Wake(conc.LockClient):
    """State: (phase, writes to a store nobody waiting has been told of, conditions still to be notified of the stop flag,
    (comparisons with a limit made before it is changed, whether it was copied), limits changed: (name, excuse for silence))."""
    def __init__(self, prog, cls, fld, flags, conds):
        super().__init__(prog, cls, fld)
        self.flags, self.conds = flags, conds
        self.sites, self.told, self.flagw, self.notes, self.ends, self.mute = {}, set(), [], [], [], []

    def start(self):
        return ("pre", frozenset(), frozenset(), (frozenset(), False), frozenset())

    def on(self, ev, st):
        phase, pend, due, old, lims = st
        k = len(self.acc)
        r = super().on(ev, phase)
        if not isinstance(r, str):
            return r
        phase = r
        for a in self.acc[k:]:
            if a.mode == "w" and self.kind != "ctor" and len(a.names) > 1:
                for c in self.conds:
                    if c[0] == a.names[0]:
                        key = (c, a.names[:2], a.loc, a.fn, self.root)
                        self.sites[key] = a
                        pend = pend | {key}
                if a.names[1] == "max" and self.kind == "api":
                    lims = frozenset(x for x in lims if x[0] != a.names[0]) | {(a.names[0], "none")}
        if self.kind == "api" and ev.term is not None and ev.kind in ("assign", "decl", "branch"):
            t, truth = ev.term, ev.truth
            while isinstance(t, tuple) and t and t[0] == "not":
                t, truth = t[1], not truth if truth is not None else None
            rel = isinstance(t, tuple) and len(t) == 4 and t[0] == "bin" and t[1] in REL
            m = self.limits(t)
            if m and not any(x[0] in m for x in lims):
                old = (old[0] | {t}, old[1]) if rel else (old[0], old[1] or ev.kind != "branch")
            if ev.kind == "branch" and lims:
                lims = frozenset((n, self.excuse(n, x, t if rel and n in m else None, truth, old)) for n, x in lims)
        h = conc.storage(ev.path, self.fld)[0] if ev.path is not None else None
        if ev.kind == "call" and ev.decl is not None and h is not None and not ev.inlined:
            if ev.decl.name in NOTIFY:
                self.notes.append((ev, h[1]))
                for x in list(pend):
                    if x[0] == h[1]:
                        self.told.add(x)
                        pend = pend - {x}
                lims = frozenset(x for x in lims if x[0] != h[1][0])
                due = due - {h[1]}
            if ev.decl.name in SET and h[1][0] in self.flags and self.kind != "ctor":
                self.flagw.append((ev, h[1][0], frozenset(self.lockname(m) for m, o in ev.locks), self.root))
                due = due | frozenset(self.conds)
        if ev.kind == "exit" and ev.truth and due and self.kind != "ctor":
            self.ends.append((ev, due))
        if ev.kind == "exit" and ev.truth and self.kind == "api":
            self.mute += [(ev, n, x, self.root) for n, x in lims if x in ("self", "raised")]
        return (phase, pend, due, old, lims)

    def limits(self, t):
        """The stores whose limit a term is about."""
        out = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == "fld" and x[2] == "max" and isinstance(x[1], tuple) and x[1][0] == "fld":
                    out.add(x[1][2])
                todo.extend(x)
        return out

    def excuse(self, name, was, t, truth, old):
        if was == "fine":
            return was
        if t is None or old[1]:
            return "fine"               # something else decides
        if t not in old[0]:
            return "self"               # the new limit compared with itself
        op, left = t[1], name in self.limits(t[2])
        up = {">": True, ">=": True, "<": False, "<=": False}.get(op)
        if up is None:
            return "fine"
        raised = (up != left) == truth
        return "raised" if raised else "fine"


INS = ("emplace_back", "push_back", "emplace_front", "push_front", "emplace", "insert")
DEL = ("erase", "pop_front", "pop_back")


class Account(conc.Client):
    """State per store: (bytes counted minus entries kept since the lock was taken; for entries with files: what is known of the
    state looked at, whether a file was removed and its bytes given back; byte count changed since the lock was taken;
    predicate being run (None, or whether the count was changed in it); places where several entries were erased)."""
    def __init__(self, prog, fld, plain, filed, done):
        self.prog, self.fld, self.plain, self.filed, self.done = prog, fld, plain, filed, done
        self.ins = self.dels = self.looked = 0
        self.totals = None
        self.removers, self.picks, self.many, self.settled = set(), {}, {}, set()

    def start(self):
        return (0, None, False, False, False, None, frozenset())

    def place(self, p):
        return conc.storage(p, self.fld)[0] if p is not None else None

    def on(self, ev, st):
        bal, seen, removed, back, chg, pick, many = st
        k = ev.kind
        if k == "enter" and ev.node is not None and ev.node.decl is not None and ev.node.decl.name in ("remove_if", "partition",
                "stable_partition") and any(x.k == "mem" and x.decl is not None and x.decl.name == self.plain for x in ev.node.walk()):
            self.removers.add(ev.decl)
            return (bal, seen, removed, back, chg, (ev.decl, bal, False), many)
        if k == "leave" and pick is not None and ev.decl is pick[0]:
            if ev.term in (("const", 0), ("const", 1)):
                self.picks.setdefault((ev.decl, ev.node is not None), {}).setdefault(ev.term[1], set()).add(pick[2])
            else:
                self.picks.setdefault((ev.decl, ev.node is not None), {}).setdefault(2, set()).add(pick[2])
            return (pick[1], seen, removed, back, chg, None, many)
        if k == "branch":
            t, truth = ev.term, ev.truth
            while t[0] == "not":
                t, truth = t[1], not truth
            if t[0] == "bin" and t[1] in ("==", "!=") and any(x[0] == "enum" for x in t[2:]):
                en = [x for x in t[2:] if x[0] == "enum"][0][1]
                if any(self.field(x) for x in t[2:]):
                    self.looked += 1
                    hit = (t[1] == "==") == truth
                    seen = ("is", en) if hit else seen if seen is not None and seen[0] == "is" else \
                        ("not",) + tuple(sorted(set(seen[1:] if seen is not None and seen[0] == "not" else ()) | {en}))
                    return (bal, seen, removed, back, chg, pick, many)
        if k == "access" and self.field(ev.path) and seen is None:
            seen = ("some",)
        if k == "throw":
            return (0, seen, removed, back, chg, pick, frozenset())
        h = self.place(ev.path)
        if k == "call" and ev.decl is not None and not ev.inlined:
            if ev.q.startswith("boost::filesystem::remove"):
                removed = True
            if h is not None and len(h[1]) == 2 and self.is_index(h[1]):
                if ev.decl.name in INS and h[1][0] == self.plain:
                    self.ins += 1
                    bal = bal - 1 if bal is not None else None
                if ev.decl.name in DEL and h[1][0] == self.plain and len(ev.node.args) < 2:
                    self.dels += 1
                    bal = bal + 1 if bal is not None else None
                if ev.decl.name in DEL and h[1][0] == self.plain and len(ev.node.args) > 1:
                    self.dels += 1
                    bal = 0         # how many depends on the predicate
                    self.many[ev.loc] = ev.fn.q
                    many = many | {ev.loc}
                    if chg:
                        self.settled.add(ev.loc)
                if ev.decl.name in DEL and h[1][0] == self.filed:
                    self.dels += 1
                    if seen is None:
                        ev.eng.report("entries of the disk index are erased without looking at whether they have a file", ev, "blind")
                    elif (seen == ("is", self.done) or seen[0] == "not" and self.done not in seen) and not (removed and back):
                        ev.eng.report("an entry which %s been stored is erased from the disk index, and its %s" % (
                            "has" if seen[0] == "is" else "may have", "file is not removed" if not removed else "bytes are not given back"), ev, "keeps-file")
                    seen, removed, back = None, False, False
        if k == "assign" and h is not None and len(h[1]) > 1 and h[1][1] == "current":
            m = ev.mode
            if m == "=":
                v = ev.term
                m = v[1] + "=" if isinstance(v, tuple) and len(v) == 4 and v[0] == "bin" and v[1] in ("+", "-") else None
            if h[1][0] == self.plain:
                chg, pick = True, (pick[0], pick[1], True) if pick is not None else None
                self.settled |= many
                if m not in ("+=", "-="):
                    bal = None          # set in a way not followed
                elif many or self.sums(ev):
                    bal = 0 if bal is not None else None    # for several entries at once
                elif bal is not None:
                    bal = max(-3, min(3, bal + (1 if m == "+=" else -1)))
            elif m != "+=":
                back = True
        if k == "release" and h is not None and h[1][0] == self.plain or k == "exit" and ev.truth:
            if bal:
                ev.eng.report("the lock of the memory store is given back with its index and the bytes it counts out of step", ev, "balance")
            bal, chg, many = 0, False, frozenset()
        if k == "release" and h is not None and h[1][0] == self.filed:
            seen, removed, back = None, False, False
        return (bal, seen, removed, back, chg, pick, many)

    def sums(self, ev):
        """Is the amount a local in which several are added up?"""
        if self.totals is None:
            self.totals = set()
            for f in self.prog.funcs:
                for x in f.nodes:
                    if x is not None and x.k == "assign" and x.op == "+=" and x.kids[0].strip().k == "ref":
                        self.totals.add(x.kids[0].strip().decl)
        ks = [x for a in ev.node.kids[1:] if a is not None for x in a.walk()]
        return any(x.k == "ref" and x.decl in self.totals for x in ks)

    def field(self, t):
        return isinstance(t, tuple) and len(t) == 3 and t[0] == "fld" and t[2] == "state"

    def is_index(self, names):
        return names[1] == "index"


def refers(P, node, names, seen=None):
    """Does the code below a node, or a function of the repository it calls, refer to one of these members?"""
    seen = set() if seen is None else seen
    for x in node.walk():
        d = x.decl
        if x.k in ("mem", "ref") and d is not None and d.name in names:
            return True
        f = None
        if x.k in ("call", "construct") and d is not None:
            f = P.body(d)
        elif x.k == "lambda":
            f = lambda_body(P, x)
        if f is not None and f.uid not in seen:
            seen.add(f.uid)
            if any(refers(P, y, names, seen) for y in f.nodes if y is not None and y.k in ("mem", "ref", "call", "construct")):
                return True
    return False


def loops(P, node, depth=0):
    """The innermost loops around a node, through the functions it is called from."""
    p = node.parent
    while p is not None and p.k not in LOOPS:
        p = p.parent
    if p is not None:
        return [p]
    out = []
    if depth < 3:
        for f in P.funcs:
            for x in f.nodes:
                if x.k == "call" and x.decl is not None and P.body(x.decl) is node.fn:
                    out += loops(P, x, depth + 1)
    return out


def lambda_body(P, x):
    fid = x.o.get("fn", x.o.get("f"))
    return x.fn.tu.bydecl.get(fid) if fid is not None else None


def check(ctx):
    ctx.rule("lockset", "every member shared between callers and the worker has one lock held at all its accesses")
    ctx.rule("order", "lock acquisition is acyclic and no lock is taken twice")
    ctx.rule("block", "nobody waits for the worker to finish while holding a lock the worker takes")
    ctx.rule("stop", "whatever waits looks at the stop flag too, again after each wake-up; the flag is set under the lock of "
                     "everyone who waits for it, and they are notified on every path")
    ctx.rule("wake", "a change to what somebody waits for is followed by a notification, of all if several wait")
    ctx.rule("init", "every member the worker uses is initialised before the worker starts")
    ctx.rule("account", "bytes counted change with the index under one hold of the lock; what is erased from the disk index loses "
                        "its file, and gives back its bytes, if it has one")
    P = ctx.prog("src/maidsafe/common/data_buffer.cc")
    cc = conc.ClassConc(ctx, P, CLS)
    conc.lockset(ctx, "lockset", cc, floor=3)
    conc.lock_order(ctx, "order", [cc])
    late = cc.late_init(P)
    ctx.ob("init", CLS + " constructors", "", not late, str(late[:2]))
    threads = [r for r, k in cc.roots if k == "thread"]
    ctx.need(len(threads), 1, "worker threads of DataBuffer")
    fld = cc.fld
    flags = [n for n, (t, a) in fld.items() if t.startswith(("std::atomic<bool>", "std::atomic_bool"))]
    # what waits, where, with which lock
    waits = {}
    for ev, locks in cc.cl.waits:
        h = conc.storage(ev.path, fld)[0] if ev.path is not None else None
        if h is None:
            continue
        lk = [x for x in locks if isinstance(x, tuple)]
        waits.setdefault((h[1], ev.loc), (ev, set()))[1].update(lk)
    if not waits:
        raise AnalysisError("DataBuffer waits for nothing")
    conds = sorted(set(c for c, l in waits))
    ctx.need(len(flags), 1, "stop flag of DataBuffer")
    guard = {}
    for (c, loc), (ev, lk) in sorted(waits.items(), key=str):
        guard.setdefault(c, set()).update(lk)
        p = loops(P, ev.node)
        pred = [x for a in ev.node.args[1:] if a is not None for x in a.walk() if x.k == "lambda"]
        ctx.ob("stop", "wait at " + loc, loc, bool(p) or bool(pred),
               "%s waits in %s without looking again at what it waits for" % (pstr(ev.path), ev.fn.q), key="noloop|" + ev.fn.q)
        looks = any(refers(P, x, flags) for x in pred or p)
        ctx.ob("stop", "wait at %s sees the stop flag" % loc, loc, looks,
               "%s waits on %s in %s without looking at %s: it waits for ever once the buffer has stopped" % (
                   ev.fn.q, ".".join(c), ev.fn.q, "/".join(flags)), key="noflag|" + ev.fn.q)
    # blocking on the worker
    taken = set()
    cl = Wake(P, CLS, fld, flags, conds)
    wl = set(n for (a, b), where in cc.cl.edges.items() for n in (a, b) if any(x[2] in threads for x in where))
    for a in cc.cl.acc:
        if a.kind == "thread":
            taken |= set(x for x in a.locks if isinstance(x, tuple))
    bad = [u for u in cc.cl.under if u[0] == "block" and u[1] in ("get", "join", "wait") and (taken | wl) & set(u[4])]
    ctx.ob("block", "blocking calls", "", True, "")
    for u in bad:
        # a result known to be there does not block
        ctx.ob("block", "%s() in %s" % (u[1], u[3]), u[2], False, "%s() waits for the worker in %s while %s is held, which the worker needs "
               "to finish" % (u[1], u[3], [".".join(x) for x in u[4] if x in taken | wl]), key="block|" + u[3])
    # notifications
    for f in conc.methods(P, CLS):
        kind = "ctor" if f.decl.o.get("ctor") else "dtor" if f.decl.o.get("dtor") else "api"
        cl.root, cl.kind = f.q, kind
        e = Engine(P, cl)
        e.run(f)
        ctx.ran(e, f)
        for key, d in e.deferred.items():
            g = d["fn"]
            if cl.deferred_kind.get(g.uid) != "thread":
                continue
            cl.root, cl.kind = "worker", "thread"
            e2 = Engine(P, cl)
            e2.fkeys = e.fkeys
            e2.run(g, this=d["this"], env=d["env"]) if not g.is_lambda else cc.run_lambda(e2, d)
            ctx.ran(e2, g)
    ctx.need(len(cl.sites), 4, "changes to the stores")
    raised = set((k[4], k[1]) for k in cl.told)
    for key, a in sorted(cl.sites.items(), key=str):
        if key[1][1:2] == ("max",) and (key[4], key[1]) in raised:
            continue            # a lower limit is no news
        ctx.ob("wake", "change of %s at %s" % (".".join(key[1]), a.loc), a.loc, key in cl.told,
               "%s is changed in %s (entered from %s), and no notification of %s follows on any path" % (
                   ".".join(key[1]), a.fn, key[4], ".".join(key[0])),
               key="silent|%s|%s" % (a.fn, ".".join(key[1])))
    for ev, c in cl.notes:
        n = len([1 for w, l in waits if w == c])
        ctx.ob("wake", "notification at " + ev.loc, ev.loc, ev.decl.name == "notify_all" or n < 2,
               "notify_one wakes one of the %d places that wait on %s, perhaps not the one that can go on" % (n, ".".join(c)),
               key="one|" + ev.fn.q)
    ctx.need(len(cl.flagw), 1, "places that set the stop flag")
    for ev, flag, locks, root in cl.flagw:
        for c in conds:
            ok = not guard[c] or bool(guard[c] & locks)
            ctx.ob("stop", "%s set at %s" % (flag, ev.loc), ev.loc, ok,
                   "%s is set in %s without %s (entered from %s): somebody who has just looked at it waits for ever" % (
                       flag, ev.fn.q, " or ".join(".".join(x) for x in guard[c]), root), key="flaglock|%s|%s" % (ev.fn.q, ".".join(c)))
    for ev, n, x, root in cl.mute:
        ctx.ob("wake", "limit of %s changed in %s" % (n, root), ev.loc, False, "%s may raise %s.max without notifying those who wait for "
               "space: %s" % (root, n, "the notification depends on the new limit compared with itself" if x == "self" else
                              "a path on which it is raised has no notification"), key="limit|%s|%s" % (root, n))
    for ev, due in cl.ends:
        ctx.ob("stop", "end of " + ev.fn.q, ev.loc, False, "the stop flag is set and %s is not notified" % ", ".join(
            ".".join(c) for c in due), key="flagnote|" + ev.fn.q)
    # bytes and files follow the indices
    plain = [n for n in fld if n.startswith("memory")]
    filed = [n for n in fld if n.startswith("disk")]
    if len(plain) != 1 or len(filed) != 1:
        return
    ins = dels = 0
    for f in conc.methods(P, CLS):
        if f.decl.o.get("ctor") or f.decl.o.get("dtor"):
            continue
        cl = Account(P, fld, plain[0], filed[0], CLS + "::StoringState::kCompleted")
        e = Engine(P, cl)
        e.run(f)
        ctx.engine("account", e, f)
        for loc, q in sorted(cl.many.items()):
            ctx.ob("account", "entries erased at " + loc, loc, loc in cl.settled, "several entries are erased from the index of the memory "
                   "store in %s, and the bytes it counts do not change under that hold of the lock" % q, key="many|" + q)
        for (d, _), by in cl.picks.items():
            odd = 2 not in by and (len(by.get(1, ())) > 1 or True in by.get(0, ()))
            ctx.ob("account", "predicate of %s" % f.q, "", not odd, "the predicate that chooses what %s erases changes the bytes counted for "
                   "some of what it keeps, or not for all it chooses" % f.q, key="pick|" + f.q)
        ins, dels = ins + cl.ins, dels + cl.dels
    ctx.need(min(ins, dels), 1, "insertions into and removals from the indices")
