"""Concurrency rules shared by the property checks: locksets, lock order, callbacks and waits.

Fields, mutexes and thread roots are found from types and roles; no private name is mentioned here.
"""
from .walk import Client, Engine, roots, subterms, pstr, mentions
from .model import AnalysisError

READERS = set("""begin end cbegin cend rbegin rend find lower_bound upper_bound equal_range front back at data c_str
size empty count get operator-> operator* operator[] operator bool first second capacity get_id joinable valid""".split())

SYNC = ("std::mutex", "std::recursive_mutex", "boost::mutex", "std::condition_variable", "std::atomic", "std::once_flag",
        "boost::condition_variable", "std::timed_mutex", "std::shared_mutex", "boost::shared_mutex",
        "std::condition_variable_any", "asio::io_service", "asio::io_context", "boost::asio::io_service",
        "boost::asio::io_context", "SafeQueue<", "maidsafe::Active")


def is_sync(t):
    t = t.replace("const ", "").replace("mutable ", "").strip()
    return t.startswith(SYNC)


def fields(prog, cls):
    """{name: (type, access)} over every instantiation of the class."""
    out = {}
    for tu, r in prog.records(cls):
        for f in r["fields"]:
            out[f["n"]] = (tu.types[f["t"]], f["access"])
    return out


def methods(prog, cls, public=True):
    """Defined member functions (public ones: access 0)."""
    acc = {}
    for tu, r in prog.records(cls):
        for m in r.get("methods", []):
            acc[(tu.idx, m["d"])] = m
    out = []
    for f in prog.funcs:
        if f.cls != cls or f.is_lambda or f.o.get("defaulted") or not f.blocks:
            continue
        m = acc.get((f.tu.idx, f.o["d"]))
        if m is None:
            a = None
        else:
            a = m["access"]
        if not public or a == 0 or a is None:
            out.append(f)
    return out


def chain(path, fld):
    """(base object, field names) of an access path, for the innermost member of the class."""
    names, hit, t = [], None, path
    seen = []
    while isinstance(t, tuple) and t:
        if t[0] == "fld":
            seen.append(t[2])
            if t[2] in fld:
                hit = (t[1], tuple(reversed(seen)))
            t = t[1]
        elif t[0] in ("deref", "addr", "idx"):
            t = t[1]
            seen = []if t[0] != "fld" else []
        else:
            break
    return hit


def storage(path, fld):
    """As chain, following iterators and element references back to the container they come from."""
    h = chain(path, fld)
    if h is not None:
        return h, False
    for r in roots(path):
        if r[0] == "fld":
            h = chain(r, fld)
            if h is not None:
                return h, True
    return None, False


def threadish(ev):
    d = ev.decl
    if d is None:
        return None
    cls = d.cls or ""
    nm = d.name
    if "thread" in cls or nm in ("async", "create_thread"):
        return True
    if nm in ("emplace_back", "push_back", "emplace") and "std::thread" in (d.rectype or "") + (d.type or ""):
        return True
    return False


class Acc:
    __slots__ = ("names", "mode", "locks", "root", "kind", "phase", "loc", "fn")

    def __init__(self, **k):
        for a, v in k.items():
            setattr(self, a, v)

    def __repr__(self):
        return "%s %s [%s] {%s} %s" % (".".join(self.names), self.mode, self.root, ",".join(
            ".".join(l) if isinstance(l, tuple) else l for l in self.locks), self.loc)


class LockClient(Client):
    """State: phase of the enclosing constructor or destructor."""
    def __init__(self, prog, cls, fld, skip_opaque=()):
        self.prog, self.cls, self.fld = prog, cls, fld
        self.acc = []
        self.edges = {}
        self.root = None
        self.kind = "api"
        self.deferred_kind = {}
        self.selfdead = []
        self.under = []
        self.waits = []
        self.skip_opaque = skip_opaque

    def start(self):
        return "pre"

    def opaque(self, decl, eng, frame):
        return decl.q in self.skip_opaque

    def lockname(self, m, base=None):
        h = chain(m, self.fld)
        if h is not None:
            b, names = h
            if base is None or b == base:
                return names
            return ("other",) + names
        while m[0] in ("deref", "addr"):
            m = m[1]
        if m[0] == "glob":
            return m[1]
        if m[0] == "ret":
            return m[1] + "()"
        return pstr(m)

    def rec(self, ev, path, mode, st):
        h, via = storage(path, self.fld)
        if h is None:
            return
        base, names = h
        t = self.fld[names[0]][0]
        if is_sync(t) or t.startswith("const "):
            return
        locks = frozenset(self.lockname(m, base) for m, o in ev.locks)
        self.acc.append(Acc(names=names, mode=mode, locks=locks, root=self.root, kind=self.kind, phase=st,
                            loc=ev.loc, fn=ev.fn.q))

    def on(self, ev, st):
        k = ev.kind
        if k in ("access", "use"):
            if k == "use":
                return st
            d = ev.decl
            if d is not None and d.type and is_sync(d.type.replace("&", "").strip()):
                return st
            mode = ev.mode
            p = ev.node.parent
            # a non-const accessor does not write by itself
            x = ev.node
            while p is not None and p.k == "cast":
                x, p = p, p.parent
            if mode == "w" and p is not None and p.k == "mem" and p.decl is not None and p.decl.o.get("k") == "func" \
                    and p.decl.name in READERS and not ("map<" in p.decl.rectype and p.decl.name == "operator[]"):
                mode = "r"
            if mode == "w" and p is not None and p.k == "call" and p.o.get("obj") and p.kids[0] is x and \
                    p.decl is not None and p.decl.name in READERS and not (
                        "map<" in (p.decl.rectype or "") and p.decl.name == "operator[]"):
                mode = "r"
            if mode == "w" and p is not None and p.k == "call" and p.o.get("opc") and p.kids and p.kids[0] is x and \
                    p.decl is not None and p.decl.o.get("op") in ("*", "->", "[]", "==", "!=") and not (
                        "map<" in (p.decl.rectype or "") and p.decl.o.get("op") == "[]"):
                mode = "r"
            if mode in ("addr", "bind", "cap"):
                mode = "r" if mode != "cap" else None
            if mode is not None:
                self.rec(ev, ev.path, "w" if mode in ("w", "rw") else "r", st)
        elif k == "assign" or k == "incdec":
            h, via = storage(ev.path, self.fld)
            if h is not None:
                self.rec(ev, ev.path, "w", st)
        elif k == "acquire":
            n = self.lockname(ev.path)
            for m, o in ev.locks:
                if m == ev.path and ev.mode != "shared":
                    self.selfdead.append((n, ev.loc, ev.fn.q, self.root))
                hn = self.lockname(m)
                if hn != n and (ev.mode != "multi" or (m, o) in ev.extra):
                    self.edges.setdefault((hn, n), []).append((ev.loc, ev.fn.q, self.root))
        elif k == "call" and ev.locks:
            if ev.extra == "functor" or ev.q == "*" or ev.q in ("std::function::operator()", "boost::function::operator()"):
                self.under.append(("functor", pstr(ev.path) if ev.path else "?", ev.loc, ev.fn.q,
                                   [self.lockname(m) for m, o in ev.locks], ev.path))
            elif ev.decl is not None and not ev.inlined and ev.decl.name in ("join", "get", "wait", "sleep_for") and (
                    "thread" in (ev.decl.cls or "") or "future" in (ev.decl.cls or "") or "this_thread" in (ev.q or "")):
                self.under.append(("block", ev.decl.name, ev.loc, ev.fn.q, [self.lockname(m) for m, o in ev.locks],
                                   ev.path))
        if k == "call" and ev.decl is not None and not ev.inlined and ev.decl.name in ("join", "get", "wait") and \
                ("thread" in (ev.decl.cls or "") or "future" in (ev.decl.cls or "")):
            return "joined" if self.kind == "dtor" else st
        if k == "wait":
            self.waits.append((ev, tuple(self.lockname(m) for m, o in ev.locks)))
        if k == "defer":
            if threadish(ev):
                self.deferred_kind[ev.extra.uid] = "thread"
                return "spawned"
            self.deferred_kind.setdefault(ev.extra.uid, "task")
        return st


class ClassConc:
    """All accesses to the members of one class, from every root that can run concurrently."""
    def __init__(self, ctx, prog, cls, extra=(), skip_roots=(), opaque=(), thread_is_serial=True, exc=False,
                 maxconf=150000):
        self.prog, self.cls = prog, cls
        self.fld = fields(prog, cls)
        if not self.fld:
            raise AnalysisError("class %s not found" % cls)
        self.cl = LockClient(prog, cls, self.fld, opaque)
        self.roots = []
        fns = methods(prog, cls) + list(extra)
        for f in fns:
            if f.q in skip_roots:
                continue
            kind = "ctor" if f.decl.o.get("ctor") else "dtor" if f.decl.o.get("dtor") else "api"
            self.cl.root, self.cl.kind = f.q, kind
            e = Engine(prog, self.cl, exc=exc, maxconf=maxconf)
            e.run(f)
            ctx.ran(e, f)
            self.roots.append((f.q, kind))
            # work handed to other threads
            done = set()
            todo = list(e.deferred.items())
            while todo:
                key, d = todo.pop()
                if key in done:
                    continue
                done.add(key)
                g = d["fn"]
                kd = self.cl.deferred_kind.get(g.uid, "task")
                self.cl.root, self.cl.kind = "%s@%s" % (kd, g.loc), kd
                e2 = Engine(prog, self.cl, exc=exc, maxconf=maxconf)
                e2.fkeys = e.fkeys
                e2.run(g, this=d["this"], env=d["env"]) if not d["fn"].is_lambda else self.run_lambda(e2, d)
                ctx.ran(e2, g)
                self.roots.append((self.cl.root, kd))
                todo += [x for x in e2.deferred.items()]

    @staticmethod
    def run_lambda(e, d):
        from .walk import Frame, Conf
        f = d["fn"]
        fr = Frame(f, e.fkey(d["pfk"], ("defer", f.uid)), d["pfk"], d["this"], None, None, (), "root")
        c = Conf((fr,), f.entry, 0, dict(d["env"]), (), e.client.start())
        e.explore([c])

    def races(self):
        """{field: (write, other)} for concurrent access pairs with no common lock."""
        out = {}
        live = [a for a in self.cl.acc if not (a.kind == "ctor" and a.phase == "pre") and a.phase != "joined"]
        uniq = {}
        for a in live:
            uniq.setdefault((a.names, a.mode, a.locks, a.root, a.kind, a.phase, a.loc), a)
        live = list(uniq.values())
        for i, a in enumerate(live):
            for b in live[i:]:
                if "w" not in (a.mode, b.mode):
                    continue
                n = min(len(a.names), len(b.names))
                if a.names[:n] != b.names[:n]:
                    continue
                if not self.concurrent(a, b):
                    continue
                if a.locks & b.locks:
                    continue
                w, o = (a, b) if a.mode == "w" else (b, a)
                out.setdefault(a.names[:n], []).append((w, o))
        return out

    def concurrent(self, a, b):
        ka, kb = a.kind, b.kind
        if "ctor" in (ka, kb) or "dtor" in (ka, kb):
            # only a thread the object itself started can run beside its constructor or destructor
            other = kb if ka in ("ctor", "dtor") else ka
            return other in ("thread", "task") and a.root != b.root
        if a.root == b.root and ka in ("thread",):
            return False
        return True

    def guarded(self):
        """{field: locks common to all its concurrent accesses} for fields that have one."""
        out = {}
        for a in self.cl.acc:
            if a.kind == "ctor" and a.phase == "pre" or a.phase == "joined":
                continue
            out.setdefault(a.names[0], []).append(a)
        r = {}
        for n, accs in out.items():
            common = frozenset.intersection(*[a.locks for a in accs])
            r[n] = (common, len(accs), sum(1 for a in accs if a.mode == "w"))
        return r

    def late_init(self, prog):
        """Members initialised after a thread that uses them has been started."""
        touched = set(a.names[0] for a in self.cl.acc if a.kind in ("thread",))
        out = []
        for f in self.prog.funcs:
            if f.cls != self.cls or not f.decl.o.get("ctor") or f.o.get("defaulted"):
                continue
            client = InitOrder(self.fld)
            e = Engine(self.prog, client)
            e.run(f)
            for name, loc in client.late:
                if name in touched or is_sync(self.fld.get(name, ("",))[0]):
                    out.append((name, loc, f.q))
        return out


class InitOrder(Client):
    def __init__(self, fld):
        self.fld = fld
        self.late = []
        self.spawns = 0

    def start(self):
        return False

    def on(self, ev, st):
        if ev.kind == "defer" and threadish(ev):
            self.spawns += 1
            return True
        if ev.kind == "init" and st and ev.decl is not None and len(ev.stack) == 1:
            if not (ev.term and ev.term[0] == "lambda"):
                t = ev.decl.type
                if "thread" not in t and "future" not in t:
                    self.late.append((ev.decl.name, ev.loc))
        return st


def lockset(ctx, rule, cc, allow=(), floor=1):
    """Obligations of the lockset rule for one class."""
    races = cc.races()
    g = cc.guarded()
    ctx.need(len(g), floor, "shared members of " + cc.cls)
    for n, (common, cnt, wr) in sorted(g.items()):
        bad = [(k, v) for k, v in races.items() if k[0] == n]
        bad = [(k, v) for k, v in bad if ".".join(k) not in allow and n not in allow]
        if not bad:
            ctx.ob(rule, "%s::%s (%d accesses, %d writes, guarded by %s)" % (
                cc.cls, n, cnt, wr, ", ".join(".".join(x) if isinstance(x, tuple) else str(x) for x in common) or
                ("no lock needed" if not wr else "phase")), "", True, key="%s::%s" % (cc.cls, n))
        for k, v in bad:
            w, o = v[0]
            ctx.ob(rule, "%s::%s" % (cc.cls, ".".join(k)), w.loc, False,
                   "%s::%s is written in %s (%s, holding %s) and %s in %s (%s, holding %s) with no common lock" % (
                       cc.cls, ".".join(k), w.fn, w.root, fmt(w.locks), "written" if o.mode == "w" else "read", o.fn,
                       "%s %s" % (o.root, o.loc), fmt(o.locks)))


def fmt(locks):
    return "{" + ", ".join(".".join(x) if isinstance(x, tuple) else str(x) for x in sorted(locks, key=str)) + "}"


def lock_order(ctx, rule, ccs):
    """No self-deadlock and no cycle in the acquisition order over the given classes."""
    edges = {}
    n = 0
    for cc in ccs:
        nm = lambda x: (cc.cls + "." + ".".join(x)) if isinstance(x, tuple) else x
        for (a, b), where in cc.cl.edges.items():
            edges.setdefault(nm(a), {}).setdefault(nm(b), where[0])
            n += 1
        for m, loc, fn, root in cc.cl.selfdead:
            ctx.ob(rule, "%s re-acquired" % nm(m), loc, False, "%s is acquired while already held, in %s (entered from %s)" %
                   (nm(m), fn, root))
    seen = set()
    for a in sorted(edges):
        for b in sorted(edges[a]):
            # path from b back to a
            st, vis, found = [(b, [a, b])], set(), None
            while st:
                x, p = st.pop()
                if x == a:
                    found = p
                    break
                if x in vis:
                    continue
                vis.add(x)
                for y in edges.get(x, {}):
                    st.append((y, p + [y]))
            loc, fn, root = edges[a][b]
            cyc = frozenset(found) if found else None
            ctx.ob(rule, "%s before %s" % (a, b) if not found else "cycle " + " / ".join(sorted(cyc)), loc, found is None,
                   "acquisition order cycle %s; this edge taken in %s from %s" % (" -> ".join(found or []), fn, root))
    return n
