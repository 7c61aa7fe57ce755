"""tcp::Connection and tcp::Listener: strand confinement, lifetime of handlers, one write and one read at a time, close once."""
from collections import namedtuple
from msa import conc
from msa.walk import Engine, pstr, subterms, roots, PRUNE
from msa.model import AnalysisError

SPAN = "maidsafe::tcp::"
POST = ("post", "dispatch", "defer")
WRAP = ("wrap", "bind_executor")
LOOK = ("local_endpoint", "remote_endpoint")
FREE = ("once_flag", "strand", "function<", "Functor")
St = namedtuple("St", "err asked empty pushed popped reads writes delivered closed bounded gone")
NONE = St(None, frozenset(), None, False, 0, 0, 0, 0, False, frozenset(), False)


def reaches(P, f, pred, seen=None, lambdas=True):
    """Does a function, or what it calls or hands over, contain a call with this property?"""
    seen = set() if seen is None else seen
    if f is None or f.uid in seen:
        return False
    seen.add(f.uid)
    for x in f.nodes:
        if x is None:
            continue
        if x.k in ("call", "construct") and x.decl is not None:
            if pred(x) or reaches(P, P.body(x.decl), pred, seen, lambdas):
                return True
        if lambdas and x.k == "lambda" and x.o.get("f") is not None and reaches(P, x.fn.tu.bydecl.get(x.o["f"]), pred, seen):
            return True
    return False


def weights(t):
    """{index of byte: shift} of a number put together from bytes, or None."""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "ret" and t[1].endswith("::operator[]") and t[3] and t[3][0][0] == "const":
        return {t[3][0][1]: 0}
    if t[0] == "bin" and t[1] == "<<" and t[3][0] == "const":
        w = weights(t[2])
        return {i: s + t[3][1] for i, s in w.items()} if w else None
    if t[0] == "bin" and t[1] in ("|", "+", "^"):
        a, b = weights(t[2]), weights(t[3])
        return {**a, **b} if a and b and not set(a) & set(b) else None
    return None


def number(t, i, k):
    """A term as number, for the value k of i."""
    if t == i:
        return k
    if t[0] == "const":
        return t[1]
    if t[0] == "cast":
        return number(t[-1], i, k)
    if t[0] == "bin" and t[1] in ("+", "-", "*", "%", "/", "&", "<<"):
        a, b = number(t[2], i, k), number(t[3], i, k)
        if a is None or b is None or (t[1] in "%/" and b <= 0) or a < 0 or b < 0:
            return None
        return {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "<<": a << b if b < 64 else 0}[t[1]] if t[1] not in "%/" else (
            a % b if t[1] == "%" else a // b)
    return None


class Root(conc.Client):
    """One function entered from outside, or one handler.  role: any, read, write, accept, or None for what is posted."""
    def __init__(self, chk, name, strand, role):
        self.c, self.name, self.strand, self.role = chk, name, strand, role
        self.found = {}             # handler -> (on the strand, role)

    def start(self):
        return NONE

    @staticmethod
    def terms(ev):
        for pair in ev.args or ():
            for v in pair:
                yield from subterms(v)

    def member(self, p):
        """The confined member a path reaches into."""
        if p is None:
            return None
        for t in subterms(p) if isinstance(p, tuple) else ():
            if t[0] == "fld" and t[2] in self.c.confined:
                return t[2]
        return None

    def straight(self, p):
        """As member, but only along the path itself."""
        while isinstance(p, tuple) and p:
            if p[0] == "fld" and p[2] in self.c.confined:
                return p[2]
            if p[0] in ("fld", "deref", "addr", "idx"):
                p = p[1]
            elif p[0] == "ret" and p[1].split("::")[-1] in ("front", "back", "operator[]", "at", "begin", "data"):
                p = p[2]
            else:
                return None
        return None

    def frame(self, ev, st):
        """The length of a message is four bytes, the most significant first."""
        p = ev.path
        if self.role == "read":
            w = weights(ev.term)
            if w and len(w) > 1:
                self.c.frames += 1
                if w != {i: 24 - 8 * i for i in range(4)}:
                    self.bad(ev, "frame", "the length of a message is put together from its bytes as %s in %s" % (sorted(w.items()), ev.fn.q),
                             "decode|" + ev.fn.q)
        elif isinstance(p, tuple) and p and p[0] in ("ret", "idx") and any(t[0] == "fld" and "size" in str(t[2]) for t in subterms(p)):
            i = p[3][0] if p[0] == "ret" and p[3] else p[2] if p[0] == "idx" else None
            t = ev.term
            if t[0] == "cast":
                t = t[-1]
            if i is None:
                return
            n, off = (t[2], t[3]) if t[0] == "bin" and t[1] == ">>" else (t, ("const", 0))
            if n[0] not in ("var", "ret"):
                return
            for k in range(4) if i[0] != "const" else (i[1],):
                x = number(off, i, k)
                if x is None:
                    return
                self.c.frames += 1
                if x != 24 - 8 * k:
                    self.bad(ev, "frame", "byte %d of the length of a message is that shifted by %d in %s" % (k, x, ev.fn.q), "encode|" + ev.fn.q)
            if n not in st.bounded and not any(x[0] == "ret" and x[1].split("::")[-1] == "size" for x in st.bounded):
                self.bad(ev, "size", "a message is sent without having been compared with the limit in %s" % ev.fn.q, "limit|" + ev.fn.q)
            if ("some",) not in st.bounded:
                self.bad(ev, "size", "a message is sent without having been found not to be empty in %s" % ev.fn.q, "none|" + ev.fn.q)

    def bad(self, ev, rule, msg, key):
        self.c.bad[(rule, key, ev.loc if not isinstance(ev, str) else ev)] = msg

    def touch(self, ev, m, what):
        if m is None:
            return
        self.c.seen.add((m, ev.loc))
        if not self.strand:
            self.bad(ev, "strand", "%s is used (%s) in %s, which does not run on the strand (entered from %s)" % (
                m, what, ev.fn.q, self.name), "%s|%s|%s" % (m, ev.fn.q, what))

    def on(self, ev, st):
        k = ev.kind
        if k == "exit":
            return self.finish(ev, st)
        if k == "branch":
            return self.branch(ev, st)
        if k in ("assign", "incdec"):
            self.touch(ev, self.straight(ev.path), k)
            if k == "assign":
                self.frame(ev, st)
            return st
        if k == "decl" and ev.term is not None:
            self.frame(ev, st)
            return st
        if k == "defer":
            self.hand(ev)
            if (ev.q or "").startswith("asio::") and ev.decl.name in POST:
                if reaches(self.c.P, ev.extra, lambda y: self.kind_of(y.decl.name) == "read", lambdas=False):
                    st = st._replace(reads=min(3, st.reads + 1))
                if self.role == "accept":
                    if reaches(self.c.P, ev.extra, lambda y: self.kind_of(y.decl.name) == "accept", lambdas=False):
                        st = st._replace(reads=min(3, st.reads + 1))
                    else:
                        st = st._replace(gone=True)
                if reaches(self.c.P, ev.extra, lambda y: y.decl.name == "operator()" and any(
                        x.k == "mem" and x.decl is not None and self.c.message(("fld", ("this",), x.decl.name)) for x in y.walk()), lambdas=False):
                    st = st._replace(delivered=min(3, st.delivered + 1))
            return st
        if k != "call" or ev.decl is None or ev.inlined:
            return st
        nm, q = ev.decl.name, ev.q or ""
        obj = self.straight(ev.path)
        argm = [self.straight(a) for pair in ev.args or () for a in pair[:1]]
        if obj and nm not in LOOK:
            self.touch(ev, obj, nm)
        kind = self.kind(ev)
        if kind:
            for m in argm:
                self.touch(ev, m, nm)
            if kind != "close":
                for t in self.terms(ev):
                    if t[0] == "lambda":
                        self.found[t[1]] = (self.found.get(t[1], (False,))[0], kind)
        if q.startswith("asio::buffer"):
            a = ev.args[0][0] if ev.args else None
            self.c.buffers += 1
            if a is not None and self.member(a) is None and (a[0] == "var" or any(r[0] == "var" for r in self.bases(a))):
                self.bad(ev, "alive", "a buffer of an asynchronous operation is a local of %s, gone before it completes" % ev.fn.q,
                         "buffer|" + ev.fn.q)
        if obj and obj in self.c.queue:
            ident = None
            if nm in ("empty", "size"):
                ident = (ev.stack[-1].fk, ev.node.id)
                if not st.pushed and not st.popped:
                    st = st._replace(asked=st.asked | {ident})
                else:
                    st = st._replace(asked=st.asked - {ident})
            if nm in ("push_back", "emplace_back", "push"):
                st = st._replace(pushed=True)
            if nm in ("pop_front", "pop"):
                st = st._replace(popped=st.popped + 1, empty=None)
            if nm in ("push_front", "emplace_front", "pop_back"):
                self.bad(ev, "queue", "messages leave in another order than they were sent: %s in %s" % (nm, ev.fn.q), "order|" + ev.fn.q)
            if nm == "clear":
                st = st._replace(popped=st.popped + 1, empty=True)
        if nm in ("resize", "reserve", "assign") and obj and ev.args and self.role == "read":
            t = ev.args[0][0]
            if t[0] not in ("const",) and t not in st.bounded:
                self.bad(ev, "size", "the size of the message is used in %s without having been compared with the limit" % ev.fn.q, "size|" + ev.fn.q)
            self.c.sized += 1
        if kind == "write":
            st = self.write(ev, st)
        if kind == "read" or kind == "accept" and self.role == "accept":
            st = st._replace(reads=min(3, st.reads + 1))
        if kind == "close" and obj and self.c.sock(obj) or nm == "operator()" and ev.path is not None and self.c.closed(ev.path):
            if not any(f.call is not None and f.call.decl is not None and f.call.decl.name == "call_once" for f in ev.stack):
                self.bad(ev, "close", "%s in %s happens again each time %s is called" % (nm if kind else "the report of the closing", ev.fn.q, self.name),
                         "close|" + ev.fn.q)
            self.c.closes += 1
        if nm == "call_once" and self.c.closing(ev):
            st = st._replace(closed=True)
        if nm == "operator()" and self.role == "accept" and st.err and isinstance(ev.path, tuple) and any(
                t[0] == "fld" and t[2] in self.c.fld and "function" in self.c.fld[t[2]][0] for t in subterms(ev.path)):
            self.bad(ev, "error", "a connection which was not accepted is reported in %s" % ev.fn.q, "failed|" + ev.fn.q)
        if nm == "operator()" and ev.path is not None and self.c.message(ev.path):
            st = st._replace(delivered=min(3, st.delivered + 1))
        return st

    @staticmethod
    def bases(t):
        for x in roots(t):
            y = x
            while isinstance(y, tuple) and y and y[0] in ("fld", "idx"):
                y = y[1]
            yield y

    def kind(self, ev):
        return self.kind_of(ev.decl.name)

    @staticmethod
    def kind_of(nm):
        if nm.startswith("async_write") or nm == "async_send":
            return "write"
        if nm.startswith("async_read") or nm == "async_receive":
            return "read"
        if nm == "async_accept":
            return "accept"
        if nm in ("close", "shutdown"):
            return "close"
        return None

    def hand(self, ev):
        """A lambda handed to something which may run it later."""
        f, nm = ev.extra, ev.decl.name if ev.decl is not None else ""
        q = ev.q or ""
        if not (q.startswith("asio::") or nm in WRAP):
            return
        on, role = self.found.get(f.uid, (False, None))[:2]
        kind = self.kind(ev)
        if nm in WRAP:
            on = True
        elif nm in POST and ev.node.args and ev.node.args[0] is not None and "strand" in ev.node.args[0].type:
            on = True
        elif kind:
            role = kind
            b = [y for a in ev.node.args if a is not None for y in a.walk() if y.k == "call" and y.decl is not None and y.decl.name in WRAP]
            on = on or bool(b)
        self.found[f.uid] = (on, role)
        for lam in [x for g in [ev.fn] for x in g.nodes if x is not None and x.k == "lambda" and x.o.get("f") is not None and
                    g.tu.bydecl.get(x.o["f"]) is f]:
            self.c.handed.add(ev.loc)
            for c in lam.o.get("caps", []):
                if c.get("this"):
                    self.bad(ev, "alive", "a handler given to asio in %s holds only a plain pointer to the object, which may be gone when it runs" %
                             ev.fn.q, "this|" + ev.fn.q)
                elif c.get("ref"):
                    self.bad(ev, "alive", "a handler given to asio in %s refers to a local of the function, gone when it runs" % ev.fn.q,
                             "ref|" + ev.fn.q)

    def branch(self, ev, st):
        t, truth = ev.term, ev.truth
        while t[0] == "not":
            t, truth = t[1], not truth
        if t[0] == "ret" and t[1].startswith(("std::error_code::operator bool", "boost::system::error_code::operator bool")):
            if t[2] is not None and t[2][0] == "var" and self.role and t[2][1] == ev.stack[0].fk:
                return st._replace(err=truth) if st.err in (None, truth) else PRUNE
        if self.role == "accept":
            nm = t[1].split("::")[-1] if t[0] == "ret" else ""
            if not (nm == "is_open" and truth or nm == "stopped" and not truth or nm == "operator bool"):
                st = st._replace(gone=True)
        e = None
        if t[0] == "ret" and t[1].split("::")[-1] == "empty" and not self.member(t[2]) and not truth:
            return st._replace(bounded=st.bounded | {("some",)})
        if t[0] == "ret" and t[1].split("::")[-1] == "empty" and self.member(t[2]):
            e, ident = truth, t[4]
        if t[0] == "bin" and t[1] in ("==", "!=", ">") and len(t) == 4 and t[3] == ("const", 0) and t[2][0] == "ret" and \
                t[2][1].split("::")[-1] == "size" and self.member(t[2][2]):
            e, ident = (truth if t[1] == "==" else not truth), t[2][4]
        if e is not None:
            if ident in st.asked and (st.pushed or st.popped):
                return st._replace(empty=("entry", e))
            if st.pushed and not st.popped:
                return st                       # not empty, of course
            return st._replace(empty=("entry", e) if not st.popped else ("now", e))
        if t[0] == "bin" and t[1] in ("<", ">", "<=", ">=") and len(t) == 4:
            small, big = (t[2], t[3]) if (t[1] in ("<", "<=")) == truth else (t[3], t[2])
            if big[0] == "const":
                return st._replace(bounded=st.bounded | {small})
        return st

    def write(self, ev, st):
        self.c.writes += 1
        if self.role == "write":
            ok = st.err is False and st.popped == 1 and st.empty == ("now", False) and not st.writes
            why = "after a completed write the next one must be of the next message, if there is one, and only if the last succeeded"
        else:
            ok = st.empty == ("entry", True) and st.pushed and not st.writes
            why = "a write may be in progress: it starts without the queue having been found empty before the message was added"
        if not ok:
            self.bad(ev, "queue", "%s (%s, from %s)" % (why, ev.fn.q, self.name), "write|" + self.name)
        return st._replace(writes=min(3, st.writes + 1))

    def finish(self, ev, st):
        if not ev.truth:
            return st
        c = self.c
        if self.role == "write" or st.pushed:
            idle = st.empty == ("entry", True) if self.role != "write" else not st.err and st.empty != ("now", True)
            if idle and not st.writes and not st.closed:
                self.bad(self.name, "queue", "a path through %s leaves a message in the queue with no write in progress, so that it is never sent" %
                         self.name, "stalled|" + self.name)
            if self.role == "write" and not st.err and not st.closed and st.popped != 1:
                self.bad(self.name, "queue", "%s takes %d messages from the queue for one that was written" % (self.name, st.popped),
                         "popped|" + self.name)
        if self.role == "accept" and not st.gone and not st.closed:
            c.accepts.add(self.name)
            if st.reads != 1:
                self.bad(self.name, "accept", "a path through %s%s starts %d accepts, so that %s" % (
                    self.name, {True: " after a failure", False: " after a connection", None: ""}[st.err], st.reads,
                    "the listener accepts nobody any more" if not st.reads else "they overlap"), "accepts|%s|%s" % (self.name, st.err))
        if self.role in ("read", "write"):
            n = st.reads
            if st.err is None:
                self.bad(self.name, "error", "%s does not look at whether the operation failed" % self.name, "unseen|" + self.name)
            if st.err and (not st.closed or st.writes or n or st.delivered):
                self.bad(self.name, "error", "after a failure, %s %s" % (self.name, "does not close the connection" if not st.closed else
                                                                        "goes on with the connection"), "failed|" + self.name)
            if self.role == "read" and st.err is False:
                c.ends.setdefault(self.name, []).append(st)
        return st


def self_of(t):
    """A term with what shared_from_this points to written as this."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "deref" and isinstance(t[1], tuple) and t[1][0] == "ret" and t[1][1].endswith("::shared_from_this"):
        return self_of(t[1][2])
    return tuple(self_of(x) for x in t)


class Check:
    def __init__(self, ctx, P, cls):
        self.ctx, self.P, self.cls = ctx, P, cls
        self.fld = conc.fields(P, cls)
        if not self.fld:
            raise AnalysisError("class %s not found" % cls)
        self.confined = set(n for n, (t, a) in self.fld.items() if not any(x in t for x in FREE))
        self.queue = set(n for n in self.confined if "deque" in self.fld[n][0] or "queue" in self.fld[n][0] or "std::list" in self.fld[n][0])
        self.bad, self.seen, self.handed, self.ends = {}, set(), set(), {}
        self.accepts = set()
        self.frames = self.buffers = self.sized = self.writes = self.closes = 0

    def sock(self, m):
        return any(x in self.fld[m][0] for x in ("socket", "acceptor"))

    def func(self, p, words):
        return any(t[0] == "fld" and t[2] in self.fld and any(w in t[2] for w in words) for t in subterms(p))

    def closed(self, p):
        return self.func(p, ("closed",))

    def message(self, p):
        return self.func(p, ("message_received", "received_message"))

    def closing(self, ev):
        for t in Root.terms(ev):
            if t[0] == "lambda":
                for f in self.P.funcs:
                    if f.uid == t[1] and reaches(self.P, f, lambda y: y.decl.name == "close"):
                        return True
        return False

    def run(self):
        P = self.P
        todo, done = [], set()
        for f in conc.methods(P, self.cls):
            if f.decl.o.get("ctor") or f.decl.o.get("dtor"):
                continue
            todo.append((f, None, "fresh" if f.decl.o.get("static") else "any", None, f.q))
        n = 0
        while todo:
            f, d, ctxt, role, name = todo.pop(0)
            if (f.uid, ctxt, role) in done:
                continue
            done.add((f.uid, ctxt, role))
            n += 1
            if n > 60:
                raise AnalysisError("too many handlers")
            r = Root(self, name, ctxt != "any", role)
            e = Engine(P, r)
            if d is None:
                e.run(f)
            else:
                e.fkeys = d[0].fkeys
                conc.ClassConc.run_lambda(e, dict(d[1], this=self_of(d[1]["this"]),
                                                  env={k: self_of(v) for k, v in d[1]["env"].items()}))
            self.ctx.ran(e, f)
            for (uid, via, fk), x in e.deferred.items():
                if uid in r.found:
                    on, rl = r.found[uid]
                    todo.append((x["fn"], (e, x), "strand" if on else "any", rl, "the handler at %s:%s" % (x["fn"].relfile, x["fn"].loc.split(":")[-1])))


def check(ctx):
    ctx.rule("strand", "socket, buffers and queue are used on the strand only, once the object has been handed out")
    ctx.rule("alive", "handlers own the object, and buffers live in it, until the operation has completed")
    ctx.rule("queue", "one write at a time, in the order sent; no message is left in the queue with no write in progress")
    ctx.rule("read", "after each part read, exactly one further read is started or the connection closed; a message is reported once")
    ctx.rule("size", "the announced size is compared with the limit before it is used")
    ctx.rule("frame", "the length goes before the message in four bytes, the most significant first, and comes back as it went")
    ctx.rule("error", "every failure closes the connection and ends its reading and writing")
    ctx.rule("accept", "after each connection or failure, one further accept is started, unless the listener was stopped")
    ctx.rule("close", "socket and report of the closing happen once")
    for cls, src in (("Connection", "connection"), ("Listener", "listener")):
        P = ctx.prog("src/maidsafe/common/tcp/%s.cc" % src)
        c = Check(ctx, P, SPAN + cls)
        c.run()
        for m, loc in sorted(c.seen):
            ctx.ob("strand", "%s at %s" % (m, loc), loc, True)
        for loc in sorted(c.handed):
            ctx.ob("alive", "handler at " + loc, loc, True)
        ctx.need(len(c.handed), 2, "handlers of " + cls)
        ctx.need(len(c.seen), 3, "uses of members of " + cls)
        deliver = False
        for name, ends in sorted(c.ends.items()):
            odd = [s for s in ends if not (s.closed and not s.reads or not s.closed and s.reads == 1)]
            ctx.ob("read", name, "", not odd, "a path through %s %s" % (name, "" if not odd else "starts %d reads%s" % (
                odd[0].reads, " and closes the connection" if odd[0].closed else "")), key="reads|" + name)
            live = [s.delivered for s in ends if not s.closed]
            if any(live):
                deliver = True
                ctx.ob("read", name + " reports", "", set(live) == {1}, "%s reports a message %s times" % (name, sorted(set(live))), key="report|" + name)
        for name in sorted(c.accepts):
            ctx.ob("accept", name, "", True)
        if cls == "Connection":
            ctx.ob("read", "messages are reported", "", deliver or not c.ends, "no handler of a read reports the message", key="report")
            ctx.need(min(c.writes, c.buffers, c.closes), 1, "writes, buffers and closing of Connection")
        for (rule, key, loc), msg in sorted(c.bad.items()):
            ctx.ob(rule, key, loc, False, msg, key=key)
        if c.frames:
            ctx.ob("frame", "%d bytes of lengths" % c.frames, "", True)
        for rule in ("queue", "error", "close", "size"):
            ctx.ob(rule, cls, "", True)
