"""Interprocedural control-flow walker.

Propagates a rule's abstract state (typestate, lockset, obligations...) along every path of a
function's control-flow graph to a fixpoint.  Calls to functions defined in the repository, lambdas
that are called on the spot, constructors and destructors of repository classes are entered at the
call site, so the result does not depend on how code is divided into helpers.  No value is computed:
expressions are named by access paths ("this.queue_", "the result of find() at line n").
"""
import sys
from collections import namedtuple

from .model import AnalysisError, text

sys.setrecursionlimit(20000)

LOCK_CLASSES = ("std::lock_guard", "std::unique_lock", "std::shared_lock", "std::scoped_lock",
                "boost::lock_guard", "boost::unique_lock", "boost::shared_lock",
                "boost::mutex::scoped_lock", "asio::detail::scoped_lock", "boost::upgrade_lock",
                "boost::interprocess::scoped_lock")
GUARD_ONLY = ("std::lock_guard", "std::scoped_lock", "boost::lock_guard")

IMMEDIATE = set("""any_of all_of none_of for_each find_if find_if_not count_if copy_if remove_if sort stable_sort
partition stable_partition transform accumulate generate generate_n min_element max_element lower_bound upper_bound
equal_range nth_element partial_sort unique search mismatch lexicographical_compare remove_copy_if adjacent_find
replace_if is_sorted for_each_n invoke apply equal partition_copy reduce inplace_merge merge""".split())

PASS_THROUGH = ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "boost::ref", "std::__addressof_")
SMART_DEREF = ("std::unique_ptr::operator->", "std::unique_ptr::operator*", "std::shared_ptr::operator->",
               "std::shared_ptr::operator*", "std::__shared_ptr_access::operator->",
               "std::__shared_ptr_access::operator*", "boost::optional::operator->", "boost::optional::operator*",
               "boost::optional::get", "boost::optional::value", "std::optional::operator->",
               "std::optional::operator*", "boost::shared_ptr::operator->", "boost::shared_ptr::operator*")
SMART_GET = ("std::unique_ptr::get", "std::__shared_ptr::get", "std::shared_ptr::get", "boost::shared_ptr::get")

PRUNE = object()

Frame = namedtuple("Frame", "fn fk pfk this call ret live extra")
# fn: Func; fk: frame key; pfk: frame key of the lexical parent (lambdas); this: path of *this
# call: calling Node or None; ret: (block, index) to resume at in the caller; live: locals to destroy
# extra: how the caller resumes ("call", "dtor", "multi")


class Ev:
    __slots__ = ("kind", "node", "frame", "fn", "path", "term", "args", "q", "decl", "truth", "inlined", "mode",
                 "locks", "stack", "case", "eng", "env", "extra")

    def __init__(self, kind, **kw):
        self.kind = kind
        for s in self.__slots__[1:]:
            setattr(self, s, None)
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def loc(self):
        return self.node.loc if self.node is not None else self.fn.loc if self.fn else "?"


class Client:
    """Base rule.  State must be hashable."""
    def start(self):
        return None

    def opaque(self, decl, eng, frame):
        return False

    def on(self, ev, st):
        return st


class Violation:
    def __init__(self, msg, loc, trace=(), key=None):
        self.msg, self.loc, self.trace, self.key = msg, loc, trace, key or msg

    def __repr__(self):
        return "%s: %s" % (self.loc, self.msg)


def term_depth(t, lim=12):
    if not isinstance(t, tuple):
        return 0
    if lim <= 0:
        return 99
    m = 0
    for x in t:
        if isinstance(x, tuple):
            d = term_depth(x, lim - 1)
            if d > m:
                m = d
    return m + 1


def mentions(t, sub):
    if t == sub:
        return True
    return isinstance(t, tuple) and any(mentions(x, sub) for x in t if isinstance(x, tuple))


def pstr(t):
    """Readable access path."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "this":
        return "this"
    if k == "fld":
        return pstr(t[1]) + "." + t[2]
    if k == "var":
        return t[3]
    if k == "glob":
        return t[1]
    if k == "deref":
        return "*" + pstr(t[1])
    if k == "addr":
        return "&" + pstr(t[1])
    if k == "const":
        return str(t[1])
    if k == "enum":
        return t[1]
    if k == "ret":
        o = pstr(t[2]) + "." if t[2] else ""
        return o + t[1].split("::")[-1] + "(" + ", ".join(pstr(a) for a in t[3]) + ")"
    if k == "bin":
        return "(%s %s %s)" % (pstr(t[2]), t[1], pstr(t[3]))
    if k == "not":
        return "!" + pstr(t[1])
    if k == "lambda":
        return "lambda"
    if k == "new":
        return t[1].split("::")[-1] + "{}"
    if k == "idx":
        return pstr(t[1]) + "[" + pstr(t[2]) + "]"
    return k


def subterms(t):
    if isinstance(t, tuple) and t:
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


DERIVE = set("""find begin end front back operator[] at data c_str rbegin rend lower_bound upper_bound equal_range
insert emplace emplace_back cbegin cend begin end next prev find_if operator-> operator* get first second project
range second_type base advance""".split())


def roots(t):
    """Storage an access path reaches into (through iterators, references, element access)."""
    while isinstance(t, tuple) and t:
        k = t[0]
        if k in ("deref", "addr"):
            t = t[1]
        elif k == "idx":
            t = t[1]
        elif k == "fld":
            yield t
            t = t[1]
        elif k == "ret":
            nm = t[1].split("::")[-1]
            if nm in DERIVE:
                if t[2] is not None:
                    t = t[2]
                    continue
                for a in t[3]:
                    yield from roots(a)
                return
            return
        elif k in ("var", "glob", "this"):
            yield t
            return
        else:
            return


WRAPS = set("bind make_unique make_shared wrap async Launch function ref cref forward move make_pair make_tuple "
            "packaged_task coroutine spawn".split())


def functors(v):
    """Lambdas that a value is or owns (not ones that merely took part in computing it)."""
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == "lambda" or v[0] == "func":
        yield v
    elif v[0] == "addr" and v[1][0] == "func":
        yield v[1]
    elif v[0] in ("new", "init"):
        for x in (v[3] if v[0] == "new" else v[1:]):
            yield from functors(x)
    elif v[0] == "ret" and v[1].split("::")[-1] in WRAPS:
        for x in v[3]:
            yield from functors(x)


LOGQ = ("maidsafe::log::detail::OstreamBinder", "maidsafe::log::detail::NullStream",
        "maidsafe::log::detail::LogMessage", "maidsafe::log::detail::operator<<")


class Engine:
    def __init__(self, prog, client, exc=False, maxdepth=10, maxconf=150000, entry_locks=(), follow_deferred=False):
        self.prog, self.client, self.exc = prog, client, exc
        self.maxdepth, self.maxconf = maxdepth, maxconf
        self.violations = {}
        self.fkeys = {}
        self.nconf = 0
        self.functions = set()
        self.deferred = {}
        self.follow_deferred = follow_deferred
        self._own = {}
        self._dt = {}
        self._try = {}
        self.entry_locks = tuple(entry_locks)
        self.cur = None
        self.parents = {}

    # ------------------------------------------------------------ static per-function info
    def own(self, fn):
        r = self._own.get(fn.uid)
        if r is None:
            r = set(p.id for p in fn.params)
            for n in fn.nodes:
                if n.k == "decl":
                    for d in n.o.get("ds", []):
                        r.add(d["v"])
                elif n.k == "catch" and "v" in n.o:
                    r.add(n.o["v"])
            self._own[fn.uid] = r
        return r

    def has_dtor(self, fn):
        r = self._dt.get(fn.uid)
        if r is None:
            r = set()
            for b in fn.blocks.values():
                for e in b.el:
                    if isinstance(e, dict) and e["e"] == "dtor":
                        r.add(e["v"])
            self._dt[fn.uid] = r
        return r

    def tries(self, fn):
        """For each try statement: (set of node ids in its body, handler block ids, catch-all?)."""
        r = self._try.get(fn.uid)
        if r is None:
            r = []
            for n in fn.nodes:
                if n.k == "try":
                    body = n.kids[0]
                    ids = set(x.id for x in body.walk())
                    disp = [b for b in fn.blocks.values() if b.tn == n.id and b.tk == "CXXTryStmt"]
                    hs = []
                    for b in disp:
                        for s in b.succ:
                            if s >= 0 and fn.blocks[s].label and fn.blocks[s].label["k"] == "CXXCatchStmt":
                                hs.append((s, fn.nodes[fn.blocks[s].label["n"]]))
                    if not hs:
                        for b in fn.blocks.values():
                            if b.label and b.label["k"] == "CXXCatchStmt":
                                c = fn.nodes[b.label["n"]]
                                if c.parent is n:
                                    hs.append((b.id, c))
                    r.append((ids, hs, n))
            r.sort(key=lambda x: len(x[0]))   # innermost first
            self._try[fn.uid] = r
        return r

    def fkey(self, parent, site):
        k = (parent, site)
        r = self.fkeys.get(k)
        if r is None:
            r = len(self.fkeys) + 1
            self.fkeys[k] = r
        return r

    # ------------------------------------------------------------ terms
    def varloc(self, d, fr, stack):
        if d.o.get("global") or d.o.get("slocal"):
            return ("glob", d.q if not d.o.get("slocal") else d.q + "@" + str(d.line))
        if d.o.get("k") not in ("var", "parm"):
            return ("glob", d.q)
        f = fr
        while f is not None:
            if d.id in self.own(f.fn):
                return ("var", f.fk, d.id, d.name)
            if f.pfk is None:
                break
            nf = None
            for g in reversed(stack):
                if g.fk == f.pfk:
                    nf = g
                    break
            if nf is None:
                return ("var", f.pfk, d.id, d.name)
            f = nf
        return ("var", fr.pfk if fr.pfk is not None else fr.fk, d.id, d.name)

    def path(self, n, c, depth=0):
        """Location named by an lvalue expression."""
        if n is None:
            return ("none",)
        k = n.k
        if depth > 30:
            return ("top", n.fn.uid, n.id)
        fr = c.stack[-1]
        if k == "cast":
            return self.path(n.kids[0], c, depth + 1)
        if k == "ref":
            d = n.decl
            if d.o.get("k") == "enum":
                return ("enum", d.q)
            if d.o.get("k") == "func":
                return ("func", d.q, d.uid)
            loc = self.varloc(d, fr, c.stack)
            a = c.env.get(("alias", loc))
            return a if a is not None else loc
        if k == "mem":
            d = n.decl
            if d.o.get("k") == "func":
                return ("func", d.q, d.uid)
            if d.o.get("k") == "var":
                return ("glob", d.q)
            b = n.kids[0]
            if n.o.get("arrow"):
                return ("fld", self.deref(self.val(b, c, depth + 1)), d.name)
            base = self.path(b, c, depth + 1)
            if not d.name:
                return base
            return ("fld", base, d.name)
        if k == "this":
            return ("addr", fr.this)
        if k == "un":
            if n.op == "*":
                return self.deref(self.val(n.kids[0], c, depth + 1))
            if n.op == "&":
                return ("addr", self.path(n.kids[0], c, depth + 1))
            if n.op in ("++", "--") and not n.o.get("post"):
                return self.path(n.kids[0], c, depth + 1)
        if k == "index":
            return ("idx", self.path(n.kids[0], c, depth + 1), self.val(n.kids[1], c, depth + 1))
        if k == "call":
            d = n.decl
            q = d.q if d is not None else None
            if q in PASS_THROUGH and n.args:
                return self.path(n.args[0], c, depth + 1)
            if self.is_deref_op(n):
                v = self.val(n.kids[0], c, depth + 1)
                p = v[1] if v[0] == "addr" else ("deref", v)
                return ("addr", p) if d.o.get("op") == "->" else p
            if q in SMART_GET:
                return ("addr", ("deref", self.val(n.kids[0], c, depth + 1)))
        if k == "assign":
            return self.path(n.kids[0], c, depth + 1)
        return self.val(n, c, depth + 1)

    def is_deref_op(self, n):
        """Overloaded unary * or -> (iterators, smart pointers, optionals) outside the repository."""
        d = n.decl
        if d is None or not d.o.get("op") in ("*", "->"):
            return False
        if len(n.kids) != 1:
            return False
        return not (d.o.get("repo") and self.prog.body(d) is not None)

    @staticmethod
    def deref(t):
        if t[0] == "addr":
            return t[1]
        return ("deref", t)

    def val(self, n, c, depth=0):
        """Value of an expression, named symbolically by where it came from."""
        if n is None:
            return ("none",)
        if depth > 30:
            return ("top", n.fn.uid, n.id)
        k = n.k
        fr = c.stack[-1]
        if k == "ref":
            d = n.decl
            if d.o.get("k") == "enum":
                return ("enum", d.q)
            if d.o.get("k") == "func":
                return ("func", d.q, d.uid)
            p = self.path(n, c, depth + 1)
            return c.env.get(p, p)
        if n.cv is not None and k != "lambda":
            return ("const", n.cv)
        if k == "cast":
            return self.val(n.kids[0], c, depth + 1)
        if k == "mem":
            p = self.path(n, c, depth + 1)
            return c.env.get(p, p)
        if k == "this":
            return ("addr", fr.this)
        if k == "un":
            if n.op == "!":
                v = self.val(n.kids[0], c, depth + 1)
                return v[1] if v[0] == "not" else ("not", v)
            if n.op == "&":
                return ("addr", self.path(n.kids[0], c, depth + 1))
            if n.op == "*":
                p = self.deref(self.val(n.kids[0], c, depth + 1))
                return c.env.get(p, p)
            return ("un", n.op, self.val(n.kids[0], c, depth + 1))
        if k == "bin":
            if n.op in ("&&", "||"):
                sc = c.env.get(("short", fr.fk, n.id))
                if sc is not None:
                    return sc if sc[0] == "const" else self.val(n.kids[1], c, depth + 1)
            return ("bin", n.op, self.val(n.kids[0], c, depth + 1), self.val(n.kids[1], c, depth + 1))
        if k == "index":
            p = self.path(n, c, depth + 1)
            return c.env.get(p, p)
        if k == "lambda":
            f = n.o.get("f")
            if f is None:
                ins = n.o.get("insts") or []
                f = ins[0] if ins else None
            return ("lambda", (fr.fn.tu.idx, f), fr.fk, fr.this)
        if k == "construct":
            d = n.decl
            a = n.kids
            if len(a) == 1 and a[0] is not None:
                # copies, moves and conversions keep naming what they were made from
                pt = d.ptypes
                if pt and d.cls and (d.cls.split("<")[0] in pt[0] or "std::function" in d.cls or
                                     d.cls.startswith("std::unique_ptr") or d.cls.startswith("std::shared_ptr")):
                    return self.val(a[0], c, depth + 1)
            return ("new", d.cls or "?", (fr.fk, n.id),
                    tuple(self.val(x, c, depth + 3) for x in a[:4]) if depth < 12 else ())
        if k == "call":
            d = n.decl
            q = d.q if d is not None else None
            rv = c.env.get(("rv", fr.fk, n.id))
            if rv is not None:
                return rv
            if self.is_log(d):
                return ("log",)
            if q in PASS_THROUGH and n.args:
                return self.val(n.args[0], c, depth + 1)
            if self.is_deref_op(n) or q in SMART_GET:
                p = self.path(n, c, depth + 1)
                return c.env.get(p, p)
            obj = self.path(n.obj, c, depth + 1) if n.obj is not None else None
            if obj is not None and n.o.get("arrow"):
                obj = self.deref(self.val(n.obj, c, depth + 1))
            args = tuple(self.val(x, c, depth + 3) for x in n.args[:6]) if depth < 14 else ()
            return ("ret", q or "?", obj, args, (fr.fk, n.id))
        if k == "null":
            return ("const", 0)
        if k == "str":
            return ("str", n.o.get("s", ""))
        if k == "new":
            return ("new", n.fn.tu.types[n.o["at"]], (fr.fk, n.id), ())
        if k == "cond":
            r = c.env.get(("cond", fr.fk, n.id))
            if r is not None:
                return r
        if k in ("init", "stdinit") and len(n.kids) == 1:
            return self.val(n.kids[0], c, depth + 1)
        if k == "init":
            return ("init",) + tuple(self.val(x, c, depth + 3) for x in n.kids[:8])
        return ("top", (fr.fk, n.id))

    # ------------------------------------------------------------ events
    def ev(self, kind, c, **kw):
        fr = c.stack[-1]
        e = Ev(kind, frame=fr, fn=fr.fn, locks=c.locks, stack=c.stack, eng=self, env=c, **kw)
        r = self.client.on(e, c.st)
        if r is PRUNE:
            return False
        if r is not c.st:
            c.st = r
        return True

    def report(self, msg, ev, key=None):
        loc = ev.loc if isinstance(ev, Ev) else str(ev)
        k = (key or msg, loc)
        if k not in self.violations:
            tr = self.trace()
            if isinstance(ev, Ev) and ev.stack:
                chain = [f.fn.q for f in ev.stack]
            else:
                chain = []
            self.violations[k] = Violation(msg, loc, (chain, tr), key or msg)

    def trace(self):
        out = []
        p = self.cur
        n = 0
        while p is not None and n < 400:
            key, par = p
            out.append(key)
            p = par
            n += 1
        out.reverse()
        # collapse
        r = []
        for x in out:
            if not r or r[-1] != x:
                r.append(x)
        return r[-60:]

    # ------------------------------------------------------------ running
    def run(self, fn, this=("this",), st=None, args=None, env=None):
        fk = self.fkey(0, fn.uid)
        fr = Frame(fn, fk, None, this, None, None, (), "root")
        c = Conf((fr,), fn.entry, 0, dict(env or {}), self.entry_locks, st if st is not None else self.client.start())
        self.bind_params(c, fr, fn, args)
        self.explore([c])
        while self.deferred and self.follow_deferred:
            todo = [v for v in self.deferred.values() if not v["done"]]
            if not todo:
                break
            for d in todo:
                d["done"] = True
                f = d["fn"]
                fr = Frame(f, self.fkey(d["pfk"], ("defer", f.uid)), d["pfk"], d["this"], None, None, (), "root")
                c = Conf((fr,), f.entry, 0, dict(d["env"]), (), self.client.start())
                self.client_deferred = d
                self.explore([c])
        return self

    def bind_params(self, c, fr, fn, args):
        for i, p in enumerate(fn.params):
            loc = ("var", fr.fk, p.id, p.name)
            if args is not None and i < len(args) and args[i] is not None:
                c.env[("alias", loc)] = args[i]

    def explore(self, work):
        seen = set()
        while work:
            c = work.pop()
            k = c.key()
            if k in seen:
                continue
            seen.add(k)
            self.nconf += 1
            if self.nconf > self.maxconf:
                raise AnalysisError("state space too large in %s" % c.stack[0].fn.q)
            fr = c.stack[-1]
            self.functions.add(fr.fn)
            self.cur = c.tr
            for s in self.block(c):
                work.append(s)

    def block(self, c):
        """Run the rest of the current block; returns successor configurations."""
        fr = c.stack[-1]
        fn = fr.fn
        b = fn.blocks[c.block]
        c.tr = self.cur = ("%s B%d" % (fn.q, b.id), c.tr) if False else c.tr
        i = c.idx
        if b.id == fn.exit:
            return self.leave(c)
        last = b.el[i - 1] if i > 0 and isinstance(b.el[i - 1], int) else None    # a call may be listed twice
        while i < len(b.el):
            e = b.el[i]
            if isinstance(e, int):
                if e == last and i > 0:
                    i += 1
                    continue
                last = e
                n = fn.nodes[e]
                if n.line:
                    t = (fn.relfile, n.line)
                    if c.tr is None or c.tr[0] != t:
                        c.tr = (t, c.tr)
                        self.cur = c.tr
                r = self.elem(c, n, i)
            else:
                r = self.special(c, e, i)
            if r is not None:
                return r       # entered a call, or path ended
            i += 1
            c.idx = i
        return self.terminate(c, b)

    # ------------------------------------------------------------ block ends
    def terminate(self, c, b):
        fr = c.stack[-1]
        fn = fr.fn
        if b.noret:
            return []
        out = []
        succ = [s for s in b.succ]
        if b.tk == "CXXTryStmt":
            return []
        if b.tc is not None and len(succ) == 2 and b.tk != "SwitchStmt":
            cond = fn.nodes[b.tc]
            t = self.val(cond, c)
            neg = False
            while t[0] == "not":
                t = t[1]
                neg = not neg
            for j, s in enumerate(succ):
                truth = (j == 0)
                if s < 0:
                    continue
                tt = truth != neg
                if t[0] == "const" and b.tk not in ("WhileStmt", "ForStmt", "DoStmt"):
                    if bool(t[1]) != tt:
                        continue
                elif t[0] == "const" and bool(t[1]) != tt:
                    continue
                a = c.env.get(("assume", t))
                if a is not None and a != tt:
                    continue
                n = c.fork()
                self.cur = n.tr
                if not self.ev("branch", n, node=cond, term=t, truth=tt):
                    continue
                src = cond.strip()
                while src is not None and src.k == "un" and src.op == "!":
                    src = src.kids[0].strip()
                if src is not None and src.k in ("ref",) and t[0] in ("ret", "bin", "var", "top"):
                    n.env[("assume", t)] = tt
                # remember which arm a conditional expression / && / || took
                tn = fn.nodes[b.tn] if b.tn is not None else None
                if tn is not None and tn.k == "cond":
                    arm = tn.kids[1] if truth else tn.kids[2]
                    n.env[("armof", fr.fk, tn.id)] = 1 if truth else 2
                if tn is not None and tn.k == "bin" and tn.op in ("&&", "||"):
                    n.env[("short", fr.fk, tn.id)] = ("const", 1 if tn.op == "||" else 0) \
                        if (truth == (tn.op == "||")) else ("rhs",)
                n.goto(s)
                out.append(n)
            return out
        if b.tk == "SwitchStmt":
            cond = fn.nodes[b.tc] if b.tc is not None else None
            t = self.val(cond, c) if cond is not None else ("none",)
            vals = [fn.blocks[s].label.get("v") for s in succ if s >= 0 and fn.blocks[s].label and
                    fn.blocks[s].label["k"] == "CaseStmt"]
            for s in succ:
                if s < 0:
                    continue
                lab = fn.blocks[s].label
                v = lab.get("v") if lab and lab["k"] == "CaseStmt" else "default"
                if t[0] == "const" and v != "default" and t[1] != v:
                    continue
                if t[0] == "const" and v == "default" and t[1] in vals:
                    continue
                n = c.fork()
                if not self.ev("switch", n, node=cond, term=t, case=v, args=vals):
                    continue
                n.goto(s)
                out.append(n)
            return out
        live = [s for s in succ if s >= 0]
        if len(live) == 1:
            c.goto(live[0])
            return [c]
        for s in live:
            n = c.fork()
            n.goto(s)
            out.append(n)
        return out

    def leave(self, c):
        """Normal function exit."""
        fr = c.stack[-1]
        if len(c.stack) == 1:
            self.ev("exit", c, truth=True, term=c.env.get(("retv", fr.fk)))
            return []
        caller = c.stack[-2]
        rv = c.env.get(("retv", fr.fk))
        self.ev("leave", c, decl=fr.fn.decl, q=fr.fn.q, term=rv, node=None)
        n = c.fork()
        n.stack = c.stack[:-1]
        fk = fr.fk
        for m, o in list(n.locks):
            if o is not None and o[0] == "var" and o[1] == fk and any(o[2] == p.id for p in fr.fn.params):
                self.release_mutex(n, m, o, None)
        n.drop_frame(fk, keep=self.captured(fr))
        if fr.call is not None and rv is not None and fr.extra == "call":
            n.env[("rv", caller.fk, fr.call.id)] = rv
        n.block, n.idx = fr.ret
        if fr.extra == "call" and fr.call is not None:
            self.cur = n.tr
            if self.is_wait(fr.call):
                # wait(lock, pred) goes on only once pred has returned true
                if fr.call.decl.name == "wait":
                    t, tt = rv or ("top", (fr.fk, 0)), True
                    while t[0] == "not":
                        t, tt = t[1], not tt
                    if t[0] == "const":
                        if bool(t[1]) != tt:
                            return []
                    elif not self.ev("branch", n, node=fr.call, term=t, truth=tt):
                        return []
            if not self.ev("ret", n, node=fr.call, decl=fr.fn.decl, q=fr.fn.q, inlined=True, term=rv):
                return []
        if fr.extra == "loop":
            # an algorithm may call its functor any number of times
            n2 = n.fork()
            n2.idx = n.idx - 1
            return [n, n2]
        return [n]

    @staticmethod
    def is_wait(n):
        return n.k == "call" and n.decl is not None and n.decl.name in ("wait", "wait_for", "wait_until") and \
            "condition_variable" in (n.decl.cls or "")

    def captured(self, fr):
        return False

    # ------------------------------------------------------------ exceptions
    def unwind(self, c, node, rethrow=False, thrown=None, explicit=False):
        """Continue after an exception leaves `node` in the top frame."""
        out = []
        c = c.fork()
        while True:
            fr = c.stack[-1]
            fn = fr.fn
            handled = False
            for ids, hs, tn in self.tries(fn):
                if node is not None and node.id in ids:
                    if not self.destroy(c, [v for v in fr.live if self.declared_in(fn, v, ids)]):
                        return out
                    catchall = False
                    for hb, cn in hs:
                        ct = fn.tu.types[cn.o["ct"]] if "ct" in cn.o else "..."
                        may = self.may_catch(ct, thrown)
                        if may == "no":
                            continue
                        n = c.fork()
                        self.cur = n.tr
                        if self.ev("catch", n, node=cn, q=ct, term=thrown):
                            n.env[("caught", fr.fk)] = thrown or ("unknown",)
                            n.goto(hb)
                            out.append(n)
                        if may == "yes":
                            catchall = True
                            break
                    if catchall:
                        handled = True
                        break
                    # not certainly caught: goes on outwards from the try statement
                    node = tn
            if handled:
                return out
            fr = c.stack[-1]
            if not self.destroy(c, list(fr.live)):
                return out
            if fn.decl.o.get("nothrow") and not fn.is_lambda and len(c.stack) >= 1 and fn.decl.o.get("dtor"):
                # escaping a noexcept function terminates the process
                self.ev("terminate", c, node=node, term=thrown)
                return out
            if len(c.stack) == 1:
                self.ev("exit", c, truth=False, term=thrown, node=node)
                return out
            self.ev("leave_exc", c, decl=fn.decl, q=fn.q, node=None, term=thrown)
            node = fr.call
            fk = fr.fk
            c.stack = c.stack[:-1]
            c.drop_frame(fk)
            if node is None and fr.extra == "dtor":
                return out

    def declared_in(self, fn, v, ids):
        for n in fn.nodes:
            if n.k == "decl" and n.id in ids:
                for d in n.o.get("ds", []):
                    if d["v"] == v:
                        return True
        return False

    def may_catch(self, ct, thrown):
        if ct == "...":
            return "yes"
        base = ct.replace("const ", "").replace(" &", "").strip()
        if base in ("std::exception", "boost::exception"):
            return "yes"
        if thrown is not None and thrown[0] == "maidsafe":
            if base in ("maidsafe::maidsafe_error", "maidsafe::" + str(thrown[2] if len(thrown) > 2 else ""),
                        "std::system_error", "std::runtime_error"):
                return "yes"
            if base.startswith("maidsafe::"):
                return "maybe"
            return "no"
        return "maybe"

    def destroy(self, c, vs):
        fr = c.stack[-1]
        for v in reversed(vs):
            d = fr.fn.tu.decls[v]
            loc = ("var", fr.fk, v, d.name)
            self.release_var(c, loc, None)
            if not self.ev("dtor", c, path=loc, decl=d, node=None, mode="unwind"):
                return False
            f = self.stack_replace(c, live=tuple(x for x in c.stack[-1].live if x != v))
        return True

    def stack_replace(self, c, **kw):
        fr = c.stack[-1]._replace(**kw)
        c.stack = c.stack[:-1] + (fr,)
        return fr

    # ------------------------------------------------------------ locks
    def lock_class(self, cls):
        return cls in LOCK_CLASSES

    def acquire(self, c, mutex, owner, node, shared=False):
        self.ev("acquire", c, node=node, path=mutex, mode="shared" if shared else "")
        c.locks = c.locks + ((mutex, owner),)

    def release_mutex(self, c, mutex, owner, node):
        ls = list(c.locks)
        for i in range(len(ls) - 1, -1, -1):
            if ls[i][0] == mutex and (owner is None or ls[i][1] == owner):
                del ls[i]
                c.locks = tuple(ls)
                self.ev("release", c, node=node, path=mutex)
                return True
        return False

    def release_var(self, c, loc, node):
        st = c.env.pop(("lockvar", loc), None)
        for m, o in list(c.locks):
            if o == loc:
                self.release_mutex(c, m, loc, node)

    # ------------------------------------------------------------ elements
    def special(self, c, e, i):
        fr = c.stack[-1]
        fn = fr.fn
        if e["e"] == "init":
            f = fn.tu.decls[e["f"]] if "f" in e else None
            n = fn.nodes[e["x"]]
            if f is not None:
                p = ("fld", fr.this, f.name)
                self.ev("init", c, node=n, path=p, decl=f, term=self.val(n, c))
                v = self.val(n, c)
                if v[0] in ("lambda", "const", "enum"):
                    c.env[p] = v
            else:
                self.ev("init", c, node=n, path=None, decl=None, term=self.val(n, c))
            return None
        if e["e"] == "dtor":
            d = fn.tu.decls[e["v"]]
            loc = ("var", fr.fk, d.id, d.name)
            self.stack_replace(c, live=tuple(x for x in fr.live if x != d.id))
            node = None
            c.idx = i + 1
            if self.scope_exit_value(c, loc) is not None:
                lam = self.scope_exit_value(c, loc)
                c.env.pop(("scopeexit", loc), None)
                f = self.lambda_func(lam)
                if f is not None and self.can_enter(c, f):
                    return self.enter(c, f, lam[3], lam[2], None, (), "dtor")
            self.release_var(c, loc, node)
            if not self.ev("dtor", c, path=loc, decl=d, node=None):
                return []
            if "d" in e:
                f = self.prog.body(fn.tu.decls[e["d"]])
                if f is not None and f.blocks and self.can_enter(c, f) and \
                        not self.client.opaque(f.decl, self, fr) and f.cls != "maidsafe::on_scope_exit":
                    return self.enter(c, f, loc, None, None, (), "dtor")
            for k in [k for k in c.env if isinstance(k, tuple) and len(k) == 4 and k == loc]:
                c.env.pop(k, None)
            return None
        if e["e"] == "mdtor":
            f = fn.tu.decls[e["f"]]
            self.ev("mdtor", c, path=("fld", fr.this, f.name), decl=f, node=None)
            return None
        return None

    def scope_exit_value(self, c, loc):
        v = c.env.get(("scopeexit", loc))
        return v if v is not None and v[0] == "lambda" else None

    def lambda_func(self, lam):
        ti, fid = lam[1]
        if fid is None:
            return None
        return self.prog.tus[ti].bydecl.get(fid)

    def can_enter(self, c, f):
        if len(c.stack) >= self.maxdepth or not f.blocks:
            return False
        n = sum(1 for x in c.stack if x.fn is f)
        return n < 1

    def enter(self, c, f, this, pfk, call, args, extra, argnodes=None):
        fr = c.stack[-1]
        site = (call.id if call is not None else "d", f.uid, c.block if call is None else 0)
        fk = self.fkey(fr.fk, site)
        nf = Frame(f, fk, pfk, this, call, (c.block, c.idx), (), extra)
        n = c.fork()
        n.drop_frame(fk)
        for i, p in enumerate(f.params):
            if i < len(args):
                loc = ("var", fk, p.id, p.name)
                t = p.type
                pth, v = args[i]
                if t.endswith("&") or t.endswith("&&"):
                    if pth is not None:
                        n.env[("alias", loc)] = pth if pth[0] not in ("const",) else pth
                elif v is not None and term_depth(v) < 8:
                    if "unique_lock" in t and pth is not None:
                        x = call.args[i] if call is not None and call.k == "call" and i < len(call.args) else None
                        self.transfer_lock(n, (self.lock_source(x, c) if x is not None else None) or pth, loc)
                    else:
                        n.env[loc] = v
        n.stack = c.stack + (nf,)
        n.goto(f.entry)
        self.functions.add(f)
        self.ev("enter", n, decl=f.decl, q=f.q, node=call)
        return [n]

    def lock_source(self, n, c):
        """The lock object an expression moves from: (place) or None."""
        for _ in range(8):
            n = n.strip() if n is not None else None
            if n is None:
                return None
            if n.k == "construct" and self.is_lock_type((n.decl.cls or "") if n.decl is not None else ""):
                t = ("locktmp", c.stack[-1].fk, n.id)
                if any(o == t for m, o in c.locks) or ("lockvar", t) in c.env:
                    return t
                if len(n.kids) == 1 and n.kids[0] is not None and self.is_lock_type(
                        n.kids[0].type.replace("&", "").replace("const ", "").strip()):
                    n = n.kids[0]
                    continue
                return None
            if n.k == "call" and n.decl is not None and n.decl.q in PASS_THROUGH and n.args:
                n = n.args[0]
                continue
            break
        p = self.path(n, c)
        if p is not None and (("lockvar", p) in c.env or any(o == p for m, o in c.locks)):
            return p
        return None

    def transfer_lock(self, c, src, dst):
        ls = []
        for m, o in c.locks:
            ls.append((m, dst if o == src else o))
        c.locks = tuple(ls)
        v = c.env.pop(("lockvar", src), None)
        if v is not None:
            c.env[("lockvar", dst)] = v

    # access mode of a field/variable use, from its context
    def use_mode(self, n):
        p = n.parent
        x = n
        while p is not None and p.k == "cast":
            if p.o.get("ck") == "LValueToRValue":
                return "r"
            x, p = p, p.parent
        if p is None:
            return "r"
        if p.k == "assign":
            if p.kids[0] is x:
                return "w" if p.op == "=" else "rw"
            return "r"
        if p.k == "un":
            if p.op in ("++", "--"):
                return "rw"
            if p.op == "&":
                return "addr"
            return "r"
        if p.k == "index" and p.kids[0] is x:
            return self.use_mode(p)
        if p.k == "mem":
            d = p.decl
            if d is not None and d.o.get("k") == "func":
                return "r" if d.o.get("const") else "w"
            return self.use_mode(p)
        if p.k == "call":
            d = p.decl
            if d is None:
                return "r"
            if p.o.get("obj") and p.kids[0] is x:
                return "r" if d.o.get("const") else "w"
            ks = p.args
            for i, a in enumerate(ks):
                if a is x:
                    pts = d.ptypes
                    if i < len(pts):
                        t = pts[i]
                        if t.endswith("&&"):
                            if d.q in PASS_THROUGH:
                                q = p.parent
                                return "w"
                            return "w"
                        if t.endswith("&") and not t.startswith("const "):
                            if d.q in PASS_THROUGH:
                                return "w"
                            return "w"
            return "r"
        if p.k == "construct":
            d = p.decl
            for i, a in enumerate(p.kids):
                if a is x:
                    pts = d.ptypes
                    if i < len(pts):
                        t = pts[i]
                        if t.endswith("&") and not t.startswith("const "):
                            return "addr" if not t.endswith("&&") else "w"
            return "r"
        if p.k == "decl":
            for d in p.o.get("ds", []):
                if d.get("i") == x.id:
                    t = p.fn.tu.types[d["t"]]
                    if t.endswith("&"):
                        return "bind"
            return "r"
        if p.k == "lambda":
            return "cap"
        if p.k == "return":
            if n.fn.decl.rettype.endswith("&"):
                return "bind"
            return "r"
        if p.k == "cond":
            return self.use_mode(p)
        return "r"

    def elem(self, c, n, i):
        k = n.k
        fr = c.stack[-1]
        fn = fr.fn
        c.idx = i + 1
        if k == "mem":
            d = n.decl
            if d is not None and d.o.get("k") in ("field", "var"):
                par = n.parent
                if not (par is not None and par.k == "mem" and not par.o.get("arrow") and
                        par.decl.o.get("k") == "field" and d.name):
                    self.ev("access", c, node=n, path=self.path(n, c), decl=d, mode=self.use_mode(n))
            return None
        if k == "ref":
            d = n.decl
            kk = d.o.get("k")
            if kk in ("var", "parm"):
                loc = self.varloc(d, fr, c.stack)
                al = c.env.get(("alias", loc))
                if al is not None:
                    self.ev("access", c, node=n, path=al, decl=d, mode=self.use_mode(n), extra="alias")
                elif loc[0] == "glob":
                    self.ev("access", c, node=n, path=loc, decl=d, mode=self.use_mode(n))
                else:
                    self.ev("use", c, node=n, path=loc, decl=d, mode=self.use_mode(n), term=c.env.get(loc))
            return None
        if k == "bin":
            if n.op in ("&&", "||"):
                s = c.env.get(("short", fr.fk, n.id))
                if s is not None:
                    pass
            self.ev("bin", c, node=n)
            return None
        if k == "decl":
            return self.do_decl(c, n)
        if k == "assign":
            return self.do_assign(c, n)
        if k == "un":
            if n.op in ("++", "--"):
                p = self.path(n.kids[0], c)
                self.kill(c, p)
                self.ev("incdec", c, node=n, path=p, mode=n.op)
            elif n.op == "*":
                self.ev("deref", c, node=n, path=self.path(n, c))
            return None
        if k == "index":
            self.ev("index", c, node=n, path=self.path(n, c))
            return None
        if k == "return":
            v = None
            if n.kids and n.kids[0] is not None:
                rt = fn.decl.rettype
                v = self.path(n.kids[0], c) if rt.endswith("&") else self.val(n.kids[0], c)
                src = self.path(n.kids[0], c)
                if self.is_lock_type(rt):
                    src = self.lock_source(n.kids[0], c) or src
                if ("lockvar", src) in c.env or any(o == src for m, o in c.locks):
                    v = src
                    tmp = ("retlock", fr.fk)
                    if len(c.stack) > 1:
                        tmp = ("retlock", c.stack[-2].fk, fr.call.id if fr.call is not None else 0)
                        self.transfer_lock(c, src, tmp)
                        v = tmp
                if term_depth(v) < 9:
                    c.env[("retv", fr.fk)] = v
                else:
                    c.env[("retv", fr.fk)] = ("top", (fr.fk, n.id))
            if not self.ev("return", c, node=n, term=v):
                return []
            return None
        if k == "throw":
            if not self.ev("throw", c, node=n, term=self.thrown(n.kids[0], c) if n.kids else ("rethrow",)):
                return []
            th = self.thrown(n.kids[0], c) if n.kids else c.env.get(("caught", fr.fk))
            return self.unwind(c, n, thrown=th, explicit=True)
        if k == "construct":
            return self.do_construct(c, n)
        if k == "call":
            return self.do_call(c, n)
        if k == "delete":
            self.ev("delete", c, node=n, path=self.val(n.kids[0], c))
            return None
        if k == "new":
            self.ev("new", c, node=n)
            return None
        if k == "cond":
            arm = c.env.pop(("armof", fr.fk, n.id), None)
            if arm is not None:
                x = n.kids[arm]
                v = self.path(x, c) if n.o.get("lv") else self.val(x, c)
                if term_depth(v) < 8:
                    c.env[("cond", fr.fk, n.id)] = v
            return None
        if k == "cast":
            if n.o.get("ck") in ("LValueToRValue",):
                return None
            self.ev("cast", c, node=n)
            return None
        if k == "lambda":
            for cap in n.o.get("caps", []):
                if cap.get("init") and cap.get("e", -1) >= 0:
                    d = fn.tu.decls[cap["v"]]
                    v = self.val(fn.nodes[cap["e"]], c)
                    c.env[("var", fr.fk, d.id, d.name)] = v
            self.ev("lambda", c, node=n)
            return None
        return None

    def thrown(self, n, c):
        """('maidsafe', 'CommonErrors::x', category) for the library's own errors."""
        if n is None:
            return ("unknown",)
        for x in n.walk():
            if x.k == "ref" and x.decl.o.get("k") == "enum" and x.decl.q.startswith("maidsafe::") and \
                    "Errors::" in x.decl.q:
                return ("maidsafe", x.decl.q)
        if n.k == "construct" or n.k == "call":
            v = self.val(n, c)
            for s in subterms(v):
                if s[0] == "enum" and "Errors::" in s[1]:
                    return ("maidsafe", s[1])
        return ("type", n.type)

    def kill(self, c, p):
        for k in list(c.env):
            if k == p or (isinstance(k, tuple) and k and k[0] == "assume" and mentions(k[1], p)):
                c.env.pop(k, None)

    def do_decl(self, c, n):
        fr = c.stack[-1]
        fn = fr.fn
        for d in n.o.get("ds", []):
            dd = fn.tu.decls[d["v"]]
            loc = ("var", fr.fk, dd.id, dd.name)
            if dd.o.get("slocal"):
                self.ev("decl", c, node=n, path=("glob", dd.q), decl=dd, term=None)
                continue
            self.kill(c, loc)
            c.env.pop(("alias", loc), None)
            t = fn.tu.types[d["t"]]
            init = fn.nodes[d["i"]] if "i" in d and d["i"] >= 0 else None
            v = None
            if init is not None:
                if t.endswith("&"):
                    v = self.path(init, c)
                    if term_depth(v) < 9:
                        c.env[("alias", loc)] = v
                    if init.k == "cond" and ("cond", fr.fk, init.id) in c.env:
                        c.env[("alias", loc)] = c.env[("cond", fr.fk, init.id)]
                else:
                    ini = init
                    v = self.val(init, c)
                    if ini.k == "cond" and ("cond", fr.fk, ini.id) in c.env:
                        v = c.env[("cond", fr.fk, ini.id)]
                    if self.is_lock_type(t):
                        moved = self.lock_source(init, c)
                        if moved is not None:
                            self.transfer_lock(c, moved, loc)
                        elif init.k == "construct" and init.decl is not None and not init.o.get("elide"):
                            self.lock_ctor(c, init, loc)
                        elif init.k == "construct" and init.kids:
                            inner = self.path(init.kids[0], c)
                            self.transfer_lock(c, inner, loc)
                        if v[0] == "retlock":
                            self.transfer_lock(c, v, loc)
                    elif init.k == "construct" and init.decl.cls == "maidsafe::on_scope_exit":
                        a = self.val(init.kids[0], c) if init.kids else ("none",)
                        c.env[("scopeexit", loc)] = a
                    elif term_depth(v) < 8 and not mentions(v, loc):
                        c.env[loc] = v
            if dd.id in self.has_dtor(fn) or self.is_lock_type(t):
                if dd.id not in c.stack[-1].live:
                    self.stack_replace(c, live=c.stack[-1].live + (dd.id,))
            if not self.ev("decl", c, node=n, path=loc, decl=dd, term=v, extra=init):
                return []
        return None

    @staticmethod
    def is_lock_type(t):
        b = t.split("<")[0]
        return b in LOCK_CLASSES

    def lock_ctor(self, c, n, loc):
        """std::lock_guard<...> loc(mutex [, tag])"""
        args = n.kids
        if not args:
            return
        first = self.path(args[0], c)
        tags = [a.type for a in args[1:] if a is not None]
        if n.decl.cls and n.decl.cls.startswith("std::scoped_lock") or "scoped_lock" in (n.decl.cls or ""):
            ms = [self.path(a, c) for a in args]
        else:
            ms = [first]
        if self.is_lock_type(args[0].type.replace("&", "").strip()):
            self.transfer_lock(c, first, loc)
            return
        c.env[("lockvar", loc)] = ms[0]
        if any("defer_lock" in t for t in tags):
            return
        if any("adopt_lock" in t for t in tags):
            ls = list(c.locks)
            for j, (m, o) in enumerate(ls):
                if m == ms[0] and o is None:
                    ls[j] = (m, loc)
            c.locks = tuple(ls)
            return
        if any("try_to_lock" in t for t in tags):
            return
        for m in ms:
            self.acquire(c, m, loc, n, shared="shared" in (n.decl.cls or ""))

    def do_assign(self, c, n):
        lhs, rhs = n.kids
        p = self.path(lhs, c)
        v = self.val(rhs, c) if n.op == "=" else ("top", (c.stack[-1].fk, n.id))
        r = rhs.strip()
        if r is not None and r.k == "cond" and ("cond", c.stack[-1].fk, r.id) in c.env:
            v = c.env[("cond", c.stack[-1].fk, r.id)]
        self.kill(c, p)
        if p[0] == "var" and term_depth(v) < 8 and not mentions(v, p):
            c.env[p] = v
        if not self.ev("assign", c, node=n, path=p, term=v, mode=n.op):
            return []
        return None

    def argpairs(self, n, c):
        out = []
        for a in n.args:
            if a is None:
                out.append((None, None))
            else:
                x = a.strip()
                if x is not None and x.k == "cond" and ("cond", c.stack[-1].fk, x.id) in c.env:
                    v = c.env[("cond", c.stack[-1].fk, x.id)]
                    out.append((v, v))
                else:
                    out.append((self.path(a, c), self.val(a, c)))
        return out

    def is_log(self, d):
        return d is not None and d.q.startswith(LOGQ) and not getattr(self.client, "follow_log", False)

    def do_construct(self, c, n):
        fr = c.stack[-1]
        d = n.decl
        if self.is_log(d):
            return None
        if not self.ev("construct", c, node=n, decl=d, q=d.q, inlined=False):
            return []
        self.defer_lambdas(c, n, d)
        if self.is_lock_type((d.cls or "").strip()) and not n.o.get("elide") and n.kids and self.lock_source(n, c) is None:
            p = n.parent
            while p is not None and p.k in ("cast", "bind"):
                p = p.parent
            if p is not None and p.k in ("call", "construct", "return"):

                self.lock_ctor(c, n, ("locktmp", fr.fk, n.id))
        # enter repository constructors that build a declared variable
        f = self.prog.body(d)
        if f is not None and f.blocks and not f.o.get("defaulted") and not n.o.get("elide") and \
                f.cls != "maidsafe::on_scope_exit" and not self.client.opaque(d, self, fr) and self.can_enter(c, f):
            this = self.target_of(c, n)
            args = [(self.path(a, c), self.val(a, c)) if a is not None else (None, None) for a in n.kids]
            return self.throwing(c, n, d, self.enter(c, f, this, None, n, args, "call"), entered=True)
        return self.throwing(c, n, d, None)

    def target_of(self, c, n):
        """Where a constructed object lives: a declared local, or a temporary."""
        fr = c.stack[-1]
        p = n.parent
        if p is not None and p.k == "decl":
            for d in p.o.get("ds", []):
                if d.get("i") == n.id:
                    dd = fr.fn.tu.decls[d["v"]]
                    return ("var", fr.fk, dd.id, dd.name)
        for ini in fr.fn.inits:
            if ini["e"] == n.id and "f" in ini:
                return ("fld", fr.this, fr.fn.tu.decls[ini["f"]].name)
            if ini["e"] == n.id and ("base" in ini or ini.get("deleg")):
                return fr.this
        return ("tmp", fr.fk, n.id)

    def throwing(self, c, n, d, r, entered=False):
        """Add the exceptional successor of a call that is not entered."""
        if not self.exc or entered:
            return r
        if d is not None and (d.o.get("nothrow") or d.o.get("dtor")):
            return r
        if self.client_nothrow(d, n):
            return r
        out = self.unwind(c, n, thrown=None)
        if r is None:
            c.idx = c.idx
            return [c.fork()] + out
        return r + out

    def client_nothrow(self, d, n):
        f = getattr(self.client, "nothrow", None)
        return f(d, n) if f else False

    def defer_lambdas(self, c, n, d, skip=()):
        fr = c.stack[-1]
        for a in n.args:
            if a is None:
                continue
            v = self.val(a, c)
            for s in functors(v):
                if s[0] == "func":
                    fd = self.prog.tus[s[2][0]].decls[s[2][1]]
                    f = self.prog.body(fd)
                    if f is None or not f.blocks or not self.wants_functor(d):
                        continue
                    obj = ("none",)
                    if fd.cls and not fd.o.get("static"):
                        obj = self.bound_object(n, s, c, v)
                    s = ("lambda", f.uid, None, obj)
                else:
                    f = self.lambda_func(s)
                if f is None:
                    continue
                if n.k == "construct" and d is not None and \
                        ("function" in (d.cls or "") or d.o.get("lambda") or d.o.get("copyctor") or
                         "anonymous" in (d.cls or "") or "lambda" in (d.cls or "")):
                    continue   # being wrapped; the consumer decides
                key = (f.uid, d.q if d is not None else "?", fr.fk)
                if key not in self.deferred:
                    keepenv = {k: x for k, x in c.env.items() if isinstance(k, tuple) and k and
                               (k[0] in ("alias",) or k[0] == "var")}
                    self.deferred[key] = {"fn": f, "pfk": s[2], "this": s[3], "env": keepenv, "done": False,
                                          "via": d.q if d is not None else "?", "node": n, "locks": c.locks}
                self.ev("defer", c, node=n, decl=d, q=d.q if d is not None else "?", term=s, extra=f)

    @staticmethod
    def wants_functor(d):
        if d is None:
            return False
        nm = d.name
        return nm in ("async", "thread", "emplace_back", "post", "dispatch", "Send", "push", "push_back", "jthread",
                      "async_accept", "async_read", "async_write", "create_thread", "emplace")

    def bound_object(self, n, s, c, v):
        """The object a pointer-to-member is called on: the argument after it."""
        if v[0] == "ret":
            a = v[3]
        else:
            a = tuple(self.val(x, c) for x in n.args if x is not None)
        for i, x in enumerate(a):
            if x == s or x == ("addr", s):
                if i + 1 < len(a):
                    return self.deref(a[i + 1])
        return ("none",)

    def do_call(self, c, n):
        fr = c.stack[-1]
        fn = fr.fn
        d = n.decl
        q = d.q if d is not None else None
        if self.is_log(d):
            return None
        # forget an older result of the same call
        c.env.pop(("rv", fr.fk, n.id), None)
        for k in [k for k in c.env if isinstance(k, tuple) and k and k[0] == "assume" and
                  any(s[0] == "ret" and s[4] == (fr.fk, n.id) for s in subterms(k[1]) if len(s) == 5)]:
            c.env.pop(k, None)
        if q in PASS_THROUGH:
            return None
        objp = None
        if n.obj is not None:
            objp = self.path(n.obj, c)
            if n.o.get("arrow"):
                objp = self.deref(self.val(n.obj, c))
        args = self.argpairs(n, c)
        # ---- throw helpers
        if q in ("boost::throw_exception", "boost::exception_detail::throw_exception_"):
            th = self.thrown(n.args[0], c)
            if not self.ev("throw", c, node=n, term=th):
                return []
            return self.unwind(c, n, thrown=th, explicit=True)
        if q in ("std::rethrow_exception", "std::terminate", "abort", "exit", "std::abort", "_exit", "__assert_fail"):
            self.ev("call", c, node=n, decl=d, q=q, path=objp, args=args, inlined=False)
            if q == "std::rethrow_exception":
                return self.unwind(c, n)
            return []
        # ---- locks
        if q in ("std::lock", "boost::lock") and args:
            self.ev("call", c, node=n, decl=d, q=q, path=objp, args=args, inlined=False)
            before = c.locks
            for pth, v in args:
                m = c.env.get(("lockvar", pth))
                self.ev("acquire", c, node=n, path=m or pth, mode="multi", extra=before)
                c.locks = c.locks + ((m or pth, pth if m is not None else None),)
            return None
        if n.obj is not None and d is not None:
            cls = d.cls or ""
            base = cls.split("<")[0]
            if base in LOCK_CLASSES:
                nm = d.name
                m = c.env.get(("lockvar", objp))
                if nm == "lock":
                    self.ev("call", c, node=n, decl=d, q=q, path=objp, args=args, inlined=False)
                    self.acquire(c, m or ("deref", objp), objp, n)
                    return None
                if nm in ("unlock", "release"):
                    self.ev("call", c, node=n, decl=d, q=q, path=objp, args=args, inlined=False)
                    for mm, o in list(c.locks):
                        if o == objp:
                            self.release_mutex(c, mm, objp, n)
                    return None
                if nm in ("operator bool", "owns_lock"):
                    c.env[("rv", fr.fk, n.id)] = ("const", int(any(o == objp for mm, o in c.locks)))
                    return None
                if nm == "operator=" and n.args:
                    self.release_var(c, objp, n)
                    a = n.args[0]
                    src = self.path(a, c)
                    x = a.strip()
                    if x.k == "construct" and x.kids and not self.is_lock_type(x.kids[0].type.replace("&", "").strip()):
                        self.lock_ctor(c, x, objp)
                    else:
                        self.transfer_lock(c, src, objp)
                    return None
                if nm == "swap":
                    return None
            elif d.name in ("lock", "unlock", "lock_shared", "unlock_shared") and \
                    self.is_mutexish(n.obj.type):
                if d.name.startswith("lock"):
                    self.acquire(c, objp, None, n)
                else:
                    self.release_mutex(c, objp, None, n)
                return None
            if d.name in ("wait", "wait_for", "wait_until") and "condition_variable" in base:
                lockp = args[0][0] if args else None
                pred = None
                for a in n.args[1:]:
                    v = self.val(a, c)
                    if v[0] == "lambda":
                        pred = v
                self.ev("wait", c, node=n, decl=d, q=q, path=objp, term=pred, args=args, mode=d.name, extra=lockp)
                if pred is not None:
                    f = self.lambda_func(pred)
                    if f is not None and self.can_enter(c, f):
                        r = self.enter(c, f, pred[3], pred[2], n, (), "call")
                        return r
                return None
        if d is None:
            fnn = n.node(n.o.get("fn", -1))
            v = self.val(fnn, c) if fnn is not None else ("top",)
            if v[0] == "addr":
                v = v[1]
            if v[0] == "func":
                fd = self.prog.tus[v[2][0]].decls[v[2][1]]
                f = self.prog.body(fd)
                if f is not None and self.can_enter(c, f):
                    return self.enter(c, f, ("none",), None, n, args, "call")
            if not self.ev("call", c, node=n, decl=None, q="*", path=v, args=args, inlined=False):
                return []
            self.defer_lambdas(c, n, None)
            return self.throwing(c, n, None, None)
        # ---- on_scope_exit
        if d.cls == "maidsafe::on_scope_exit" and objp is not None and objp[0] == "var":
            if d.name == "Release" or (d.name == "SetAction" and not n.args):
                c.env.pop(("scopeexit", objp), None)
            elif d.name == "SetAction":
                c.env[("scopeexit", objp)] = args[0][1]
            self.ev("call", c, node=n, decl=d, q=q, path=objp, args=args, inlined=False)
            return None
        # ---- functors
        if n.o.get("opc") and d.o.get("op") == "()":
            v = self.val(n.kids[0], c)
            lam = None
            if v[0] == "lambda":
                lam = v
            elif d.o.get("lambda"):
                lam = ("lambda", d.uid, fr.fk, fr.this)
            if lam is not None:
                f = self.lambda_func(lam) if not d.o.get("lambda") else (d.tu.bydecl.get(d.id) or self.lambda_func(lam))
                if f is not None and self.can_enter(c, f):
                    if not self.ev("call", c, node=n, decl=f.decl, q=f.q, path=objp, args=args, inlined=True):
                        return []
                    return self.enter(c, f, lam[3], lam[2], n, args, "call")
            if not self.ev("call", c, node=n, decl=d, q=q, path=self.path(n.kids[0], c), args=args, inlined=False, extra="functor"):
                return []
            self.defer_lambdas(c, n, d)
            return self.throwing(c, n, d, None)
        # ---- functions defined in the repository
        f = self.prog.body(d)
        if f is not None and f.blocks and self.can_enter(c, f) and not self.client.opaque(d, self, fr) and \
                not (d.o.get("virt") and not n.o.get("qual") and d.o.get("op") is None and self.client_virtual(d)):
            if not self.ev("call", c, node=n, decl=d, q=q, path=objp, args=args, inlined=True):
                return []
            this = objp if objp is not None else ("none",)
            a = args
            return self.enter(c, f, this, None, n, a, "call")
        # ---- opaque
        if not self.ev("call", c, node=n, decl=d, q=q, path=objp, args=args, inlined=False):
            return []
        if n.o.get("opc") and d.o.get("op") == "=" and objp is not None and n.args:
            v = args[0][1]
            self.kill(c, objp)
            if objp[0] == "var" and v is not None and term_depth(v) < 8 and not mentions(v, objp):
                c.env[objp] = v
            self.ev("assign", c, node=n, path=objp, term=v, mode="=")
        elif objp is not None and not d.o.get("const") and objp[0] == "var":
            c.env.pop(objp, None)
        pts = d.ptypes
        for j, a in enumerate(args):
            if j < len(pts) and pts[j].endswith("&") and not pts[j].startswith("const ") and \
                    not pts[j].endswith("&&") and a[0] is not None and a[0][0] == "var":
                self.kill(c, a[0])
        for j, a in enumerate(args):
            if a[1] is not None and a[1][0] == "addr" and a[1][1][0] == "var":
                self.kill(c, a[1][1])
        # functors run on the spot by algorithms
        nm = d.name
        if nm == "call_once" or (nm in IMMEDIATE and (q.startswith("std::") or q.startswith("boost::"))):
            for a in args:
                v = a[1]
                if v is not None and v[0] == "lambda":
                    lf = self.lambda_func(v)
                    if lf is not None and self.can_enter(c, lf):
                        skip = c.fork()
                        c.env[("rv", fr.fk, n.id)] = ("ret", q, objp, tuple(x[1] for x in args[:6]), (fr.fk, n.id))
                        r = self.enter(c, lf, v[3], v[2], n, [(("elem",), ("elem",))] * len(lf.params),
                                       "once" if nm == "call_once" else "loop")
                        out = [skip] + r
                        return self.throwing(c, n, d, out)
        else:
            self.defer_lambdas(c, n, d)
        if not self.ev("ret", c, node=n, decl=d, q=q, path=objp, args=args, inlined=False):
            return []
        if d.o.get("noreturn"):
            return []
        return self.throwing(c, n, d, None)

    def client_virtual(self, d):
        f = getattr(self.client, "virtual_opaque", None)
        return f(d) if f else True

    @staticmethod
    def is_mutexish(t):
        return "mutex" in t or "Spinlock" in t


class Conf:
    __slots__ = ("stack", "block", "idx", "env", "locks", "st", "tr")

    def __init__(self, stack, block, idx, env, locks, st, tr=None):
        self.stack, self.block, self.idx = stack, block, idx
        self.env, self.locks, self.st, self.tr = env, locks, st, tr

    def fork(self):
        return Conf(self.stack, self.block, self.idx, dict(self.env), self.locks, self.st, self.tr)

    def goto(self, b):
        self.block, self.idx = b, 0

    def drop_frame(self, fk, keep=False):
        for k in [k for k in self.env if isinstance(k, tuple) and self._frame_of(k) == fk]:
            del self.env[k]

    @staticmethod
    def _frame_of(k):
        t = k[0]
        if t == "var":
            return k[1]
        if t in ("rv", "retv", "cond", "armof", "short", "caught"):
            return k[1]
        if t in ("alias", "scopeexit", "lockvar") and isinstance(k[1], tuple) and k[1][0] == "var":
            return k[1][1]
        return None

    def key(self):
        return (tuple((f.fk, f.this, f.ret, f.live, f.extra) for f in self.stack), self.block, self.idx,
                frozenset(self.env.items()), self.locks, self.st)
