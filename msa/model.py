"""Program model: loads what tool/msx wrote for a set of translation units and links them."""
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MSA_REPO", "/repo")

DEFS = """APPLICATION_VERSION_MAJOR=0 APPLICATION_VERSION_MINOR=0 APPLICATION_VERSION_PATCH=0
TARGET_PLATFORM=Linux TARGET_ARCHITECTURE=x86_64 TESTING
ASIO_HAS_MOVE BOOST_ASIO_HAS_MOVE ASIO_HAS_STD_ARRAY BOOST_ASIO_HAS_STD_ARRAY
ASIO_HAS_STD_ATOMIC BOOST_ASIO_HAS_STD_ATOMIC ASIO_HAS_STD_SHARED_PTR
BOOST_ASIO_HAS_STD_SHARED_PTR ASIO_HAS_STD_CHRONO BOOST_ASIO_HAS_STD_CHRONO
ASIO_HAS_STD_SYSTEM_ERROR BOOST_ASIO_HAS_STD_SYSTEM_ERROR
ASIO_HAS_VARIADIC_TEMPLATES BOOST_ASIO_HAS_VARIADIC_TEMPLATES
BOOST_FILESYSTEM_NO_DEPRECATED BOOST_FILESYSTEM_VERSION=3 BOOST_THREAD_VERSION=4
BOOST_RESULT_OF_USE_DECLTYPE _FILE_OFFSET_BITS=64 HAVE_PTHREAD MAIDSAFE_LINUX
COMPANY_NAME=MaidSafe APPLICATION_NAME=Common BOOST_TIMER_ENABLE_DEPRECATED""".split()


def flags(src):
    f = ["-std=c++17", "-w"] + ["-D" + d for d in DEFS]
    f.append("-DUSE_LOGGING=%d" % (1 if os.path.basename(src) in ("log.cc", "visualiser_log.cc") else 0))
    f += ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/stubs",
          "-include", VERIF + "/stubs/msa_prelude.h"]
    if src.endswith("common/utils.cc"):
        f += ["-include", "asio/io_service.hpp"]
    if src.endswith("common/rsa.cc"):
        f += ["-include", VERIF + "/stubs/rsa_shim.h"]
    return f


class AnalysisError(Exception):
    """The sources could not be analysed: no verdict."""


def tool():
    src = os.path.join(VERIF, "tool", "msx.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(VERIF, "build", "msx-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
           "-L/usr/lib/x86_64-linux-gnu", "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the fact extractor:\n" + r.stderr)
    os.rename(tmp, out)
    return out


def run_tool(srcs, defs=(), roots=()):
    """srcs: list of absolute paths.  Returns {src: facts}."""
    exe = tool()
    d = tempfile.mkdtemp(prefix="msa.")
    try:
        def one(a):
            i, s = a
            o = os.path.join(d, "%d.json" % i)
            r = subprocess.run([exe, o, ",".join((REPO + "/", VERIF + "/drivers/") + tuple(roots)), s] + flags(s) + ["-D" + x for x in defs],
                               capture_output=True, text=True, cwd=REPO)
            if r.returncode or not os.path.exists(o):
                raise AnalysisError("clang cannot parse %s:\n%s" % (s, r.stderr[-3000:]))
            return s, json.load(open(o))
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, enumerate(srcs)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


_strip_cache = {}
_OPS = re.compile(r"(<=>|<<=|>>=|->\*|\(\)|\[\]|<<(?!<[^<])|<<|>>|<=|>=|->|&&|\|\||\+\+|--|[-+*/%&|^=!]=|==|[-+*/%&|^~!=<>,])")


def strip_targs(q):
    """std::queue<int>::push -> std::queue::push (operators left alone)."""
    r = _strip_cache.get(q)
    if r is not None:
        return r
    out = []
    depth = 0
    i = 0
    while i < len(q):
        if q.startswith("operator", i) and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] == "_")):
            m = _OPS.match(q, i + 8)
            j = m.end() if m else i + 8
            if depth == 0:
                out.append(q[i:j])
            i = j
            continue
        ch = q[i]
        if ch == "<":
            depth += 1
        elif ch == ">" and not (i and q[i - 1] == "-"):
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    r = "".join(out)
    _strip_cache[q] = r
    return r


class Decl:
    __slots__ = ("o", "tu", "id", "uid", "q")

    def __init__(self, o, tu, i):
        self.o, self.tu, self.id = o, tu, i
        self.uid = (tu.idx, i)
        self.q = strip_targs(o["q"])
        if "cls" in o:
            o["clst"] = o["cls"]
            o["cls"] = strip_targs(o["cls"])

    def __getattr__(self, k):
        return self.o.get(k)

    @property
    def name(self):
        return self.o["n"]

    @property
    def type(self):
        return self.tu.types[self.o["t"]] if self.o.get("t", -1) >= 0 else ""

    @property
    def rettype(self):
        r = self.o.get("ret", -1)
        return self.tu.types[r] if r is not None and r >= 0 else ""

    @property
    def rectype(self):
        r = self.o.get("rec", -1)
        return self.tu.types[r] if r is not None and r >= 0 else ""

    @property
    def ptypes(self):
        return [self.tu.types[p] for p in self.o.get("params", [])]

    def __repr__(self):
        return "<%s %s>" % (self.o.get("k"), self.q)


class Node:
    __slots__ = ("o", "fn", "id", "parent", "_kids", "k", "op", "cv")

    def __init__(self, o, fn, i):
        self._kids = None
        self.o, self.fn, self.id = o or {}, fn, i
        self.parent = None
        self.k, self.op = self.o.get("k"), self.o.get("op")
        v = self.o.get("cv")
        self.cv = int(v) if isinstance(v, str) else v

    @property
    def line(self):
        return self.o.get("l", 0)

    @property
    def type(self):
        t = self.o.get("t", -1)
        return self.fn.tu.types[t] if t >= 0 else ""

    @property
    def kids(self):
        r = self._kids
        if r is None:
            ns = self.fn.nodes
            r = self._kids = [ns[c] if c >= 0 else None for c in self.o.get("c", [])]
        return r

    @property
    def decl(self):
        d = self.o.get("d")
        return self.fn.tu.decls[d] if d is not None else None

    def node(self, i):
        return self.fn.nodes[i] if i is not None and i >= 0 else None

    def walk(self):
        st = [self]
        seen = set()
        while st:
            n = st.pop()
            if n is None or n.id in seen:
                continue
            seen.add(n.id)
            yield n
            st.extend(reversed(n.kids))

    def ancestors(self):
        n = self.parent
        while n is not None:
            yield n
            n = n.parent

    def strip(self):
        """Skip casts that do not run code."""
        n = self
        while n is not None and n.k == "cast":
            n = n.kids[0]
        return n

    @property
    def callee(self):
        d = self.decl
        return d.q if d is not None and self.k in ("call", "construct") else None

    @property
    def obj(self):
        return self.kids[0] if self.o.get("obj") else None

    @property
    def args(self):
        k = self.kids
        return k[1:] if self.o.get("obj") else k

    @property
    def loc(self):
        return "%s:%d" % (self.fn.relfile, self.line)

    def __repr__(self):
        return "<%s %s@%s>" % (self.k, text(self), self.loc)


class Block:
    __slots__ = ("id", "el", "succ", "tk", "tc", "tn", "label", "noret", "tkind")

    def __init__(self, o):
        self.id = o["id"]
        self.el = o["el"]
        self.succ = o["s"]
        self.tk = o.get("tk")
        self.tkind = o.get("tkind", 0)
        self.tc = o.get("tc")
        self.tn = o.get("tn")
        self.label = o.get("label")
        self.noret = o.get("noret", False)


class Func:
    def __init__(self, o, tu):
        self.o, self.tu = o, tu
        self.q = strip_targs(o["q"])
        self.n = o["n"]
        self.file = o["file"]
        self.relfile = os.path.relpath(os.path.join(REPO, o["file"]), REPO) if not o["file"].startswith(VERIF) \
            else o["file"]
        self.line = o["l"]
        self.col = o["col"]
        self.decl = tu.decls[o["d"]]
        self.params = [tu.decls[p] for p in o["params"]]
        self.nodes = []
        self.nodes = [Node(x, self, i) for i, x in enumerate(o["nodes"])]
        for n in self.nodes:
            for k in n.kids:
                if k is not None and k.parent is None:
                    k.parent = n
        for n in self.nodes:
            if n.k == "lambda":
                for c in n.o.get("caps", []):
                    e = n.node(c.get("e", -1))
                    if e is not None and e.parent is None:
                        e.parent = n
        self.body = self.nodes[o["body"]]
        self.blocks = {b["id"]: Block(b) for b in o.get("cfg", [])}
        self.entry = o.get("entry")
        self.exit = o.get("exit")
        self.inits = o.get("inits", [])
        self._try = None

    @property
    def loc(self):
        return "%s:%d" % (self.relfile, self.line)

    @property
    def cls(self):
        return self.decl.cls

    @property
    def is_lambda(self):
        return bool(self.decl.o.get("lambda"))

    @property
    def uid(self):
        return (self.tu.idx, self.o["d"])

    def where(self, pred):
        return [n for n in self.nodes if n.o and pred(n)]

    def calls(self, *names):
        return [n for n in self.nodes if n.k in ("call", "construct") and n.decl is not None and
                (not names or n.decl.q in names or n.decl.name in names)]

    def __repr__(self):
        return "<Func %s %s>" % (self.q, self.loc)


ARRAYREF = re.compile(r"\((&&?)\)((?:\[\d*\])+)")     # T (&)[n], shown as T[n] &


class TU:
    def __init__(self, idx, src, facts):
        self.idx, self.src = idx, src
        self.types = [ARRAYREF.sub(r"\2 \1", t).replace(" [", "[") if "(&" in t else t
                      for t in facts["types"]]
        self.decls = {}
        for k, v in facts["decls"].items():
            self.decls[int(k)] = Decl(v, self, int(k))
        self.facts = facts
        self.funcs = [Func(f, self) for f in facts["functions"]]
        self.bydecl = {f.o["d"]: f for f in self.funcs}


class Program:
    def __init__(self, srcs, defs=(), roots=()):
        self.srcs = [s if os.path.isabs(s) else os.path.join(REPO, s) for s in srcs]
        for s in self.srcs:
            if not os.path.exists(s):
                raise AnalysisError("missing source " + s)
        facts = run_tool(self.srcs, defs, roots)
        self.tus = [TU(i, s, facts[s]) for i, s in enumerate(self.srcs)]
        self._ops, self._members, self._records = {}, None, {}
        self.bymangled = {}
        self.funcs = []          # deduplicated (a header function appears once)
        self.primary = {}
        seen = {}
        for tu in self.tus:
            for f in tu.funcs:
                m = f.decl.o.get("m")
                if m and not f.o.get("internal"):
                    self.bymangled.setdefault(m, f)
                    key = m
                else:
                    key = (f.file, f.line, f.col, f.decl.type, f.decl.rectype,
                           None if not f.o.get("internal") and not f.is_lambda else
                           (f.o["d"] if f.o.get("inst") or f.is_lambda else 0))
                if key in seen and not (f.is_lambda and seen[key].tu is tu):
                    self.primary[f.uid] = seen[key]
                    continue
                seen[key] = f
                self.primary[f.uid] = f
                self.funcs.append(f)

    def body(self, decl):
        """Definition of a function declaration, wherever it is."""
        if decl is None or decl.o.get("k") != "func":
            return None
        f = decl.tu.bydecl.get(decl.id)
        if f is not None:
            return f
        m = decl.o.get("m")
        return self.bymangled.get(m) if m else None

    def find(self, q, file=None):
        return [f for f in self.funcs if f.q == q and (file is None or f.relfile.endswith(file))]

    def one(self, q, pred=None):
        fs = [f for f in self.find(q) if pred is None or pred(f)]
        if not fs:
            raise AnalysisError("no definition of %s in the analysed sources" % q)
        return fs[0]

    def in_file(self, suffix):
        return [f for f in self.funcs if f.relfile.endswith(suffix)]

    def operators(self, op):
        """The functions with a body that define operator op."""
        if op not in self._ops:
            self._ops[op] = [g for g in self.funcs if g.decl.o.get("op") == op and g.blocks]
        return self._ops[op]

    def members(self, cls):
        """The functions with a body that are members of class cls."""
        if self._members is None:
            self._members = {}
            for g in self.funcs:
                if g.blocks and g.decl.cls:
                    self._members.setdefault(g.decl.cls, []).append(g)
        return self._members.get(cls, [])

    def records(self, q):
        r = self._records.get(q)
        if r is None:
            r = self._records[q] = self._find_records(q)
        return r

    def _find_records(self, q):
        out = []
        seen = set()
        for tu in self.tus:
            for r in tu.facts["records"]:
                if strip_targs(r["q"]) == q:
                    t = tu.types[r["t"]]
                    if t in seen:
                        continue
                    seen.add(t)
                    out.append((tu, r))
        return out

    def enum(self, q):
        for tu in self.tus:
            for e in tu.facts["enums"]:
                if e["q"] == q:
                    return dict((a, b) for a, b in e["e"])
        raise AnalysisError("no enum " + q)

    def var(self, q):
        best = None
        for tu in self.tus:
            for v in tu.facts["vars"]:
                if v["q"] == q:
                    if v.get("init") is not None or best is None:
                        best = (tu, v)
                        if v.get("init") is not None:
                            return best
        return best

    def lines(self):
        return sum(1 for _ in self.funcs)


# ---------------------------------------------------------------- printing
def text(n, depth=0):
    """Readable rendering of an expression (for reports)."""
    if n is None:
        return ""
    if depth > 8:
        return "…"
    k = n.k
    T = lambda x: text(x, depth + 1)
    if k == "ref":
        return n.decl.name
    if k == "mem":
        b = n.kids[0]
        if b is not None and b.k == "this":
            return n.decl.name
        return T(b) + ("->" if n.o.get("arrow") else ".") + n.decl.name
    if k == "this":
        return "this"
    if k in ("int", "bool"):
        return str(n.cv)
    if k == "str":
        return json.dumps(n.o.get("s", ""))[:40]
    if k == "null":
        return "nullptr"
    if k == "cast":
        return T(n.kids[0])
    if k in ("bin", "assign"):
        return "%s %s %s" % (T(n.kids[0]), n.op, T(n.kids[1]))
    if k == "un":
        return (T(n.kids[0]) + n.op) if n.o.get("post") else (n.op + T(n.kids[0]))
    if k == "cond":
        return "%s ? %s : %s" % tuple(T(x) for x in n.kids[:3])
    if k == "index":
        return "%s[%s]" % (T(n.kids[0]), T(n.kids[1]))
    if k == "call":
        d = n.decl
        if n.o.get("opc") and d is not None:
            a = [T(x) for x in n.kids]
            op = d.o.get("op", "?")
            if op == "()":
                return "%s(%s)" % (a[0], ", ".join(a[1:]))
            if op == "[]":
                return "%s[%s]" % (a[0], a[1] if len(a) > 1 else "")
            if op == "->":
                return a[0]
            if len(a) == 1:
                return op + a[0]
            return (" %s " % op).join(a)
        nm = d.name if d is not None else T(n.node(n.o.get("fn", -1)))
        a = ", ".join(T(x) for x in n.args)
        if n.obj is not None:
            b = T(n.obj)
            return "%s%s(%s)" % ("" if b == "this" else b + ".", nm, a)
        return "%s(%s)" % (nm, a)
    if k == "construct":
        a = ", ".join(T(x) for x in n.kids)
        return "%s(%s)" % (n.decl.name, a) if n.o.get("temp") else (a or n.decl.name + "()")
    if k == "lambda":
        return "[…]{…}"
    if k == "return":
        return "return " + (T(n.kids[0]) if n.kids else "")
    if k == "decl":
        return ", ".join(n.fn.tu.decls[d["v"]].name for d in n.o.get("ds", []))
    if k == "throw":
        return "throw " + (T(n.kids[0]) if n.kids else "")
    if k == "new":
        return "new " + n.fn.tu.types[n.o["at"]]
    if k == "delete":
        return "delete " + T(n.kids[0])
    if k == "sizeof":
        return "sizeof(" + (n.fn.tu.types[n.o["at"]] if "at" in n.o else T(n.kids[0])) + ")"
    if k == "init":
        return "{%s}" % ", ".join(T(x) for x in n.kids)
    return k or "?"
