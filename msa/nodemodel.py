"""Node-based containers (list, forward_list, set, map): elements keep their identity, so an iterator stays valid while
its element lives and the use of an erased element is seen."""
from . import bits as B
from .absint import P, Ref, Seq, Obj, N, Unk, Err, Lam, Undecided, INT, bare, strip_targs

NODE = ("std::list", "std::forward_list", "std::map", "std::set")
ITERS = ("std::_List_iterator", "std::_List_const_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator",
         "std::_Fwd_list_iterator", "std::_Fwd_list_const_iterator")


def is_node(cls):
    return cls in NODE


def targs(t):
    """Top-level template arguments."""
    t = bare(t)
    i = t.find("<")
    if i < 0:
        return []
    out, d, j, k = [], 0, i + 1, i + 1
    while j < len(t):
        c = t[j]
        if c in "<(":
            d += 1
        elif c in ">)":
            if d == 0:
                out.append(t[k:j].strip())
                break
            d -= 1
        elif c == "," and d == 0:
            out.append(t[k:j].strip())
            k = j + 1
        j += 1
    return out


def empty(ty, cmp=None):
    f = {"#o": (), "#c": 0, "#t": bare(ty)}
    if cmp is not None:
        f["#cmp"] = cmp
    return Obj(strip_targs(bare(ty)), f)


def exchange(I, st, a, b):
    """What iterators into the containers at a and b mean once these have swapped their elements: an iterator follows its
    element; an end iterator stays with the container."""
    def moved(p):
        for x, y in ((a, b), (b, a)):
            k = len(x.sels)
            if p.root == x.root and p.sels[:k] == x.sels and len(p.sels) > k and isinstance(p.sels[k], tuple) and \
                    p.sels[k][0] == "#n" and p.sels[k][1]:
                return type(p)(y.root, y.sels + p.sels[k:])
        return p

    def go(v):
        if isinstance(v, (P, Ref)):
            return moved(v)
        if isinstance(v, Obj):
            f = {k: go(x) for k, x in v.f.items()}
            return Obj(v.cls, f) if any(f[k] is not v.f[k] for k in f) else v
        if isinstance(v, Seq):
            items = [go(x) for x in v.items]
            return Seq(items, v.ty) if any(x is not y for x, y in zip(items, v.items)) else v
        return v
    for r in list(st.mem):
        v = st.mem[r]
        w = go(v)
        if w is not v:
            st.mem[r] = w


def node(i):
    return ("#n", i)


def is_node_iter(v):
    return isinstance(v, P) and v.sels and isinstance(v.sels[-1], tuple) and v.sels[-1][0] == "#n"


def order(o):
    return o.f["#o"]


def first(o):
    return o.f["#o"][0] if o.f["#o"] else 0


def insert_at(o, pos, v, keep=None):
    """The object with v inserted before index pos; (object, id)."""
    f = dict(o.f)
    i = keep if keep is not None else f["#c"] + 1
    f["#c"] = max(f["#c"], i)
    f["#o"] = f["#o"][:pos] + (i,) + f["#o"][pos:]
    f[node(i)] = v
    return Obj(o.cls, f), i


def remove(o, i):
    f = dict(o.f)
    f["#o"] = tuple(x for x in f["#o"] if x != i)
    f.pop(node(i), None)
    return Obj(o.cls, f)


def base_of(it):
    return P(it.root, it.sels[:-1])


def step(I, st, it, k, n):
    o = I.load(st, base_of(it), n)
    if not isinstance(o, Obj) or "#o" not in o.f:
        raise Undecided("iterator into %r at %s" % (o, n.loc if n else "?"))
    ids = o.f["#o"] + (0,)
    if it.sels[-1][1] not in ids:
        I.note_oob(n, "an iterator to an erased element is moved")
        return it
    j = ids.index(it.sels[-1][1]) + k
    if not 0 <= j < len(ids):
        I.note_oob(n, "an iterator is moved beyond the %d elements" % (len(ids) - 1))
        j = len(ids) - 1
    return base_of(it).at(node(ids[j]))


def span(I, st, a, b, n):
    """Iterators from a to b."""
    if is_node_iter(a):
        o = I.load(st, base_of(a), n)
        ids = o.f["#o"] + (0,)
        if a.sels[-1][1] not in ids or b.sels[-1][1] not in ids:
            I.note_oob(n, "an iterator to an erased element is used")
            return []
        i, j = ids.index(a.sels[-1][1]), ids.index(b.sels[-1][1])
        if i > j:
            I.note_oob(n, "a range whose end precedes its start")
            j = i
        return [base_of(a).at(node(x)) for x in ids[i:j]]
    if isinstance(a, P) and isinstance(b, P) and a.root == b.root and a.sels[:-1] == b.sels[:-1]:
        return [a.plus(k) for k in range(max(0, b.sels[-1] - a.sels[-1]))]
    raise Undecided("iterator range at %s" % (n.loc if n else "?"))


def keyof(o, v):
    return v.f["first"] if o.cls == "std::map" and isinstance(v, Obj) else v


def less(I, st, o, a, b, n):
    """[(state, a < b)] in the container's own order."""
    ta = targs(o.f["#t"])
    k = 2 if o.cls == "std::map" else 1
    cmp = ta[k] if len(ta) > k else ""
    if cmp.startswith("std::function<") or "#cmp" in o.f:
        f = o.f.get("#cmp", 0)
        if isinstance(f, Lam):
            out = []
            for s, v in I.apply(f, [a, b], st, n):
                for s2, t in I.branch(v, s, n):
                    out.append((s2, t))
            return out
        raise Undecided("comparator of a container at %s" % n.loc)
    if cmp and not cmp.startswith(("std::less<", "std::greater<")):
        for g in I.prog.funcs:
            if g.decl.o.get("op") == "()" and g.blocks and bare(g.decl.rectype or g.decl.cls or "") == bare(cmp):
                pa = [v if p.type.endswith("&") and isinstance(v, P) and not is_ptrlike(p.type) else I.temp(st, v)
                      if p.type.endswith("&") else v for v, p in zip((a, b), g.params)]
                out = []
                for s, v in I.invoke(g, pa, I.temp(st, Obj(strip_targs(cmp), {})), st):
                    for s2, t in I.branch(v, s, n):
                        out.append((s2, t))
                return out
        raise Undecided("comparator %s at %s" % (cmp, n.loc))
    op = ">" if cmp.startswith("std::greater<") else "<"
    out = []
    for s, v in I.operate(st, op, a, b, n):
        for s2, t in I.branch(v, s, n):
            out.append((s2, t))
    return out


def is_ptrlike(t):
    return "iterator" in t or bare(t).endswith("*")


def locate(I, st, o, key, n, upper=False):
    """[(state, index, equal)]: index of the first element not less than key (upper: greater than key)."""
    live, out = [st], []
    for j, i in enumerate(o.f["#o"]):
        e = keyof(o, o.f[node(i)])
        nx = []
        for s in live:
            if upper:
                for s2, t in less(I, s, o, key, e, n):
                    if t:
                        out.append((s2, j, False))
                    else:
                        nx.append(s2)
                continue
            for s2, t in less(I, s, o, e, key, n):
                if t:
                    nx.append(s2)
                    continue
                for s3, t3 in less(I, s2, o, key, e, n):
                    out.append((s3, j, not t3))
        live = nx
    return out + [(s, len(o.f["#o"]), False) for s in live]


def default_value(I, st, ty, n):
    t = bare(ty)
    if INT.get(t) or t.endswith("*") or t.startswith(("std::shared_ptr", "std::unique_ptr", "std::function")):
        return 0
    if strip_targs(t) in ITERS:
        return 0        # belongs to no container
    if is_node(strip_targs(t)):
        return empty(t)
    d = I.default(t)
    if not isinstance(d, Unk):
        return d
    if strip_targs(t) in ("std::pair", "std::tuple"):
        ta = targs(t)
        names = ("first", "second") if strip_targs(t) == "std::pair" else [str(i) for i in range(len(ta))]
        return Obj(strip_targs(t), {k: default_value(I, st, x, n) for k, x in zip(names, ta)})
    from .stdmodel import make_object
    r = make_object(I, st, t, [], n)
    if r is not None and len(r) == 1:
        return r[0][1]
    raise Undecided("default value of %s at %s" % (t, n.loc if n else "?"))


def fill(I, st, ty, items, n):
    """[(state, container)] built by inserting items in order."""
    cls = strip_targs(bare(ty))
    outs = [(st, empty(ty))]
    for v in items:
        if cls in ("std::list", "std::forward_list"):
            outs = [(s, insert_at(o, len(o.f["#o"]), v)[0]) for s, o in outs]
            continue
        nx = []
        for s, o in outs:
            for s2, j, eq in locate(I, s, o, keyof(o, v), n):
                nx.append((s2, o if eq else insert_at(o, j, v)[0]))
        outs = nx
    return outs


def construct(I, n, cls, st, fr):
    ty = bare(n.type)
    pt = n.decl.ptypes
    kids = [k for i, k in enumerate(n.kids) if not (i < len(pt) and ("allocator" in pt[i] and i > 0 or "Compare" in pt[i]))]
    if not kids:
        return [(st, empty(ty))]
    out = []
    for s, vs in I.evs(kids, st, fr):
        v = vs[0]
        if len(vs) >= 2 and isinstance(v, P) and isinstance(vs[1], P):
            items = [I.load(s, p, n) for p in span(I, s, v, vs[1], n)]
            out += fill(I, s, ty, items, n)
            continue
        v = I.load(s, v, n) if isinstance(v, P) else v
        if isinstance(v, Obj) and "#o" in v.f:
            out.append((s, v))
        elif isinstance(v, Seq):
            out += fill(I, s, ty, v.items, n)
        elif cls in ("std::set", "std::map") and len(vs) == 1:
            out.append((s, empty(ty, v if isinstance(v, Lam) else None)))      # a comparator
        else:
            return None
    return out


def pointerish(t):
    t = bare(t)
    return t.endswith("*") or "iterator" in strip_targs(t) or strip_targs(t) in ITERS or "_ptr" in strip_targs(t) or \
        t.endswith("]")


def raw(I, s, v, n):
    """A value as stored: whole containers are passed by place."""
    if isinstance(v, P) and not v.sels or isinstance(v, P) and isinstance(v.sels[-1], str):
        try:
            x = I.get(s, v)
        except Undecided:
            return v
        if isinstance(x, Obj) and "#o" in x.f:
            return x
    return v


def method(I, n, d, st, fr, want_lv):
    from .stdmodel import objplace, I_canon
    nm, op = d.name, d.o.get("op")
    argn = n.args if n.obj is not None else n.kids[1:]
    out = []
    for s0, p in objplace(I, n, st, fr):
        if not isinstance(p, P):
            return None
        p = I_canon(I, s0, p)
        res = [(s0, [])]
        pts = d.ptypes
        for i, a in enumerate(argn):
            nx = []
            whole = i < len(pts) and is_node(strip_targs(bare(pts[i])))
            for s, vs in res:
                for s2, v in (I.lv(a, s, fr) if whole else I.ev(a, s, fr)):
                    if not whole and isinstance(v, P) and not pointerish(a.type):
                        v = I.load(s2, v, n)
                    nx.append((s2, vs + [v]))
            res = nx
        for s, vs in res:
            o = I.load(s, p, n)
            if isinstance(o, Unk):
                out.append((s, Unk(bare(n.type), o.why)))
                continue
            if not isinstance(o, Obj) or "#o" not in o.f:
                raise Undecided("%s of %r at %s" % (nm, o, n.loc))
            r = one(I, n, d, s, p, o, vs, nm, op)
            if r is None:
                raise Undecided("%s::%s at %s" % (d.cls, nm, n.loc))
            out += r
    return out


def one(I, n, d, s, p, o, vs, nm, op):
    from .stdmodel import I_canon
    ids = o.f["#o"]
    cls = o.cls
    end = p.at(node(0))
    lst = cls in ("std::list", "std::forward_list")

    def put(x):
        I.put(s, p, x, n)

    def at(j):
        return p.at(node(ids[j])) if j < len(ids) else end
    if nm == "size":
        return [(s, len(ids))]
    if nm == "max_size":
        return [(s, 1 << 58)]
    if nm == "empty":
        return [(s, int(not ids))]
    if nm in ("begin", "cbegin"):
        return [(s, at(0))]
    if nm in ("end", "cend"):
        return [(s, end)]
    if nm == "clear":
        put(Obj(o.cls, {k: v for k, v in o.f.items() if k in ("#t", "#c", "#cmp")} | {"#o": ()}))
        return [(s, None)]
    if op == "=":
        v = raw(I, s, vs[0], n)
        if isinstance(v, Seq):
            res = []
            for s2, x in fill(I, s, o.f["#t"], v.items, n):
                I.put(s2, p, x, n)
                res.append((s2, p))
            return res
        put(v)
        return [(s, p)]
    if nm == "swap":
        q = vs[0]
        if not isinstance(q, P):
            return None
        v = I.load(s, q, n)
        I.put(s, q, o, n)
        put(v)
        exchange(I, s, p, I_canon(I, s, q))
        return [(s, None)]
    if nm in ("rbegin", "crbegin"):
        return [(s, Obj(REV, {"i": p.at(node(0))}))]
    if nm in ("rend", "crend"):
        return [(s, Obj(REV, {"i": p.at(node(first(o)))}))]
    if nm in ("front", "back"):
        if not ids:
            I.note_oob(n, "%s() of an empty container" % nm)
            return [(s, I.temp(s, Unk("?", "empty")))]
        return [(s, p.at(node(ids[0 if nm == "front" else -1])))]
    if nm in ("pop_front", "pop_back"):
        if not ids:
            I.note_oob(n, "%s() of an empty container" % nm)
            return [(s, None)]
        put(remove(o, ids[0 if nm == "pop_front" else -1]))
        return [(s, None)]
    if lst and nm in ("push_back", "push_front", "emplace_back", "emplace_front") and len(vs) == 1:
        x, i = insert_at(o, 0 if "front" in nm else len(ids), raw(I, s, vs[0], n))
        put(x)
        return [(s, None)]
    if nm == "splice":
        src = vs[1]
        if not is_node_iter(vs[0]) or not isinstance(src, P):
            return None
        so = I.load(s, src, n)
        if len(vs) == 3:
            if base_of(vs[2]) != p:
                return None
            i, at_ = vs[2].sels[-1][1], vs[0].sels[-1][1]
            if i not in ids:
                I.note_oob(n, "splice of an erased element or of the end")
                return [(s, None)]
            if i == at_:
                return [(s, None)]
            rest = tuple(x for x in ids if x != i)
            j = rest.index(at_) if at_ else len(rest)
            f = dict(o.f)
            f["#o"] = rest[:j] + (i,) + rest[j:]
            put(Obj(o.cls, f))
            return [(s, None)]
        return None
    if nm == "erase":
        if len(vs) == 1 and is_node_iter(vs[0]) and not (not lst and d.ptypes and d.ptypes[0].endswith("&")):
            i = vs[0].sels[-1][1]
            if i not in ids:
                I.note_oob(n, "erase of the end or of an erased element")
                return [(s, end)]
            j = ids.index(i)
            put(remove(o, i))
            return [(s, p.at(node(ids[j + 1])) if j + 1 < len(ids) else end)]
        if len(vs) == 2:
            for q in span(I, s, vs[0], vs[1], n):
                o = remove(o, q.sels[-1][1])
            put(o)
            return [(s, vs[1])]
        res = []
        key = vs[0]
        if is_node_iter(key):       # an element that is an iterator, or the place of one
            x = I.peekv(s, key)
            key = x if is_node_iter(x) else key
        for s2, j, eq in locate(I, s, o, key, n):
            if eq:
                I.put(s2, p, remove(o, ids[j]), n)
            res.append((s2, int(eq)))
        return res
    if lst and nm in ("insert", "emplace") and is_node_iter(vs[0]) and len(vs) == 2:
        i = vs[0].sels[-1][1]
        v = raw(I, s, vs[1], n)
        j = ids.index(i) if i else len(ids)
        new = v.items if isinstance(v, Seq) and "initializer_list" in (d.ptypes[1] if len(d.ptypes) > 1 else "") else (v,)
        k = None
        for m, x in enumerate(new):
            o, i2 = insert_at(o, j + m, x)
            k = k or i2
        put(o)
        return [(s, p.at(node(k)) if k else vs[0])]
    if lst and nm in ("remove", "remove_if", "reverse", "sort", "merge", "unique"):
        if nm == "reverse":
            f = dict(o.f)
            f["#o"] = tuple(reversed(ids))
            put(Obj(o.cls, f))
            return [(s, None)]
        if nm in ("remove", "remove_if"):
            live = [s]
            for i in ids:
                nx = []
                for s1 in live:
                    r = I.operate(s1, "==", p.at(node(i)), vs[0], n) if nm == "remove" else \
                        I.apply(vs[0], [p.at(node(i))], s1, n)
                    for s2, v in r:
                        for s3, t in I.branch(v, s2, n):
                            if t:
                                I.put(s3, p, remove(I.load(s3, p, n), i), n)
                            nx.append(s3)
                live = nx
            return [(x, None) for x in live]
        return None
    if cls in ("std::map", "std::set"):
        if nm in ("find", "count", "lower_bound", "upper_bound", "at", "contains", "equal_range") or op == "[]":
            res = []
            for s2, j, eq in locate(I, s, o, vs[0], n, nm == "upper_bound"):
                if nm in ("count", "contains"):
                    res.append((s2, int(eq)))
                elif nm == "find":
                    res.append((s2, at(j) if eq else end))
                elif nm in ("lower_bound", "upper_bound"):
                    res.append((s2, at(j)))
                elif nm == "equal_range":
                    res.append((s2, Obj("std::pair", {"first": at(j), "second": at(j + 1) if eq else at(j)})))
                elif nm == "at":
                    if eq:
                        res.append((s2, p.at(node(ids[j])).at("second")))
                    else:
                        I.sink[-1].append((s2, Err("std::out_of_range")))
                else:
                    if eq:
                        res.append((s2, p.at(node(ids[j])).at("second")))
                    else:
                        v = Obj("std::pair", {"first": raw(I, s2, vs[0], n),
                                              "second": default_value(I, s2, targs(o.f["#t"])[1], n)})
                        x, i = insert_at(o, j, v)
                        I.put(s2, p, x, n)
                        res.append((s2, p.at(node(i)).at("second")))
            return res
        if nm in ("insert", "emplace", "emplace_hint", "try_emplace", "insert_or_assign"):
            hint = is_node_iter(vs[0]) and base_of(vs[0]) == p and len(vs) >= 2 and nm in ("insert", "emplace_hint")
            if hint:
                vs = vs[1:]
            elif nm == "insert" and len(vs) == 2 and isinstance(vs[0], P) and isinstance(vs[1], P):
                live = [s]
                for q in span(I, s, vs[0], vs[1], n):
                    live = [s2 for s1 in live for s2, r in add(I, s1, p, I.load(s1, q, n), n)]
                return [(x, None) for x in live]
            if nm != "insert" and cls == "std::map" and len(vs) == 2:
                v = Obj("std::pair", {"first": raw(I, s, vs[0], n), "second": conv_value(I, s, targs(o.f["#t"])[1], vs[1], n)})
            elif len(vs) == 1:
                v = vs[0] if cls == "std::set" and "iterator" in targs(o.f["#t"])[0] else raw(I, s, vs[0], n)
            else:
                return None
            if isinstance(v, Seq) and nm == "insert" and "initializer_list" in (d.ptypes[0] if d.ptypes else ""):
                live = [s]
                for x in v.items:
                    live = [s2 for s1 in live for s2, r in add(I, s1, p, x, n)]
                return [(x, None) for x in live]
            if isinstance(v, Obj) and v.cls == "std::tuple" and cls == "std::map":
                v = Obj("std::pair", {"first": v.f["0"], "second": v.f["1"]})
            res = []
            for s2, (it, new) in add(I, s, p, v, n):
                if not new and nm == "insert_or_assign":
                    I.put(s2, it.at("second"), v.f["second"], n)
                res.append((s2, it if hint else Obj("std::pair", {"first": it, "second": int(new)})))
            return res
    return None


def conv_value(I, s, ty, v, n):
    return raw(I, s, v, n)


def add(I, s, p, v, n):
    o = I.load(s, p, n)
    res = []
    for s2, j, eq in locate(I, s, o, keyof(o, v), n):
        if eq:
            res.append((s2, (p.at(node(o.f["#o"][j])), False)))
        else:
            x, i = insert_at(o, j, v)
            I.put(s2, p, x, n)
            res.append((s2, (p.at(node(i)), True)))
    return res


REV = "std::reverse_iterator"


def move(I, st, it, k, n):
    return step(I, st, it, k, n) if is_node_iter(it) else it.plus(k)


def reverse_op(I, n, d, st, fr):
    """An iterator that names the element before the one it holds."""
    from .stdmodel import objplace
    op, nm = d.o.get("op"), d.name
    out = []
    if op in ("==", "!="):
        for s, vs in I.evs(n.kids, st, fr):
            vs = [I.load(s, v, n) if isinstance(v, P) else v for v in vs]
            if not all(isinstance(v, Obj) and isinstance(v.f.get("i"), P) for v in vs):
                return None
            out.append((s, int((vs[0].f["i"] == vs[1].f["i"]) == (op == "=="))))
        return out
    for s, p in objplace(I, n, st, fr):
        o = I.load(s, p, n)
        if not isinstance(o, Obj) or not isinstance(o.f.get("i"), P):
            return None
        if op in ("++", "--"):
            I.put(s, p, Obj(REV, {"i": move(I, s, o.f["i"], -1 if op == "++" else 1, n)}), n)
            out.append((s, o if len(n.args if n.obj is not None else n.kids[1:]) else p))
        elif op in ("*", "->"):
            it = move(I, s, o.f["i"], -1, n)
            if is_node_iter(it) and it.sels[-1][1] == 0:
                out.append((s, I.temp(s, Unk("?", "end"))))
            else:
                out.append((s, it))
        elif nm == "base":
            out.append((s, o.f["i"]))
        else:
            return None
    return out


def iterator_op(I, n, d, st, fr):
    op = d.o.get("op")
    ks = n.kids
    out = []
    if op in ("++", "--"):
        for s, p in I.lv(ks[0], st, fr):
            it = I.load(s, p, n)
            if not is_node_iter(it):
                return None
            I.put(s, p, step(I, s, it, 1 if op == "++" else -1, n), n)
            out.append((s, it if len(ks) > 1 else p))
        return out
    if op == "=":
        for s, p in I.lv(ks[0], st, fr):
            for s2, v in I.ev(ks[1], s, fr):
                I.put(s2, p, v, n)
                out.append((s2, p))
        return out
    for s, vs in I.evs(ks, st, fr):
        a = vs[0]
        if op in ("*", "->"):
            if not is_node_iter(a):
                return None
            if a.sels[-1][1] == 0:
                I.note_oob(n, "the end iterator is dereferenced")
                out.append((s, I.temp(s, Unk("?", "end"))))
            else:
                out.append((s, P(a.root, a.sels)))
        elif op in ("==", "!="):
            if not isinstance(vs[1], P) or not isinstance(a, P):
                return None
            out.append((s, int((a == vs[1]) == (op == "=="))))
        else:
            return None
    return out
