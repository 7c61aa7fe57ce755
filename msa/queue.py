"""Producer/consumer protocol of a guarded FIFO: what is taken, when, how often, in which order."""
from .walk import Client, mentions, subterms, pstr, roots
from .conc import storage

SEQ = ("std::queue", "std::deque", "std::list", "std::vector", "std::forward_list", "std::priority_queue", "std::stack")
BACK_INS = ("push", "push_back", "emplace", "emplace_back")
FRONT_INS = ("push_front", "emplace_front")
NOTIFY = ("notify_one", "notify_all")


def emptiness(term, truth):
    """(container path, is it empty?) that a branch establishes, or None."""
    t, tt = term, truth
    while t[0] == "not":
        t, tt = t[1], not tt
    if t[0] == "ret" and t[1].endswith("::empty") and t[2] is not None:
        return t[2], tt
    if t[0] == "ret" and t[1].endswith("::size") and t[2] is not None:
        return t[2], not tt
    if t[0] == "bin":
        op, a, b = t[1], t[2], t[3]
        if b[0] == "ret" and b[1].endswith("::size") and a[0] == "const":
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if a[0] == "ret" and a[1].endswith("::size") and a[2] is not None and b[0] == "const":
            n = b[1]
            if op in ("==", "!="):
                if n == 0:
                    return a[2], tt == (op == "==")
                if tt == (op == "=="):
                    return a[2], False
            if op == ">" and tt and n >= 0 or op == ">=" and tt and n >= 1:
                return a[2], False
            if op == ">" and not tt and n == 0 or op == ">=" and not tt and n == 1:
                return a[2], True
            if op == "<" and not tt and n >= 1 or op == "<=" and not tt and n >= 0:
                return a[2], False
            if op == "<" and tt and n == 1 or op == "<=" and tt and n == 0:
                return a[2], True
        if t[1] in ("==", "!=") and a[0] == "ret" and b[0] == "ret":
            na, nb = a[1].split("::")[-1], b[1].split("::")[-1]
            if {na, nb} <= {"begin", "end", "cbegin", "cend"} and na != nb and a[2] == b[2]:
                return a[2], tt == (t[1] == "==")
    if t[0] == "ret" and t[1].split("::")[-1] in ("operator==", "operator!="):
        ab = ([t[2]] if t[2] is not None else []) + list(t[3])
        if len(ab) == 2 and all(x[0] == "ret" for x in ab):
            na, nb = [x[1].split("::")[-1] for x in ab]
            if {na, nb} <= {"begin", "end", "cbegin", "cend"} and na != nb and ab[0][2] == ab[1][2]:
                return ab[0][2], tt == t[1].endswith("==")
    return None


def container_of(path, seqs, fld):
    if path is None:
        return None
    h, via = storage(path, fld)
    if h is not None and h[1][0] in seqs and not via:
        return h[1][0]
    return None


def call_ids(t):
    return set(s[4] for s in subterms(t) if s[0] == "ret" and len(s) == 5)


class Consumer(Client):
    """State: (known non-empty, front captured since the last removal, captured but not delivered, last flag
    branched on, emptiness queries made in the current critical section)."""
    def __init__(self, fld, seqs, deliver, multi=False):
        self.fld, self.seqs, self.deliver = fld, seqs, deliver
        self.fronts = self.pops = self.delivered = 0
        self.multi = multi
        self.exits = set()
        self.waits = []
        self.delivers = []

    def start(self):
        return (False, False, 0, None, frozenset())

    def on(self, ev, st):
        ne, rd, due, flag, fresh = st
        k = ev.kind
        if k == "branch":
            e = emptiness(ev.term, ev.truth)
            if e is not None and container_of(e[0], self.seqs, self.fld):
                if call_ids(ev.term) <= fresh:      # an answer from an earlier critical section proves nothing
                    ne = not e[1]
                    flag = ("empty", e[1])
            else:
                h, via = storage(ev.term, self.fld) if ev.term[0] in ("fld",) else (None, False)
                if h is not None:
                    flag = (h[1][0], ev.truth)
                elif ev.term[0] == "ret" and ev.term[1].split("::")[-1] in ("load", "operator bool", "operator _Tp", "operator __integral_type") \
                        and ev.term[2] is not None:
                    h, via = storage(ev.term[2], self.fld)
                    if h is not None:
                        flag = (h[1][0], ev.truth)
            return (ne, rd, due, flag, fresh)
        if k in ("release",):
            return (False, rd, due, flag, frozenset())
        if k == "wait":
            self.waits.append(ev)
            return (False, rd, due, flag, frozenset())
        if k == "call" and ev.decl is not None and ev.node is not None and not ev.inlined:
            c = container_of(ev.path, self.seqs, self.fld)
            nm = ev.decl.name
            if c is not None and nm in ("empty", "size", "begin", "end", "cbegin", "cend") and ev.locks:
                fresh = fresh | {(ev.frame.fk, ev.node.id)}
            if c is not None:
                if nm in ("front", "begin", "cbegin", "top", "back") or nm in ("operator[]", "at"):
                    if nm in ("top", "back"):
                        ev.eng.report("%s() takes an element other than the oldest from %s" % (nm, c), ev, "order|" + nm)
                    if nm in ("begin", "cbegin") and not rd and not ne:
                        return (ne, rd, due, flag, fresh)     # an iterator may be compared without being dereferenced
                    if not ne:
                        ev.eng.report("%s() is called on %s on a path where it is not known to be non-empty "
                                      "under the lock" % (nm, c), ev, "empty|front")
                    if not rd:
                        if due:
                            ev.eng.report("the next element of %s is taken before the previous one was delivered" % c,
                                          ev, "lost")
                        due = min(due + 1, 2)
                        self.fronts += 1
                    rd = True
                elif nm in ("pop", "pop_front", "erase"):
                    self.pops += 1
                    if not ne:
                        ev.eng.report("%s() removes from %s on a path where it is not known to be non-empty under the "
                                      "lock" % (nm, c), ev, "empty|pop")
                    if not rd:
                        ev.eng.report("%s() drops an element of %s that was never taken out" % (nm, c), ev, "dropped")
                    rd, ne = False, False
                elif nm in ("pop_back", "clear", "swap", "operator=", "resize"):
                    ev.eng.report("%s() on %s: elements leave the queue other than oldest first" % (nm, c), ev, "order|" + nm)
                return (ne, rd, due, flag, fresh)
            if self.deliver(ev):
                self.delivered += 1
                self.delivers.append(ev)
                if due == 0:
                    ev.eng.report("an element is delivered that was not taken from the queue in this step (run twice?)",
                                  ev, "twice")
                return (ne, rd, max(0, due - 1), flag, fresh)
        if k == "assign" and self.deliver(ev):
            self.delivered += 1
            return (ne, rd, max(0, due - 1), flag, fresh)
        if k == "exit" and ev.truth:
            if due:
                ev.eng.report("an element taken from the queue is never delivered on this path", ev, "lost|exit")
            if rd:
                ev.eng.report("an element was taken from the queue but not removed on this path", ev, "dup|exit")
            self.exits.add((flag, ev.term))
        return st


class Producer(Client):
    """State: (insertions, notified since the last insertion, stop flag seen)."""
    def __init__(self, fld, seqs, need_param=True):
        self.fld, self.seqs = fld, seqs
        self.inserts = 0
        self.notifies = []
        self.rejects = 0
        self.need_param = need_param
        self.conditional_ok = False

    def start(self):
        return (0, False, False, False)

    def on(self, ev, st):
        n, note, flag, emp = st
        k = ev.kind
        if k == "branch":
            e = emptiness(ev.term, ev.truth)
            if e is not None:
                emp = True
            else:
                for s in subterms(ev.term):
                    if s[0] == "fld":
                        h, via = storage(s, self.fld)
                        if h is not None and h[1][0] not in self.seqs:
                            flag = True
            return (n, note, flag, emp)
        if k == "call" and ev.decl is not None and not ev.inlined:
            c = container_of(ev.path, self.seqs, self.fld)
            nm = ev.decl.name
            if c is not None and nm in FRONT_INS + ("insert",):
                ok = nm == "insert" and ev.args and ev.args[0][1] and ev.args[0][1][0] == "ret" and \
                    ev.args[0][1][1].split("::")[-1] in ("end", "cend")
                if not ok:
                    ev.eng.report("%s() inserts into %s other than at the back" % (nm, c), ev, "order|" + nm)
            if c is not None and (nm in BACK_INS or nm in FRONT_INS or nm == "insert"):
                self.inserts += 1
                if self.need_param:
                    root = ev.stack[0]
                    ps = [("var", root.fk, p.id, p.name) for p in root.fn.params]
                    if not any(mentions(a, p) for pa in ev.args for a in pa if a is not None for p in ps):
                        ev.eng.report("what %s() puts into %s is not the caller's argument" % (nm, c), ev, "value")
                return (min(n + 1, 2), False, flag, emp)
            if nm in NOTIFY and "condition_variable" in (ev.decl.cls or ""):
                self.notifies.append(ev)
                return (n, True, flag, emp)
        if k == "exit" and ev.truth:
            if n == 0 and not flag:
                ev.eng.report("returns without having queued the element (and without consulting the stop flag)", ev, "noinsert")
            if n == 0:
                self.rejects += 1
            if n > 1:
                ev.eng.report("queues the element more than once", ev, "twice")
            if n and not note and not (emp and self.conditional_ok):
                ev.eng.report("returns after queueing an element without a notification following it", ev, "nonotify")
        return st
