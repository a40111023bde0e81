"""Which locks are certainly held where: access paths, RAII/raw acquisition, interprocedural entry locksets.

A lock (and any datum) is named by an access path: a tuple (root, field, field, ...); root is "this", or "v:<usr>" for a
variable; pointers and what they point at are not distinguished, references are replaced by what they are bound to.
"""
from collections import defaultdict
from prog import kids

PRIM = {"eckit::Mutex", "eckit::MutexCond", "eckit::StaticMutex", "std::mutex", "std::recursive_mutex",
        "std::shared_mutex", "std::timed_mutex", "std::recursive_timed_mutex", "std::shared_timed_mutex",
        "eckit::Semaphore", "eckit::FileLock", "eckit::FileLocker"}
ACQ = {"lock", "lock_shared", "lockExclusive", "lockShared"}
REL = {"unlock", "unlock_shared"}
STDGUARD = {"std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock"}
# reference counting and its lock protect the count only
NOTLOCK = ("eckit::Counted::", "eckit::memory::detail::", "eckit::NoLock::")
REFOPS = {"operator->", "operator*", "get", "value", "front", "back", "begin"}


class PathFinder:
    """access paths of the expressions of one program"""

    def __init__(self, P):
        self.P = P
        self._acc = {}
        self._alias = {}
        self._mem = {}

    def aliases(self, f):
        """local references / single-assignment pointers -> path of what they are bound to"""
        a = self._alias.get(f.u)
        if a is not None:
            return a
        a = self._alias[f.u] = {}
        assigned = set()
        for i, n in enumerate(f.n):
            if n["k"] == "assign" and n["a"] and f.n[n["a"][0]]["k"] == "ref":
                assigned.add(f.n[n["a"][0]]["v"])
            elif n["k"] == "un" and n.get("op") in ("++", "--") and f.n[n["a"][0]]["k"] == "ref":
                assigned.add(f.n[n["a"][0]]["v"])
        for i, n in enumerate(f.n):
            if n["k"] == "decl":
                for d in n["d"]:
                    t = d.get("t", "")
                    if "i" not in d or d.get("vk") != "local":
                        continue
                    if t.endswith("&") or (t.endswith("*") and d["v"] not in assigned):
                        p = self.path(f, d["i"])
                        if p:
                            a[d["v"]] = p
            elif n["k"] == "init" and f.kind == "ctor" and n.get("v"):
                # a reference or pointer member bound to a parameter or to a global
                if (n.get("t", "").endswith(("&", "*"))) and n.get("a"):
                    p = self.path(f, n["a"][0])
                    if p:
                        a[("this", n["v"])] = p
        return a

    def path(self, f, i, depth=0):
        if i is None or i < 0 or depth > 25:
            return None
        key = (f.u, i)
        if key in self._mem:
            return self._mem[key]
        self._mem[key] = None
        r = self._path(f, i, depth)
        self._mem[key] = r
        return r

    def _path(self, f, i, depth):
        n = f.n[i]
        k = n["k"]
        if k == "this":
            return ("this",)
        if k == "ref":
            al = self.aliases(f) if n.get("vk") == "local" else {}
            if n["v"] in al:
                return al[n["v"]]
            return ("v:" + n["v"],)
        if k == "mem":
            b = self.path(f, n.get("b"), depth + 1)
            if n.get("static"):
                return ("v:" + n["v"],)
            if b is None:
                return None
            p = b + (n["v"],)
            if len(p) == 2 and f.kind == "ctor":
                al = self.aliases(f)
                if p in al:
                    return al[p]
            return p
        if k == "un" and n.get("op") in ("*", "&"):
            return self.path(f, n["a"][0], depth + 1)
        if k in ("cast", "narrow"):
            return self.path(f, n["a"][0], depth + 1)
        if k == "bin" and n.get("op") == ",":
            return self.path(f, n["a"][1], depth + 1)
        if k == "idx":
            b = self.path(f, n["a"][0], depth + 1)
            return b + ("[%s]" % self.ikey(f, n["a"][1]),) if b else None
        if k == "ctor" and len(n.get("a", ())) == 1 and n.get("q", "").startswith("std::") and \
                n.get("pm") and n["pm"][0] in ("r", "p", "cr", "rr"):
            # smart pointers constructed from / copied from something
            if any(s in n.get("cls", "") for s in ("_ptr<", "reference_wrapper")):
                return self.path(f, n["a"][0], depth + 1)
            return None
        if k == "call":
            q = n.get("q", "")
            name = q.rsplit("::", 1)[-1]
            if n.get("o") is not None and q.startswith("std::") and name in REFOPS:
                return self.path(f, n["o"], depth + 1)
            if q in ("std::ref", "std::forward", "std::move", "std::addressof", "std::as_const") and n.get("a"):
                return self.path(f, n["a"][0], depth + 1)
            if name in ("operator[]", "at") and n.get("o") is not None and n.get("a"):
                b = self.path(f, n["o"], depth + 1)
                return b + ("[%s]" % self.ikey(f, n["a"][0]),) if b else None
            acc = self.accessor(n.get("f")) if n.get("f") else None
            if acc:
                if acc[0].startswith("v:"):
                    return acc
                if acc[0] == "this" and n.get("o") is not None:
                    b = self.path(f, n["o"], depth + 1)
                    return b + acc[1:] if b else None
        return None

    def ikey(self, f, i):
        n = f.n[i]
        while n["k"] in ("cast", "narrow", "ctor") and n.get("a"):
            n = f.n[n["a"][0]]
        if n["k"] == "int":
            return n.get("c", "?")
        if n["k"] == "ref":
            return n["v"]
        p = self.path(f, i)
        return "/".join(p) if p else "?%d" % i

    def accessor(self, u):
        """path returned by a function all of whose returns yield a reference to the same static object or member"""
        if u in self._acc:
            return self._acc[u]
        self._acc[u] = None
        f = self.P.fns.get(u)
        if not f or f.kind not in ("fn", "method"):
            return None
        rt = f.r.get("rt", "")
        if not rt.endswith(("&", "*")):
            return None
        ps = set()
        for i, n in f.nodes_of("ret"):
            if not n.get("a"):
                return None
            p = self.path(f, n["a"][0])
            if p is None:
                return None
            if p[0].startswith("v:"):
                v = self.P.vars.get(p[0][2:])
                if not v:
                    return None
            ps.add(p)
        if len(ps) == 1:
            self._acc[u] = ps.pop()
        return self._acc[u]


class Locks:
    def __init__(self, P):
        self.P = P
        self.pf = PathFinder(P)
        self.summ = {}       # fn usr -> (acquired paths, released paths) net effect
        self.raii = {}
        self.states = {}     # fn usr -> {node id -> frozenset((path, holder))} for elements (state before)
        self.entry = {}
        self.relevant = None

    # -- what an operation does --------------------------------------------------------------------
    def is_prim(self, q):
        c, _, m = q.rpartition("::")
        return c in PRIM and (m in ACQ or m in REL)

    def subst(self, f, n, paths):
        """translate callee paths to caller paths at call/ctor node n of f"""
        out = []
        callee = self.P.fns.get(n.get("f"))
        params = {("v:" + p["v"]): k for k, p in enumerate(callee.r.get("p", []))} if callee else {}
        for p in paths:
            if p[0] == "this":
                b = self.pf.path(f, n["o"]) if n.get("o") is not None else None
                if b:
                    out.append(b + p[1:])
            elif p[0] in params:
                k = params[p[0]]
                if k < len(n.get("a", ())):
                    b = self.pf.path(f, n["a"][k])
                    if b:
                        out.append(b + p[1:])
            elif p[0].startswith("v:") and p[0][2:] in self.P.vars:
                out.append(p)
        return out

    def effect(self, f, i, n):
        """('acq'|'rel', [paths]) of a call node; guards are handled at their declaration"""
        q = n.get("q", "")
        name = q.rsplit("::", 1)[-1]
        if n["k"] == "call":
            if self.is_prim(q):
                p = self.pf.path(f, n.get("o"))
                return [("acq" if name in ACQ else "rel", [p])] if p else []
            cls = q.rpartition("::")[0]
            if cls in STDGUARD and name in ("lock", "unlock"):
                p = self.pf.path(f, n.get("o"))
                return [("gacq" if name == "lock" else "grel", [p])] if p else []
            if q == "pthread_mutex_lock" or q == "pthread_mutex_unlock":
                p = self.pf.path(f, n["a"][0])
                return [("acq" if q.endswith("_lock") else "rel", [p])] if p else []
            s = self.summ.get(n.get("f"))
            res = []
            if s:
                if s[1]:
                    res.append(("rel", self.subst(f, n, s[1])))
                if s[0]:
                    res.append(("acq", self.subst(f, n, s[0])))
            # T::lock() of a class is also a lock on the object itself
            if q.startswith(NOTLOCK):
                return []
            if name in ACQ and n.get("o") is not None and q.startswith("eckit") and not n.get("a"):
                p = self.pf.path(f, n["o"])
                if p:
                    res.append(("acq", [p]))
            elif name in REL and n.get("o") is not None and q.startswith("eckit") and not n.get("a"):
                p = self.pf.path(f, n["o"])
                if p:
                    res.append(("rel", [p]))
            return res
        return []

    def guard_acquires(self, f, c):
        """paths acquired by constructing guard object with ctor node id c; None if it is not a guard"""
        n = f.n[c]
        while n["k"] in ("cast", "narrow", "definit") and n.get("a"):
            n = f.n[n["a"][0]]
        if n["k"] != "ctor":
            return None
        cls = n.get("q", "").rsplit("::", 1)[0]
        args = n.get("a", [])
        if cls in STDGUARD:
            if len(args) >= 2 and "defer_lock" in f.n[args[1]].get("t", "") + f.n[args[1]].get("n", ""):
                return ("deferred", [self.pf.path(f, args[0])])
            if cls == "std::scoped_lock":
                return ("held", [p for p in (self.pf.path(f, a) for a in args) if p])
            if not args:
                return None
            if len(args) == 1 and "unique_lock<" in f.n[args[0]].get("t", ""):
                return None
            p = self.pf.path(f, args[0])
            ps = [p] if p else []
            t = n.get("cls", "")
            return ("held", ps + self.sub_lock(f, t, p))
        if cls in ("eckit::AutoLock", "eckit::AutoSharedLock", "eckit::TimedAutoLock", "eckit::TraceAutoLock"):
            p = self.pf.path(f, args[0]) if args else None
            if not p:
                return ("held", [])
            return ("held", [p] + self.sub_lock(f, n.get("cls", ""), p))
        s = self.summ.get(n.get("f"))
        if s and s[0]:
            return ("held", self.subst(f, n, [p for p in s[0] if p[0] != "this"]))
        return None

    def sub_lock(self, f, guardcls, p):
        """guard over a class T with its own lock(): the locks T::lock() takes"""
        if not p or "<" not in guardcls:
            return []
        t = guardcls[guardcls.index("<") + 1:-1]
        r = self.P.rec_by_t.get(t)
        if not r:
            return []
        out = []
        for m in r["methods"]:
            if m["n"] in ACQ:
                s = self.summ.get(m["u"])
                if s:
                    for q in s[0]:
                        if q[0] == "this":
                            out.append(p + q[1:])
                        elif q[0].startswith("v:") and q[0][2:] in self.P.vars:
                            out.append(q)
        return out

    # -- per function dataflow ------------------------------------------------------------------------
    def analyse(self, f, entry=frozenset()):
        """state before each element node: frozenset of (path, holder, session)"""
        guards = {}
        guardpath = {}
        rel0 = set()

        def transfer(i, st):
            n = f.n[i]
            k = n["k"]
            if k == "decl":
                for d in n["d"]:
                    c = d.get("i")
                    if c is None:
                        continue
                    g = self.guard_acquires(f, c)
                    if g is None:
                        continue
                    guardpath[d["v"]] = g[1]
                    if g[0] == "held":
                        st = st | {(p, d["v"], i) for p in g[1] if p}
            elif k == "init":
                if n.get("v") and n.get("a") and f.kind == "ctor":
                    g = self.guard_acquires(f, n["a"][0])
                    if g and g[0] == "held":
                        st = st | {(p, n["v"], i) for p in g[1] if p}
            elif k == "dtor":
                v = n.get("v")
                if v:
                    st = frozenset(x for x in st if x[1] != v) if any(x[1] == v for x in st) else st
            elif k == "call":
                for what, ps in self.effect(f, i, n):
                    if what == "acq":
                        st = st | {(p, "raw", i) for p in ps}
                    elif what == "rel":
                        for p in ps:
                            if not any(x[0] == p for x in st):
                                rel0.add(p)
                            st = frozenset(x for x in st if x[0] != p)
                    elif what == "gacq":
                        v = ps[0][0][2:] if ps[0][0].startswith("v:") and len(ps[0]) == 1 else None
                        for p in guardpath.get(v, ()):
                            st = st | {(p, v, i)}
                    elif what == "grel":
                        v = ps[0][0][2:] if ps[0][0].startswith("v:") and len(ps[0]) == 1 else None
                        st = frozenset(x for x in st if x[1] != v)
            return st

        before = {}
        disp = f.dispatch_blocks()
        instate = {f.entry: frozenset((p, "entry", -1) for p in entry)}
        work = [f.entry]
        inwork = {f.entry}

        def meet(a, b):
            if a == b:
                return a
            pa = defaultdict(set)
            for p, h, s in a:
                pa[(p, h)].add(s)
            out = set()
            for p, h, s in b:
                if (p, h) in pa:
                    out.add((p, h, s))
                    for s2 in pa[(p, h)]:
                        out.add((p, h, s2))
            return frozenset(out)

        def push(b, st):
            if b not in f.blocks:
                return
            if b in instate:
                m = meet(instate[b], st)
                if m == instate[b]:
                    return
                instate[b] = m
            else:
                instate[b] = st
            if b not in inwork:
                inwork.add(b)
                work.append(b)

        guardn = 0
        while work:
            b = work.pop(0)
            inwork.discard(b)
            st = instate[b]
            blk = f.blocks[b]
            for i in blk["e"]:
                before[i] = st
                x = f.n[i].get("x")
                if x is not None and x in disp:
                    push(disp[x], st)
                st = transfer(i, st)
            gone = any(f.n[i]["k"] == "throw" or f.n[i].get("nr") for i in blk["e"])
            for s in blk["s"]:
                if s >= 0 and not (gone and s == f.exit):
                    push(s, st)
            guardn += 1
            if guardn > 5000:
                break
        out = instate.get(f.exit, frozenset())
        # exit state: what is still held by raw acquisition (or member guards in a constructor)
        acq = frozenset(x[0] for x in out if x[1] == "raw" or (f.kind == "ctor" and x[1] != "entry"))
        rel = frozenset(rel0)
        return before, acq, rel

    def might_lock(self, f):
        for n in f.n:
            k = n["k"]
            if k in ("call", "ctor"):
                q = n.get("q", "")
                if self.is_prim(q) or q.startswith("pthread_mutex_") or "Lock" in q or "lock" in q:
                    return True
        return False

    def build(self):
        cand = [f for f in self.P.fns.values() if self.might_lock(f)]
        # summaries to a fixed point (net acquisition by raw lock()/unlock() or by member guards)
        for rnd in range(6):
            changed = False
            nxt = []
            for f in cand:
                before, acq, rel = self.analyse(f)
                self.states[f.u] = before
                q = f.q.rsplit("::", 1)
                s = (acq, rel) if (acq or rel) else None
                if self.is_prim(f.q) or f.q.rpartition("::")[0] in PRIM or f.q.startswith(NOTLOCK):
                    s = None
                if f.q.startswith("std::"):
                    s = None
                if s and s != self.summ.get(f.u):
                    self.summ[f.u] = s
                    changed = True
            if not changed:
                break
            su = set(self.summ)
            cu = {f.u for f in cand}
            for f in self.P.fns.values():
                if f.u not in cu and any(n["k"] in ("call", "ctor") and n.get("f") in su for n in f.n):
                    cand.append(f)
        self.cand = {f.u for f in cand}
        self.entries()
        return self

    # -- entry locksets -------------------------------------------------------------------------------
    def open_entry(self, f):
        """may be called from code we do not see with no lock held"""
        r = f.r
        if f.kind == "lambda":
            return False
        if r.get("internal"):
            return False
        if f.cls and r.get("acc") == 2 and not r.get("virt"):
            return False
        if f.cls and r.get("acc") == 2 and r.get("virt"):
            return False
        if f.cls and "(anon)" in f.cls:
            return False
        rec = self.P.recs.get(r.get("clsu"))
        if rec and rec["file"].endswith((".cc", ".cpp")) and self.P.callers().get(f.u):
            return False  # the class is private to its source file
        if f.kind == "fn" and self.P.callers().get(f.u):
            for p in r.get("p", []):
                pr = self.P.rec_by_t.get(p["t"].replace("const ", "").rstrip("*& "))
                if pr and pr["file"].endswith((".cc", ".cpp")):
                    return False  # so is the class of a parameter
        return True

    def entries(self):
        P = self.P
        addr = set()
        lam_site = {}
        for f in P.fns.values():
            par = None
            for i, n in enumerate(f.n):
                if n["k"] in ("fref", "mfref"):
                    # operand of a call as callee? those have no parent other than the call; treat as address taken
                    # only when it is an argument
                    pass
                if n["k"] == "lambda":
                    lam_site[n["f"]] = (f, i)
        closed = {}
        for f in P.fns.values():
            if not self.open_entry(f):
                closed[f.u] = f
        TOP = None
        self.entry = {}
        self.ctoronly = set()
        # functions passed as values (thread entry, callbacks): unknown callers
        taken = set()
        for f in P.fns.values():
            callees = set()
            par = f.parents()
            for i, n in enumerate(f.n):
                if n["k"] in ("fref", "mfref"):
                    ps = par.get(i, ())
                    if any(i in f.n[p].get("a", ()) for p in ps) or any(f.n[p]["k"] in ("decl", "ret") for p in ps):
                        if n.get("f") in closed:
                            taken.add(n["f"])
        for u in taken:
            if closed[u].kind != "lambda":
                closed.pop(u, None)
        entry = {u: TOP for u in closed}
        callers = P.callers()
        for rnd in range(8):
            changed = False
            for u, f in closed.items():
                acc = TOP
                if f.kind == "lambda":
                    site = lam_site.get(u)
                    if site:
                        g, i = site
                        acc = self.at_site(g, i, f, entry, lam=True)
                    else:
                        acc = frozenset()
                    # thread bodies and stored lambdas start with nothing
                    if site and self.escapes(site[0], site[1]):
                        acc = frozenset()
                else:
                    cs = callers.get(u, ())
                    if not cs:
                        acc = frozenset()
                    for g, i in cs:
                        if g.kind in ("ctor", "dtor") and g.cls == f.cls and \
                                self.pf.path(g, g.n[i].get("o")) == ("this",):
                            continue  # nobody else can see the object yet / any more
                        if g.u == u:
                            continue
                        a = self.at_site(g, i, f, entry)
                        if a is None:
                            continue
                        acc = a if acc is None else acc & a
                if acc != entry[u]:
                    entry[u] = acc
                    changed = True
            if not changed:
                break
        for u, a in entry.items():
            if a is None:
                self.ctoronly.add(u)
            self.entry[u] = a or frozenset()
        for u, a in self.entry.items():
            if a:
                f = P.fns[u]
                self.states[u], _, _ = self.analyse(f, a)
                self.cand.add(u)

    def escapes(self, f, i):
        """the lambda at node i is stored or handed to another thread"""
        par = f.parents()
        todo, seen = [i], set()
        while todo:
            x = todo.pop()
            for p in par.get(x, ()):
                if p in seen:
                    continue
                seen.add(p)
                n = f.n[p]
                if n["k"] in ("cast", "narrow"):
                    todo.append(p)
                elif n["k"] == "ctor":
                    q = n.get("q", "")
                    if q.startswith("std::function"):
                        todo.append(p)
                    elif "thread" in q:
                        return True
                    else:
                        todo.append(p) if q.startswith("std::") else None
                elif n["k"] == "call" and n.get("q") in ("std::async",):
                    return True
                elif n["k"] == "init" or n["k"] == "assign":
                    return True
        return False

    def at_site(self, g, i, f, entry, lam=False):
        """locks held at call site (g, i), in terms of callee f; None = not yet known"""
        st = self.states.get(g.u)
        if st is None:
            # nothing locked locally in g: only its entry set
            e = entry.get(g.u, frozenset())
            if e is None:
                return None
            held = e
        else:
            base = st.get(i)
            if base is None:
                return None
            held = {x[0] for x in base}
            e = entry.get(g.u, frozenset())
            if e is None:
                return None
            held |= e
        n = g.n[i]
        out = set()
        if lam:
            for p in held:
                out.add(p)
            return frozenset(out)
        params = [p["v"] for p in f.r.get("p", [])]
        base = self.pf.path(g, n["o"]) if n.get("o") is not None else None
        for p in held:
            if p[0].startswith("v:") and p[0][2:] in self.P.vars:
                out.add(p)
            if base and p[:len(base)] == base:
                out.add(("this",) + p[len(base):])
            for k, a in enumerate(n.get("a", ())):
                if k < len(params):
                    b = self.pf.path(g, a)
                    if b and p[:len(b)] == b:
                        out.add(("v:" + params[k],) + p[len(b):])
        return frozenset(out)

    def held(self, f, i):
        """locks certainly held before element i of f"""
        st = self.states.get(f.u)
        if st is None:
            return frozenset(self.entry.get(f.u, ()))
        b = st.get(i)
        if b is None:
            return None
        return frozenset(x[0] for x in b) | frozenset(self.entry.get(f.u, ()))
