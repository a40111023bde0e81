"""Descriptors, files, directories, pipes and mappings are released exactly once (typestate)."""
from rules.oscall import peval, effective, truth
from rules.lockuse import subtree
from prog import kids

# call -> (kind, where the resource comes out: -1 result, n argument)
ACQUIRE = {"open": ("fd", -1), "openat": ("fd", -1), "creat": ("fd", -1), "socket": ("fd", -1), "accept": ("fd", -1), "dup": ("fd", -1),
           "mkstemp": ("fd", -1), "shm_open": ("fd", -1), "fopen": ("file", -1), "fdopen": ("file", -1), "popen": ("proc", -1),
           "opendir": ("dir", -1), "mmap": ("map", -1), "eckit::MMap::mmap": ("map", -1), "getaddrinfo": ("addr", 3),
           "eckit::Shmget::shmat": ("shm", -1), "shmat": ("shm", -1), "pipe": ("pipe", 0)}
RELEASE = {"close": "fd", "fclose": "file", "pclose": "proc", "closedir": "dir", "munmap": "map", "eckit::MMap::munmap": "map",
           "freeaddrinfo": "addr", "eckit::Shmget::shmdt": "shm", "shmdt": "shm"}
FAILURE = {"fd": -1, "file": 0, "proc": 0, "dir": 0, "map": -1, "addr": 0, "shm": -1, "pipe": -1}
EMPTY = {"fd": -1, "file": 0, "proc": 0, "dir": 0, "map": 0, "addr": 0, "shm": 0, "pipe": -1}
CALLS = {"fd": "close", "file": "fclose", "proc": "pclose", "dir": "closedir", "map": "munmap", "addr": "freeaddrinfo", "shm": "shmdt", "pipe": "close"}
LIVE = 7
N, E, V, S = "N", "E", "V", "S"      # nothing; held on entry; acquired here; released, still named

KEEPS = {}        # (function, what) -> reason
REPORTS = ("eckit::Log::", "eckit::Channel::", "eckit::CodeLocation")
WRAPPERS = ("eckit::MMap::", "eckit::Shmget::")


def short(q):
    return q.lstrip(":")


class May:
    """which calls can throw something of eckit's own"""

    def __init__(self, P):
        self.P = P
        self.set = set()
        self.exc = {}
        more = True
        fns = [f for f in P.fns.values() if f.file.startswith("src/")]
        while more:
            more = False
            for f in fns:
                if f.u in self.set or f.r.get("ne"):
                    continue
                if any(self.node(f, n) and not self.caught(f, n) for n in f.n if n["k"] in ("call", "ctor", "throw")):
                    self.set.add(f.u)
                    more = True

    def node(self, f, n):
        if n["k"] == "throw" or n.get("q") == "eckit::Assert":
            return True
        if n["k"] not in ("call", "ctor") or n.get("ne"):
            return False
        if n["k"] == "call" and not n.get("f"):
            return bool(n.get("fp"))
        if n["k"] == "call" and n.get("q", "").startswith(REPORTS) or n["k"] == "ctor" and self.exception(n.get("cls") or n.get("q", "")):
            return False
        return any(t in self.set for t in self.P.targets(n))

    def exception(self, c):
        """a code location or an exception: making one does not itself count as throwing"""
        if c not in self.exc:
            rs = [r for r in self.P.recs.values() if r["q"] == c or c.startswith(r["q"] + "::")]
            self.exc[c] = c.startswith(REPORTS) or any(self.P.is_subclass(r, x) for r in rs for x in ("eckit::Exception", "std::exception"))
        return self.exc[c]

    def caught(self, f, n):
        x = n.get("x")
        if x is None:
            return False
        d = f.dispatch_blocks().get(x)
        if d is None:
            return False
        return any(self.all(f.blocks[s].get("catch")) for s in f.succs(d))

    def all(self, t):
        return t is not None and (t == "..." or "std::exception" in t or "eckit::Exception" in t)


class State:
    """typestate of one resource in one function"""

    def __init__(self, R, f, key, kind, field):
        self.R, self.P, self.f, self.key, self.kind, self.field = R, R.P, f, key, kind, field
        self.bad = []
        self.exit = set()
        self.thrown = set()

    # -- what the nodes do
    def named(self, i):
        """expression i denotes the resource"""
        f = self.f
        for _ in range(6):
            n = f.n[i]
            if n["k"] in ("cast", "narrow", "definit") or n["k"] == "other" and len(n.get("a", ())) == 1:
                i = n["a"][0]
            else:
                break
        n = f.n[i]
        if isinstance(self.key, tuple):         # one end of a pipe
            if n["k"] != "idx" or peval(f, n["a"][1], {}) != self.key[1]:
                return False
            return self.array(n["a"][0])
        if self.field:
            return n["k"] == "mem" and n.get("v") == self.key and f.n[n["b"]]["k"] == "this"
        return n["k"] == "ref" and n.get("v") == self.key

    def array(self, i):
        f = self.f
        while f.n[i]["k"] in ("cast", "narrow"):
            i = f.n[i]["a"][0]
        n = f.n[i]
        return isinstance(self.key, tuple) and n.get("v") == self.key[0] and (n["k"] == "ref" or n["k"] == "mem" and f.n[n["b"]]["k"] == "this")

    def effect(self, e):
        """[(what, value)] of element e; what: set, acq, rel, gone"""
        f, n = self.f, self.f.n[e]
        k = n["k"]
        if k == "assign" and n["op"] == "=" and self.named(n["a"][0]):
            return self.stored(n["a"][1])
        if k == "assign" and n["op"] == "=" and self.field and isinstance(self.key, tuple) and self.named(n["a"][1]) and f.n[n["a"][0]]["k"] == "mem":
            return ["rel"]          # another field has it from now on
        if k == "decl":
            for d in n["d"]:
                if not (isinstance(d.get("i"), int) and d["i"] >= 0):
                    continue
                if d["v"] == self.key:
                    if self.R.aliased(f, d):
                        return ["acq"]
                    return self.stored(d["i"])
                if self.field and self.named(d["i"]) and self.R.aliased(f, d):
                    return ["rel"]
                ex = self.R.exchanged(f, d["i"]) if self.field else None
                if ex and self.named(ex["a"][0]) and self.R.aliased(f, d):
                    return ["rel"] + self.stored(ex["a"][1])
                if not self.field and f.n[d["i"]]["k"] in ("initlist", "ctor") and any(self.named(a) for a in f.n[d["i"]].get("a", ())) and self.R.guard(d, self.kind):
                    return ["gone"]
        if k == "init" and self.field and n.get("v") == self.key and n.get("a"):
            return self.stored(n["a"][0])
        if k == "ret" and n.get("a") and not self.field and self.named(n["a"][0]):
            return ["gone"]
        if k == "assign" and not self.field and self.named(n["a"][1]) and f.n[n["a"][0]]["k"] != "ref":
            return ["gone"]
        if k == "init" and not self.field and n.get("a") and self.named(n["a"][0]):
            return ["gone"]
        if k == "decl" and not self.field:
            for d in n["d"]:
                if isinstance(d.get("i"), int) and d["i"] >= 0 and d["v"] != self.key and self.named(d["i"]):
                    return ["gone"]
        if k in ("call", "ctor"):
            q = short(n.get("q", ""))
            for x, a in enumerate(n.get("a", ())):
                if not self.named(a):
                    if q == "pipe" and x == 0 and self.array(a):
                        return ["acq"]
                    m = f.n[a]
                    if q in ACQUIRE and ACQUIRE[q][1] == x and m["k"] == "un" and m["op"] == "&" and self.named(m["a"][0]):
                        return ["acq"]
                    continue
                if q in RELEASE and x == 0 and RELEASE[q] in (self.kind, "fd" if self.kind == "pipe" else self.kind):
                    return ["rel"]
                if q in ACQUIRE and ACQUIRE[q][1] == x:
                    return ["acq"]
                how = self.R.takes(n, x, self.kind)
                if how:
                    return [how]
            if k == "call" and self.field and n.get("o", -1) is not None and n.get("o", -1) >= 0 and f.n[n["o"]]["k"] == "this":
                g = self.P.fns.get(n.get("f"))
                if g is not None and g.blocks and g.u != f.u:
                    return [("call", g)]
        return []

    def stored(self, i):
        f = self.f
        m = f.n[i]
        while m["k"] in ("initlist", "cast", "narrow", "definit") and len(m.get("a", ())) == 1:
            i = m["a"][0]
            m = f.n[i]
        if m["k"] in ("initlist", "definit") and not m.get("a"):
            return [("set", EMPTY[self.kind])]
        if m["k"] == "null":
            return [("set", 0)]
        v = peval(f, i, {})
        if isinstance(v, int):
            return [("set", v)]
        for j in subtree(f, i):
            n = f.n[j]
            if n["k"] == "call" and (short(n.get("q", "")) in ACQUIRE and ACQUIRE[short(n["q"])][1] == -1 or n.get("f") in self.R.factories):
                return ["acq"]
        if self.field and m["k"] == "ref" and self.R.local(f).get(m.get("v")) == self.kind:
            return ["acq"]
        return [("set", None)]

    def env(self, val):
        f = self.f
        return {("v", self.key): val, "own": self.key if self.field else None}

    def test(self, c, val, facts=()):
        f = self.f
        env = {("v", self.key): val, "strict": True}
        if self.field:
            env["own"] = self.key
        env.update({v if isinstance(v, int) else ("v", v): x for v, x in facts})
        for j in subtree(f, c):
            n = f.n[j]
            if n["k"] == "assign" and n["op"] == "=" and self.named(n["a"][0]):
                env[j] = val
            if self.named(j):
                env[j] = val
            if n["k"] == "call" and n.get("o", -1) is not None and n.get("o", -1) >= 0 and f.n[n["o"]]["k"] == "this" and self.field:
                g = self.P.fns.get(n.get("f"))
                if g is not None:
                    rets = [m for m in g.n if m["k"] == "ret" and m.get("a")]
                    if len(rets) == 1 and len(g.blocks) < 6:
                        r = peval(g, rets[0]["a"][0], {("v", self.key): val})
                        if isinstance(r, int):
                            env[j] = r
        return truth(peval(f, effective(f, c), env))

    def run(self, entry, depth=0):
        f = self.f
        els = f.elpos()
        seen = set()
        todo = [(f.entry, 0, s, frozenset()) for s in entry]
        acq_nodes = {}
        checked = {}
        while todo:
            b, k0, st, facts = todo.pop()
            if (b, k0, st, facts) in seen:
                continue
            seen.add((b, k0, st, facts))
            blk = f.blocks[b]
            dead = False
            fork = []
            for k in range(k0, len(blk["e"])):
                e = blk["e"][k]
                n = f.n[e]
                # can it throw with the resource in this state?
                if n["k"] in ("call", "ctor", "throw") and self.R.may.node(f, n) and not (depth < 4 and any(ef[0] == "call" for ef in self.effect(e))):
                    sub = set(subtree(f, e)) if n["k"] != "throw" else ()
                    checks = any(x in acq_nodes for x in sub) and n["k"] != "throw"
                    releases = any(x != e and "rel" in self.effect(x) for x in sub) if n["k"] == "call" else False
                    if st[0] in (V, S) and not (checks and st[0] == V) and not (st[0] == V and self.keeps(e, n)):
                        self.throws(f, e, n, st)
                    elif st[0] in (E, N):
                        self.thrown.add((st, None))
                    if checks and st[0] == N:
                        dead = True         # the acquisition failed, and this reports it
                        break
                if self.P.leaves(f, n):
                    d = self.handler(n)
                    if d is None:
                        dead = True
                        break
                    dead = True
                    break
                facts = self.forget(n, facts)
                for ef in self.effect(e):
                    if ef == "acq":
                        acq_nodes[e] = 1
                        if st[0] in (V, E):
                            self.bad.append((e, "again", st))
                        ok, failed = self.outcome(e)
                        fork.append((b, k + 1, (N, FAILURE[self.kind]), facts | failed))
                        facts = facts | ok
                        st = (V, LIVE)
                    elif ef == "rel":
                        if st[0] == S:
                            self.bad.append((e, "twice", st))
                        if st[0] != N:
                            st = (S, LIVE)
                    elif ef == "gone":
                        st = (N, EMPTY[self.kind])
                    elif ef[0] == "set":
                        if st[0] == V or st[0] == E and ef[1] is not None:
                            if not (st[0] == E and self.R.borrowed(self.key, self.kind)):
                                self.bad.append((e, "lost", st))
                        st = (N, EMPTY[self.kind] if ef[1] is None else ef[1])
                        if ef[1] is None and self.field:
                            st = (E, LIVE)
                    elif ef == "use":
                        if st[0] == S:
                            self.bad.append((e, "used", st))
                    elif ef[0] == "call" and depth < 4:
                        out, thrown = self.R.summary(ef[1], self.key, self.kind, st, depth + 1)
                        for t, w in thrown:
                            if t[0] == S or t[0] == V:
                                self.throws(f, e, n, t, w)
                        if not out:
                            dead = True
                            break
                        out = sorted(out)
                        for s2 in out[1:]:
                            fork.append((b, k + 1, s2, facts))
                        st = out[0]
                if dead:
                    break
            todo += fork
            if dead or blk.get("nr"):
                continue
            if b == f.exit:
                self.exit.add(st)
                continue
            ss = blk["s"]
            t = blk.get("t")
            if t and t.get("c") is not None and t["c"] >= 0 and len(ss) == 2:
                for x, s in enumerate(ss):
                    if s < 0:
                        continue
                    r = self.test(t["c"], st[1], facts)
                    if r is None or bool(r) == (x == 0):
                        todo.append((s, 0, st, self.learn(t["c"], x == 0, facts)))
                continue
            for s in ss:
                if s >= 0:
                    todo.append((s, 0, st, facts))
        return self

    def keeps(self, e, n):
        """the call that throws has taken the resource before"""
        return False

    def outcome(self, e):
        """what is known of the call's own result, where the resource comes out through an argument"""
        f = self.f
        n = f.n[e]
        if n["k"] != "call" or short(n.get("q", "")) not in ACQUIRE or ACQUIRE[short(n["q"])][1] < 0:
            return frozenset(), frozenset()
        names = [e]
        cur = e
        for _ in range(4):
            ps = f.parents().get(cur, ())
            if not ps:
                break
            m = f.n[ps[0]]
            if m["k"] == "assign" and f.n[m["a"][0]]["k"] == "ref":
                names.append(f.n[m["a"][0]]["v"])
            if m["k"] == "decl":
                names += [d["v"] for d in m["d"] if d.get("i") == cur]
            if m["k"] not in ("cast", "narrow"):
                break
            cur = ps[0]
        return frozenset((x, 0) for x in names), frozenset((x, 1) for x in names)

    # -- what tests of other pointers establish on the way
    def pointers(self, c):
        f = self.f
        return {n["v"] for n in (f.n[j] for j in subtree(f, c)) if (n["k"] == "ref" or n["k"] == "mem" and f.n[n["b"]]["k"] == "this")
                and n.get("t", "").endswith("*") and n["v"] != self.key}

    def forget(self, n, facts):
        f = self.f
        if not facts:
            return facts
        gone = set()
        if n["k"] in ("assign", "un") and n["a"] and f.n[n["a"][0]]["k"] in ("ref", "mem") and (n["k"] == "assign" or n["op"] in ("++", "--", "&")):
            gone.add(f.n[n["a"][0]]["v"])
        if n["k"] == "decl":
            gone |= {d["v"] for d in n["d"]}
        if n["k"] == "call" and self.field:
            own = {m["v"] for m in f.n if m["k"] == "mem"}
            gone |= {x[0] for x in facts if x[0] in own} if n.get("f") in self.P.fns and self.P.fns[n["f"]].cls == f.cls else set()
        return frozenset(x for x in facts if x[0] not in gone) if gone else facts

    def learn(self, c, taken, facts):
        f = self.f
        for v in self.pointers(c):
            if any(x[0] == v for x in facts):
                continue
            res = [truth(peval(f, effective(f, c), {("v", v): val, "strict": True})) for val in (0, LIVE)]
            if None in res or res[0] == res[1]:
                continue
            facts = facts | {(v, LIVE if bool(res[1]) == taken else 0)}
        return facts

    def handler(self, n):
        x = n.get("x")
        return self.f.dispatch_blocks().get(x) if x is not None else None

    def throws(self, f, e, n, st, why=None):
        d = self.handler(n)
        if d is not None:
            # every handler that can be entered has to deal with it
            hs = f.succs(d)
            if hs and all(self.deals(h, st) for h in hs) and any(self.R.may.all(f.blocks[h].get("catch")) for h in hs):
                return
        self.thrown.add((st, (f, e) if why is None else why))

    def deals(self, b, st):
        sub = State(self.R, self.f, self.key, self.kind, self.field)
        f = self.f
        seen, todo = set(), [(b, st)]
        ok = True
        while todo:
            x, s = todo.pop()
            if (x, s) in seen:
                continue
            seen.add((x, s))
            dead = False
            for e in f.blocks[x]["e"]:
                n = f.n[e]
                for ef in self.effect(e):
                    if ef == "rel":
                        s = (S, LIVE)
                    elif ef == "gone":
                        s = (N, EMPTY[self.kind])
                    elif ef[0] == "set":
                        s = (N, ef[1])
                    elif ef[0] == "call":
                        out, _ = self.R.summary(ef[1], self.key, self.kind, s, 3)
                        s = sorted(out)[0] if out else s
                if n["k"] == "throw":
                    if s[0] == V or s[0] == S and self.field:
                        return False
                    dead = True
                    break
            if dead:
                continue
            if x == f.exit:
                if s[0] == V and not self.field or s[0] == S and self.field:
                    return False
                continue
            todo += [(y, s) for y in f.succs(x)]
        return ok


class Resources:
    def __init__(self, P):
        self.P = P
        self.may = May(P)
        self.factories = {}
        self.memo = {}
        self.tmemo = {}
        self.amemo = {}
        self.bmemo = {}
        self.lmemo = {}

    def summary(self, g, key, kind, st, depth):
        k = (g.u, key, st)
        if k not in self.memo:
            self.memo[k] = ({st}, set())
            s = State(self, g, key, kind, True).run([st], depth)
            self.memo[k] = (s.exit, s.thrown)
        return self.memo[k]

    def local(self, f):
        """local -> kind of what this function acquires into it"""
        if f.u not in self.lmemo:
            self.lmemo[f.u] = {}
            self.lmemo[f.u] = {k: kind for k, (kind, field, i) in acquired(self.P, self, f).items() if field is False}
        return self.lmemo[f.u]

    def exchanged(self, f, i):
        """std::exchange(field, value): the call"""
        while f.n[i]["k"] in ("cast", "narrow", "definit") or f.n[i]["k"] in ("initlist", "ctor") and len(f.n[i].get("a", ())) == 1:
            i = f.n[i]["a"][0]
        n = f.n[i]
        return n if n["k"] == "call" and n.get("q") == "std::exchange" and len(n["a"]) == 2 else None

    def aliased(self, f, d):
        """the kind of resource a local takes over from a field: one that this function goes on to release by that name"""
        k = (f.u, d["v"])
        if k not in self.amemo:
            self.amemo[k] = None
            i = d["i"]
            while f.n[i]["k"] in ("cast", "narrow") or f.n[i]["k"] == "initlist" and len(f.n[i]["a"]) == 1:
                i = f.n[i]["a"][0]
            if f.n[i]["k"] == "mem" or self.exchanged(f, i):
                for n in f.n:
                    q = short(n.get("q", "")) if n["k"] == "call" else ""
                    if q in RELEASE and n["a"]:
                        a = n["a"][0]
                        while f.n[a]["k"] in ("cast", "narrow"):
                            a = f.n[a]["a"][0]
                        if f.n[a]["k"] == "ref" and f.n[a].get("v") == d["v"]:
                            self.amemo[k] = RELEASE[q]
        return self.amemo[k]

    def borrowed(self, key, kind):
        """the field is also given resources that something else owns"""
        if key not in self.bmemo:
            self.bmemo[key] = False
            for f in self.P.fns.values():
                for n in f.n:
                    if n["k"] == "assign" and n["op"] == "=" and f.n[n["a"][0]]["k"] == "mem" and f.n[n["a"][0]].get("v") == key:
                        if getattr(self, "State", State)(self, f, key, kind, True).stored(n["a"][1]) == [("set", None)]:
                            self.bmemo[key] = True
        return self.bmemo[key]

    def guard(self, d, kind):
        """a local object whose destructor releases what it was made with"""
        t = d.get("t", "").replace("const ", "").split("<")[0].strip()
        for g in self.P.fns.values():
            if g.kind == "dtor" and g.cls and (g.cls == t or g.cls.endswith("::" + t) or g.cls.split("::")[-1] == t.split("::")[-1]):
                if any(n["k"] == "call" and RELEASE.get(short(n.get("q", ""))) == kind for n in g.n):
                    return True
        return False

    def takes(self, n, x, kind, depth=0):
        """what a call does with a resource it is handed: rel, gone or nothing"""
        q = n.get("q", "")
        if n["k"] == "ctor" and not q.startswith("eckit"):
            return None
        for t in (self.P.targets(n) if n["k"] == "call" else [n.get("f")]):
            g = self.P.fns.get(t)
            if g is None or not g.blocks or depth > 3:
                continue
            ps = g.r.get("p", ())
            if x >= len(ps) or ps[x]["t"].endswith("&"):
                continue
            key = (g.u, x, kind)
            if key not in self.tmemo:
                self.tmemo[key] = None
                v = ps[x]["v"]
                st = State(self, g, v, kind, False)
                for i, m in enumerate(g.n):
                    ef = st.effect(i)
                    if "rel" in ef or "gone" in ef:
                        self.tmemo[key] = "gone" if "gone" in ef else "rel"
            if self.tmemo[key]:
                return self.tmemo[key]
        return None


def acquired(P, R, f):
    """(key, kind, is field) acquired in f"""
    out = {}
    par = None
    for i, n in enumerate(f.n):
        if n["k"] != "call" or i not in f.elpos():
            continue
        q = short(n.get("q", ""))
        if q in ACQUIRE:
            kind, pos = ACQUIRE[q]
        elif n.get("f") in R.factories:
            kind, pos = R.factories[n["f"]], -1
        else:
            continue
        if par is None:
            par = f.parents()
        if pos >= 0:
            a = n["a"][pos]
            while f.n[a]["k"] in ("cast", "un", "narrow"):
                a = f.n[a]["a"][0]
            m = f.n[a]
        else:
            m = None
            cur = i
            for _ in range(10):
                ps = par.get(cur, ())
                if not ps:
                    break
                p = ps[0]
                pn = f.n[p]
                if pn["k"] == "assign" and cur != pn["a"][0]:
                    m = f.n[pn["a"][0]]
                    break
                if pn["k"] == "decl":
                    for d in pn["d"]:
                        if d.get("i") == cur:
                            m = {"k": "ref", "v": d["v"]}
                    break
                if pn["k"] == "init":
                    m = {"k": "mem", "v": pn.get("v"), "b": None}
                    break
                if pn["k"] == "ret":
                    m = {"k": "ret"}
                    break
                cur = p
        if m is None:
            out[("?", i)] = (kind, None, i)
        elif m["k"] == "ret":
            out[("ret", i)] = (kind, "ret", i)
        elif kind == "pipe":
            if m["k"] in ("ref", "mem"):
                out[(m["v"], 0)] = out[(m["v"], 1)] = ("fd", m["k"] == "mem", i)
        elif m["k"] == "mem":
            if m["b"] is None or f.n[m["b"]]["k"] == "this":
                out[m["v"]] = (kind, True, i)
            else:
                out[("?", i)] = (kind, None, i)
        elif m["k"] == "ref":
            out[m["v"]] = (kind, False, i)
        else:
            out[("?", i)] = (kind, None, i)
    return out


def run(P, ctx):
    R = Resources(P)
    ctx.rule("local", "a descriptor, file, directory, process pipe or mapping held in a local is released or handed on, on every path out, exceptions included")
    ctx.rule("field", "a method that releases one held in a field marks it released, even when the release reports an error; one that acquires it does not overwrite one still held")
    ctx.rule("ctor", "a constructor that has acquired one does not throw with it")
    ctx.rule("dtor", "the destructor of the class that holds one releases it (for a few file handles, which their users close: a method of theirs)")
    fns = sorted([f for f in P.fns.values() if f.file.startswith("src/") and "/contrib/" not in f.file and not f.q.startswith(WRAPPERS)],
                 key=lambda f: (f.file, f.line))
    for f in fns:          # functions that hand out what they acquire
        for k, (kind, field, i) in acquired(P, R, f).items():
            if field == "ret":
                R.factories[f.u] = kind
            elif field is False:
                if any(m["k"] == "ret" and m.get("a") and State(R, f, k, kind, False).named(m["a"][0]) for m in f.n):
                    R.factories[f.u] = kind
    owner = {fl["v"]: rec for rec in P.recs.values() for fl in rec.get("fields", ())}
    held = {}
    for f in fns:
        for k, (kind, field, i) in sorted(acquired(P, R, f).items(), key=str):
            if field is None:
                ctx.note("not followed: %s in %s (%s)" % (f.n[i].get("q"), f.q, f.loc(i)))
                continue
            if field == "ret":
                continue
            if field:
                if (k[0] if isinstance(k, tuple) else k) in owner:
                    held.setdefault(k, (kind, f.n[i], []))[2].append(f)
                else:
                    ctx.note("not followed: %s in %s (%s)" % (f.n[i].get("q"), f.q, f.loc(i)))
                continue
            st = State(R, f, k, kind, False).run([(N, EMPTY[kind])])
            report(ctx, P, "local", f, k, kind, st)
        for n in f.n:
            for d in n["d"] if n["k"] == "decl" else ():
                kind = R.aliased(f, d) if isinstance(d.get("i"), int) and d["i"] >= 0 else None
                if kind:
                    st = State(R, f, d["v"], kind, False).run([(N, EMPTY[kind])])
                    report(ctx, P, "local", f, d["v"], kind, st)
    for k, (kind, n, opens) in sorted(held.items(), key=lambda x: (owner[x[0][0] if isinstance(x[0], tuple) else x[0]]["q"], str(x[0]))):
        rec = owner[k[0] if isinstance(k, tuple) else k]
        fn, cls = fieldname(P, rec["u"], k), rec["q"]
        family = {rec["u"]} | {x["u"] for x in P.subclasses(rec["q"])}
        ms = sorted([f for f in P.fns.values() if f.r.get("clsu") in family], key=lambda f: (f.file, f.line))
        made = set(x.u for x in ms if x.kind == "ctor")
        private = {f.u for f in ms if f.r.get("acc") == 2 and f.kind == "method" and P.callers()[f.u] and all(c.u in made for c, _ in P.callers()[f.u])}
        dtors = [f for f in ms if f.kind == "dtor" and f.r.get("clsu") == rec["u"]]
        released = any(all(s[0] in (S, N) for s in State(R, f, k, kind, True).run([(E, LIVE)]).exit) for f in dtors)
        for f in ms:
            if f.kind == "ctor":
                if f in opens or calls_own(f):
                    st = State(R, f, k, kind, True).run([(N, EMPTY[kind])])
                    own = [g for g in ms if g.kind == "dtor" and g.r.get("clsu") == f.r.get("clsu") != rec["u"]]
                    if (released or any(s[0] in (S, N) for g in own for s in State(R, g, k, kind, True).run([(E, LIVE)]).exit)) and any(m["k"] == "init" and m.get("deleg") for m in f.n):
                        st.thrown = {x for x in st.thrown if x[0][0] != V}     # the object is complete, so its destructor runs
                    else:
                        st.thrown = {x for x in st.thrown if x[0][0] != S}     # the destructor will not run
                    report(ctx, P, "ctor", f, k, kind, st, fn)
                continue
            if f.kind == "dtor" or not touches(P, R, f, k, kind) or f.u in private:
                continue
            st = State(R, f, k, kind, True).run([(N, EMPTY[kind]), (E, LIVE)])
            report(ctx, P, "field", f, k, kind, st, fn)
        name = "%s:%s" % (cls, fn)
        where = "%s:%d" % (opens[0].file, opens[0].line)
        if any(f.u in made or f.u in private for f in opens) or name not in UNTIL_CLOSED and dtors:
            if released:
                ctx.ok("dtor", sample=name)
            else:
                ctx.bad("dtor", name, where, "%s acquires %s (%s) and the destructor of its class does not release it" % (opens[0].q, fn, n.get("q")))
        elif any(ef == "rel" for f in ms for i in f.elpos() for ef in State(R, f, k, kind, True).effect(i)):
            ctx.ok("dtor", sample=name)
        else:
            ctx.bad("dtor", name, where, "%s acquires %s (%s) and no method of its class releases it" % (opens[0].q, fn, n.get("q")))


    for q, (name, kind) in ((q, x) for q in sorted(TAKEN_OVER) for x in TAKEN_OVER[q]):
        for rec in [r for r in P.recs.values() if r["q"] == q]:
            for fl in (x for x in rec["fields"] if x["n"] == name):
                for f in [f for f in fns if f.kind == "dtor" and f.r.get("clsu") == rec["u"]] or [None]:
                    end = State(R, f, fl["v"], kind, True).run([(E, LIVE)]).exit if f else {(E,)}
                    if all(s[0] in (S, N) for s in end):
                        ctx.ok("dtor", sample="%s:%s" % (q, name))
                    else:
                        ctx.bad("dtor", "%s:%s" % (q, name), "%s:%d" % ((f.file, f.line) if f else (rec["file"], rec["l"])),
                                "the destructor of %s does not release %s" % (q, name))


# whose user has to close it: the destructor does not
UNTIL_CLOSED = {"eckit::FileHandle:file_", "eckit::MMappedFileHandle:fd_", "eckit::MMappedFileHandle:mmap_", "eckit::PipeHandle:file_",
                "eckit::PoolFileEntry:file_"}
# what they hold is given to them by others
TAKEN_OVER = {"eckit::net::(anon)::OpenSocket": [("socket_", "fd")], "eckit::net::TCPSocket": [("socket_", "fd")], "eckit::net::TCPServer": [("listen_", "fd")],
              "eckit::PipeStream": [("in_", "fd"), ("out_", "fd")], "eckit::CommandStream": [("file_", "proc")], "eckit::StdDir": [("d_", "dir")],
              "eckit::net::UDPClient": [("servinfo_", "addr"), ("socketfd_", "fd")], "eckit::net::UDPServer": [("socketfd_", "fd")],
              "eckit::Recycler": [("fd_", "fd")], "eckit::FileLock": [("fd_", "fd")]}


def calls_own(f):
    return any(n["k"] == "call" and n.get("o", -1) is not None and n.get("o", -1) >= 0 and f.n[n["o"]]["k"] == "this" for n in f.n)


def touches(P, R, f, k, kind):
    st = State(R, f, k, kind, True)
    return any(ef for i in f.elpos() for ef in st.effect(i) if ef in ("acq", "rel") or ef[0] == "set")


def fieldname(P, cu, k):
    r = P.recs.get(cu)
    if isinstance(k, tuple):
        return "%s[%d]" % (fieldname(P, cu, k[0]), k[1])
    for fl in (r or {}).get("fields", ()):
        if fl["v"] == k:
            return fl["n"]
    return str(k).split("@")[-1]


def report(ctx, P, rule, f, k, kind, st, fn=None):
    x = k[0] if isinstance(k, tuple) else k
    nm = fn or next((d["n"] for n in f.n if n["k"] == "decl" for d in n["d"] if d["v"] == x), "it")
    if x is not k and not fn:
        nm += "[%d]" % k[1]
    name = "%s:%s" % (f.q, nm)
    bad = False

    def say(where, what):
        ctx.bad(rule, name, where, "%s: %s" % (f.q, what))

    for e, what, s in st.bad:
        at = e[0].loc(e[1]) if isinstance(e, tuple) else f.loc(e)
        if what == "again" and rule == "local":
            say(at, "acquires %s again with the one before not released" % nm)
        elif what == "again":
            say(at, "acquires %s without having made sure that it holds nothing" % nm)
        elif what == "twice":
            say(at, "releases %s twice" % nm)
        elif what == "used":
            say(at, "uses %s after it was released" % nm)
        elif what == "lost":
            say(at, "overwrites %s, which is not released" % nm)
        bad = True
        break
    if not bad:
        for s, w in sorted(st.thrown, key=str):
            if s[0] == V and rule in ("local", "ctor"):
                g, e = w
                say(g.loc(e), "%s can throw with %s not released" % (g.n[e].get("q", "this") if g.n[e]["k"] != "throw" else "it", nm))
                bad = True
                break
            if s[0] == S and rule != "local":
                g, e = w
                say(g.loc(e), "%s can throw after %s(%s), which leaves the released %s in place: it will be released again" % (
                    g.n[e].get("q", "it") if g.n[e]["k"] != "throw" else "it", CALLS[kind], nm, nm))
                bad = True
                break
    if not bad:
        for s in st.exit:
            if s[0] == V and rule in ("local", "handed"):
                say("%s:%d" % (f.file, f.line), "a path does not release %s" % nm)
                bad = True
                break
            if s[0] == S and rule in ("field", "ctor"):
                say("%s:%d" % (f.file, f.line), "leaves the released %s in place: it will be released again" % nm)
                bad = True
                break
    if not bad:
        ctx.ok(rule, sample=name)
