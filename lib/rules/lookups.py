"""A look-up that can come back empty-handed is tested before its result is used."""
from rules.oscall import peval, effective
from rules.lockuse import subtree
from prog import kids

NPOS = (1 << 64) - 1
SOME = ("full",)         # a pointer, an identifier: anything but none
NULLC = set("""getenv strchr strrchr strstr strpbrk memchr realpath getpwuid getpwnam getgrgid getgrnam gethostbyname gethostbyaddr dlsym
 dlopen localtime gmtime fopen fdopen popen opendir readdir fgets gets getcwd strtok strtok_r ttyname getlogin
 ctime asctime std::getenv std::strchr std::strrchr std::strstr std::memchr std::localtime
 std::gmtime std::dynamic_pointer_cast std::any_cast std::get_if std::weak_ptr::lock""".split())
FINDS = set("std::map std::multimap std::unordered_map std::set std::unordered_set std::multiset".split())
ALGO = set("""find find_if find_if_not search adjacent_find lower_bound upper_bound partition_point min_element max_element is_sorted_until
 mismatch""".split())
POS = ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of")
STRFN = set("""strlen strcmp strncmp strcasecmp strncasecmp strcpy strncpy strcat strdup atoi atol atoll atof strtol strtoul strtod strtoll
 strtoull strchr strrchr strstr fclose fread fwrite fseek fseeko fgets fputs closedir readdir fflush fileno pclose
 std::strlen std::strcmp std::strncmp std::atoi std::atol std::atof std::strtol std::strtod std::strchr std::strstr sscanf""".split())
END = "END"


def strip(f, i):
    while i >= 0 and (f.n[i]["k"] in ("cast", "narrow", "definit") or f.n[i]["k"] == "other" and len(f.n[i].get("a", ())) == 1 or
                      f.n[i]["k"] == "ctor" and (f.n[i].get("copy") or f.n[i].get("move") or "iterator" in f.n[i].get("q", "").rsplit("::", 1)[-1]) and
                      len(f.n[i].get("a", ())) >= 1):
        i = f.n[i]["a"][0]
    return i


def truth(v):
    return 1 if v == SOME else None if v is None or isinstance(v, tuple) else int(bool(v))


def pointer(t):
    return t.rstrip().endswith(("*", "*const", "* const"))


def smart(t):
    t = t[6:] if t.startswith("const ") else t
    return t.startswith(("std::unique_ptr<", "std::shared_ptr<", "std::optional<"))


class Sources:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.null = {}          # usr -> where the null comes from
        self.busy = set()
        self.depth = []
        self.preds = {}
        more = True
        fns = [f for f in P.fns.values() if pointer((f.r.get("rt") or "").rstrip("& ")) and f.blocks and not f.file.startswith(("src/eckit/contrib", "/usr"))]
        while more:
            more = False
            for f in fns:
                if f.u in self.null:
                    continue
                w = self.gives_null(f)
                if w:
                    self.null[f.u] = w
                    more = True

    def gives_null(self, f, facts=()):
        reach = f.reachable_nodes()
        for i, n in enumerate(f.n):
            if i not in reach:
                continue
            if n["k"] == "ret" and n.get("a"):
                if any(f.n[j]["k"] == "null" for j in self.alternatives(f, n["a"][0], Walk(self, f, None, "ptr"), facts)) and \
                        Walk(self, f, i, "ptr", facts=facts).reaches(i):
                    return f.loc(i)
            if self.var_source(f, i, "ptr") or n["k"] in ("call", "cast") and self.source(f, i) == "ptr":
                w = Walk(self, f, i, "ptr", ret=True, facts=facts).run()
                for e, how in w:
                    if how == "returned":
                        return f.loc(e)
        return None

    def under(self, f, i, env):
        """can call i of f come back with nothing, given what is known there?"""
        n = f.n[i]
        ts = [t for t in self.P.targets(n) if t in self.null] if n["k"] == "call" else []
        if not ts or len(self.depth) > 3:
            return True
        for t in ts:
            g = self.P.fns[t]
            facts = {}
            for x, p in enumerate(g.r.get("p", ())):
                if x < len(n.get("a", ())):
                    m = f.n[strip(f, n["a"][x])]
                    v = env.get(("v", m.get("v"))) if m["k"] in ("ref", "mem") else 0 if m["k"] == "null" else None
                    if v is not None and v in (0, SOME):
                        facts[("v", p["v"])] = v
            if isinstance(n.get("o"), int) and n["o"] >= 0 and f.n[strip(f, n["o"])]["k"] == "this":
                facts.update({k: v for k, v in env.items() if isinstance(k, tuple) and "@FI@" in k[1] and v in (0, SOME)})
            self.depth.append(t)
            r = not facts or self.gives_null(g, tuple(sorted(facts.items(), key=str)))
            self.depth.pop()
            if r:
                return True
        return False

    def refuses(self, f, n):
        """call n never comes back, with the constants it is given"""
        g = self.P.fns.get(n.get("f"))
        if n["k"] != "call" or g is None or not g.blocks or not n.get("a"):
            return False
        facts = {}
        for p, a in zip(g.r.get("p", ()), n["a"]):
            v = peval(f, a, {})
            if isinstance(v, int) and p["t"] in ("int", "long", "long long", "bool", "ssize_t"):
                facts[("v", p["v"])] = v
        if not facts:
            return False
        key = (g.u, tuple(sorted(facts.items())))
        if key not in self.memo:
            self.memo[key] = not Walk(self, g, None, "ptr", facts=key[1]).reaches(g.exit, block=True)
        return self.memo[key]

    def predicate(self, g):
        """(field, parameter) if g says whether the field, a map or a set, has the parameter"""
        if g.u in self.preds:
            return self.preds[g.u]
        r = None
        rets = [n for i, n in g.nodes_of("ret") if n.get("a")]
        if len(rets) == 1:
            for j in subtree(g, rets[0]["a"][0]):
                n = g.n[j]
                if n["k"] == "call" and n.get("q", "").rsplit("::", 1)[-1] in ("find", "count", "contains") and n.get("a") and isinstance(n.get("o"), int):
                    o, a = g.n[strip(g, n["o"])], g.n[strip(g, n["a"][0])]
                    ps = [p["v"] for p in g.r.get("p", ())]
                    top = g.n[strip(g, rets[0]["a"][0])]
                    if o["k"] == "mem" and a["k"] == "ref" and a.get("v") in ps and not (top.get("op") in ("==", "!") and n["q"].endswith("find")):
                        r = (o["v"], ps.index(a["v"]))
        self.preds[g.u] = r
        return r

    def alternatives(self, f, i, w=None, env=()):
        i = strip(f, i)
        if f.n[i]["k"] == "cond":
            a = f.n[i]["a"]
            c = truth(peval(f, a[0], w.inject(a[0], dict(env)))) if w else None
            return (self.alternatives(f, a[1], w, env) if c != 0 else []) + (self.alternatives(f, a[2], w, env) if c != 1 else [])
        return [i]

    def var_source(self, f, i, kind):
        """element i gives a local variable a null literal"""
        n = f.n[i]
        if n["k"] == "decl":
            return any(isinstance(d.get("i"), int) and d["i"] >= 0 and (pointer(d.get("t", "")) and self.nul(f, d["i"]) or smart(d.get("t", "")) and
                       self.void(f, d["i"])) for d in n["d"])
        if n["k"] == "assign" and n["op"] == "=" and f.n[n["a"][0]]["k"] == "ref" and f.n[n["a"][0]].get("vk") == "local":
            return pointer(f.n[n["a"][0]].get("t", "")) and self.nul(f, n["a"][1])
        return False

    def void(self, f, i):
        n = f.n[strip(f, i)]
        return n["k"] == "ctor" and (not n.get("a") or f.n[strip(f, n["a"][0])]["k"] == "null") and smart(n.get("t", ""))

    def nul(self, f, i):
        return f.n[strip(f, i)]["k"] == "null"

    def source(self, f, i):
        """kind of look-up node i is"""
        n = f.n[i]
        if n["k"] in ("decl", "assign") and self.var_source(f, i, "ptr"):
            return "ptr"
        if n["k"] == "cast" and n.get("st") == "dynamic" and pointer(n.get("t", "")):
            return "ptr"
        if n["k"] != "call":
            return None
        q = n.get("q", "").lstrip(":")
        if q in NULLC:
            return "ptr" if pointer(n.get("t", "")) or smart(n.get("t", "")) else None
        c, _, m = q.rpartition("::")
        t = n.get("t", "")
        if t.startswith("std::optional<") and m != "make_optional" and not m.startswith("operator"):
            return "ptr"
        if m in ("find", "lower_bound", "upper_bound") and c in FINDS:
            return "iter"
        if m == "operator[]" and c in ("std::map", "std::unordered_map"):
            t = n.get("t", "").rstrip("& ")
            if (pointer(t) or smart(t)) and not self.target(f, i):
                return "ptr"
            return None
        if c == "std" and m in ALGO:
            return "iter"
        if c == "std::basic_string" and m in POS:
            return "pos"
        if n.get("f") in self.null and not n.get("v"):
            return "ptr"
        if n.get("v") and any(t in self.null for t in self.P.targets(n)):
            return "ptr"
        return None

    def target(self, f, i):
        """the looked up value is written, not read"""
        for p in f.parents().get(i, ()):
            m = f.n[p]
            if m["k"] in ("assign", "delete") and m["a"][0] == i or m["k"] == "call" and m.get("o") == i and m.get("q", "").endswith(("::operator=", "::reset", "::swap")):
                return True
            if m["k"] == "call" and m.get("o") != i and i in m.get("a", ()) and (m.get("pm") or ["v"] * 99)[m["a"].index(i)] in ("r", "rr"):
                return True
        return False

    def derefs(self, u, x, kind):
        """does function u use its parameter x without testing it?"""
        key = (u, x, kind)
        if key in self.memo:
            return self.memo[key]
        f = self.P.fns.get(u)
        self.memo[key] = False
        if f is None or not f.blocks or x >= len(f.r.get("p", ())) or len(self.busy) > 3:
            return False
        self.busy.add(key)
        r = bool(Walk(self, f, None, kind, param=f.r["p"][x]["v"]).run())
        self.busy.discard(key)
        self.memo[key] = r
        return r


class Walk:
    """paths on which the look-up came back empty-handed"""

    def __init__(self, S, f, src, kind, param=None, ret=False, facts=()):
        self.facts = facts
        self.S, self.P, self.f, self.src, self.kind, self.param, self.ret = S, S.P, f, src, kind, param, ret
        self.absent = {"ptr": 0, "iter": END, "pos": NPOS}[kind]

    def value(self, i, env):
        f = self.f
        j = strip(f, i)
        if j in env:
            return env[j]
        n = f.n[j]
        if n["k"] in ("ref", "mem") and ("v", n.get("v")) in env:
            v = env[("v", n["v"])]
            if isinstance(v, int) and v > 1 << 40 and "int" in n.get("t", "") and "long" not in n["t"]:
                return -1 if not n["t"].startswith("unsigned") else (1 << 32) - 1
            return v
        if n["k"] == "ctor" and smart(n.get("t", "")) and self.kind == "ptr" and self.S.void(f, j):
            return 0
        if n["k"] == "ctor" and n.get("a") and smart(n.get("t", "")):
            return self.value(n["a"][0], env)
        if n["k"] == "cond":
            c = peval(f, n["a"][0], self.inject(n["a"][0], env))
            if c is None:
                return None
            return self.value(n["a"][1 if c else 2], env)
        if n["k"] == "assign" and n["op"] == "=":
            return self.value(n["a"][1], env)
        if n["k"] == "call" and n.get("q", "").endswith("::operator=") and n.get("a"):
            return self.value(n["a"][-1], env)
        if n["k"] == "bin" and n["op"] in "+-" and not pointer(n.get("t", "")):
            a, b = self.value(n["a"][0], env), self.value(n["a"][1], env)
            if isinstance(a, int) and isinstance(b, int):
                r = a + b if n["op"] == "+" else a - b
                return r & NPOS if n.get("t", "").startswith("unsigned") else r
            return None
        if n["k"] == "null" and self.kind == "ptr":
            return 0
        v = peval(f, j, self.inject(j, env))
        return v if isinstance(v, int) else None

    def endish(self, i, env):
        f = self.f
        j = strip(f, i)
        if self.value(j, env) == END:
            return True
        n = f.n[j]
        if n["k"] == "call" and n.get("q", "").rsplit("::", 1)[-1] in ("end", "cend"):
            return True
        if n["k"] == "ref":         # a variable that was set from end()
            for m in f.n:
                if m["k"] == "decl":
                    for d in m["d"]:
                        if d["v"] == n["v"] and isinstance(d.get("i"), int) and d["i"] >= 0:
                            k = f.n[strip(f, d["i"])]
                            if k["k"] == "call" and k.get("q", "").rsplit("::", 1)[-1] in ("end", "cend"):
                                return True
        return False

    def last(self, n):
        """the range end given to the algorithm"""
        return None

    def inject(self, c, env):
        """what comparisons of iterators and smart pointers come to"""
        f = self.f
        env = dict(env)
        env["strict"] = True
        for j in sorted(subtree(f, c)):
            n = f.n[j]
            if n["k"] == "un" and n.get("op") == "!" and self.easy(n["a"][0]) and env.get(("v", f.n[strip(f, n["a"][0])].get("v"))) == SOME:
                env[j] = 0
            if n["k"] == "bin" and n.get("op") in ("==", "!=") and self.kind == "iter":
                for x, y in (n["a"], n["a"][::-1]):
                    if self.easy(x) and self.value(x, env) == END and (self.endish(y, env) or self.isend(y)):
                        env[j] = int(n["op"] == "==")
            if n["k"] == "call":
                m = n.get("q", "").rsplit("::", 1)[-1]
                if m in ("operator==", "operator!="):
                    ab = list(n.get("a", ()))
                    if len(ab) == 1 and isinstance(n.get("o"), int):
                        ab = [n["o"]] + ab
                    if len(ab) == 2:
                        va, vb = self.value(ab[0], env) if self.easy(ab[0]) else None, self.value(ab[1], env) if self.easy(ab[1]) else None
                        if va == END and self.endish(ab[1], env) or vb == END and self.endish(ab[0], env) or \
                                va == END and self.isend(ab[1]) or vb == END and self.isend(ab[0]):
                            env[j] = int(m == "operator==")
                        elif va == 0 and (f.n[strip(f, ab[1])]["k"] == "null") or vb == 0 and f.n[strip(f, ab[0])]["k"] == "null":
                            env[j] = int(m == "operator==")
                elif m in ("operator bool", "get", "has_value") and isinstance(n.get("o"), int) and n["o"] >= 0 and self.value(n["o"], env) == 0 \
                        and self.easy(n["o"]):
                    env[j] = 0
        return env

    def easy(self, i):
        return f_kind(self.f, i) in ("ref", "mem", "call", "assign", "cast")

    def isend(self, i):
        # an algorithm's own range end
        s = self.src
        if s is None or self.kind != "iter":
            return False
        n = self.f.n[s]
        if len(n.get("a", ())) < 2:
            return False
        return same(self.f, n["a"][1], i)

    def uses(self, e, env):
        """is something absent used by element e?"""
        f, n = self.f, self.f.n[e]
        k = n["k"]
        gone = lambda i: self.easy(i) and self.value(i, env) == self.absent
        if self.kind == "ptr":
            if k == "mem" and isinstance(n.get("b"), int) and n["b"] >= 0 and n.get("arrow") and pointer(f.n[n["b"]].get("t", "")) and gone(n["b"]):
                return "dereferenced"
            if k == "un" and n.get("op") == "*" and pointer(f.n[n["a"][0]].get("t", "")) and gone(n["a"][0]):
                return "dereferenced"
            if k == "idx" and gone(n["a"][0]) and pointer(f.n[strip(f, n["a"][0])].get("t", "")):
                return "dereferenced"
            if k == "call" and isinstance(n.get("o"), int) and n["o"] >= 0:
                o = f.n[n["o"]]
                if pointer(o.get("t", "")) and o["k"] != "this" and gone(n["o"]) and not n.get("sta"):
                    return "dereferenced"
                if n.get("q", "").endswith(("::operator->", "::operator*")) and smart(o.get("t", "")) and gone(n["o"]):
                    return "dereferenced"
        elif self.kind == "iter":
            if (k == "un" and n.get("op") == "*" and gone(n["a"][0]) or k == "mem" and n.get("arrow") and gone(n["b"])) and not self.written(e):
                return "dereferenced"           # an array may have room to write there
            q = n.get("q", "").rsplit("::", 1)[-1]
            if k == "call" and q in ("operator->", "operator*", "operator++", "erase"):
                args = list(n.get("a", ()))
                if isinstance(n.get("o"), int) and n["o"] >= 0 and q != "erase":
                    args = [n["o"]]
                if q == "erase" and len(args) != 1:
                    args = []
                for a in args:
                    if gone(a):
                        return "dereferenced" if q != "erase" else "erased"
        elif self.kind == "pos":
            q = n.get("q", "")
            m = q.rsplit("::", 1)[-1]
            if k == "call" and q.startswith("std::basic_string") and m in ("substr", "erase", "at", "operator[]", "insert", "replace", "compare") and n.get("a"):
                a = n["a"][0]
                v = self.value(a, env)
                if v is not None and v in (NPOS, -1, NPOS - 1):
                    return "used as a position"
            if k == "idx":
                v = self.value(n["a"][1], env)
                if v in (NPOS, -1):
                    return "used as an index"
        if k in ("call", "ctor"):
            pm = n.get("pm") or []
            q = n.get("q", "").lstrip(":")
            for x, a in enumerate(n.get("a", ())):
                if not gone(a):
                    continue
                if self.kind == "ptr":
                    if not pointer(f.n[strip(f, a)].get("t", "")):
                        continue
                    if q in STRFN or q.startswith("std::") and x < len(pm) and pm[x] == "cp" and ("basic_string" in q or q in ("std::operator+", "std::operator==", "std::operator!=", "std::operator<<")):
                        return "passed to " + q
                if n.get("f") in self.P.fns and not n.get("v") and self.kind == "ptr" and x < len(pm) and pm[x] in ("p", "cp", "v"):
                    if self.S.derefs(n["f"], x, "ptr"):
                        return "passed to %s, which uses it" % q
        if self.ret and k == "ret" and n.get("a") and any(self.value(j, env) == 0 for j in self.S.alternatives(f, n["a"][0], self, env)):
            return "returned"
        return None

    def reaches(self, target, block=False):
        """some path leads to the element (or block) given the facts"""
        f = self.f
        self.goal = (target, block)
        self.hit = False
        self.run()
        return self.hit

    goal = None
    lean = False

    def start(self):
        return None

    def run(self):
        f = self.f
        bad = []
        env0 = frozenset(self.facts)
        if self.param:
            env0 = frozenset([(("v", self.param), self.absent)])
        start = self.start()
        if start:
            env0 = env0 | frozenset(start.items())
        self.final = set()
        todo = [(f.entry, 0, self.param is not None or bool(start), env0)]
        if not self.param and not self.facts and not self.goal:
            todo += [(b, 0, bool(start), env0) for b in f.dispatch_blocks().values()]
        seen = set()
        while todo:
            st = todo.pop()
            if st in seen:
                continue
            if len(seen) > 6000:
                if not self.lean and not bad and not self.goal:
                    self.lean = True            # again, with no more than the look-up's own fate
                    return self.run()
                self.S.big.add(f.q)
                break
            seen.add(st)
            b, k0, live, facts = st
            blk = f.blocks[b]
            env = dict(facts)
            dead = False
            if self.goal and self.goal[1] and b == self.goal[0]:
                self.hit = True
                break
            for k in range(k0, len(blk["e"])):
                e = blk["e"][k]
                n = f.n[e]
                env.pop(e, None)
                if self.goal:
                    if e == self.goal[0] and not self.goal[1]:
                        self.hit = True
                        return bad
                    if n["k"] == "ret" and self.goal[1]:
                        self.hit = True
                        return bad
                if self.kind == "iter" and self.src is not None:
                    self.inserted(n, env)
                if live:
                    u = self.uses(e, env)
                    if u:
                        bad.append((e, u))
                        dead = True
                        break
                if not start and e == self.src and n["k"] not in ("decl", "assign", "ret") and not env.get("found") and self.S.under(f, e, env):
                    env = {x: y for x, y in env.items() if y != self.absent or not isinstance(x, tuple)}
                    env[e] = self.absent
                    live = True
                if self.P.leaves(f, n) or n["k"] == "ret" or self.S.refuses(f, n):
                    dead = True
                    break
                self.store(e, n, env)
                if e == self.src and n["k"] in ("decl", "assign"):
                    live = True
            if n_ret(f, blk) and not dead:
                self.final.add(env.get("state"))
            if dead or blk.get("nr") or b == f.exit:
                if b == f.exit and not dead:
                    self.final.add(env.get("state"))
                continue
            t = blk.get("t")
            ss = blk["s"]
            if live and not start and not any(v == self.absent for v in env.values()):
                live = False        # forgotten, or given another value
                if self.src is None:
                    continue
            fz = frozenset(env.items())
            if t and t.get("c") is not None and t["c"] >= 0 and len(ss) == 2 and t["k"] != "SwitchStmt":
                c = effective(f, t["c"])
                val = truth(peval(f, c, self.inject(c, env)))
                for x, s in enumerate(ss):
                    if s < 0 or val is not None and val != int(x == 0):
                        continue
                    e2 = dict(env)
                    self.learn(c, int(x == 0), e2)
                    todo.append((s, 0, live, frozenset(e2.items())))
            else:
                val = peval(f, t["c"], self.inject(t["c"], env)) if t and t["k"] == "SwitchStmt" and t.get("c") is not None and t["c"] >= 0 else None
                if isinstance(val, int):
                    hit = [s for s in ss if s >= 0 and str(val) in f.blocks[s].get("case", ())]
                    ss = hit or [s for s in ss if s >= 0 and not f.blocks[s].get("case")]
                for s in ss:
                    if s >= 0:
                        todo.append((s, 0, live, fz))
        return bad

    def written(self, i):
        f = self.f
        for _ in range(4):
            ps = f.parents().get(i, ())
            if len(ps) != 1:
                return False
            m = f.n[ps[0]]
            if m["k"] == "assign":
                return m["a"][0] == i
            if m["k"] == "call" and m.get("q", "").endswith("::operator="):
                return m.get("o") == i or m.get("o") is None and m["a"][0] == i
            if m["k"] not in ("mem", "cast"):
                return False
            i = ps[0]
        return False

    def learn(self, c, val, env):
        f = self.f
        if self.lean:
            return
        c = strip(f, c)
        n = f.n[c]
        while n["k"] == "un" and n.get("op") == "!":
            val = 1 - val
            c = strip(f, n["a"][0])
            n = f.n[c]
        if n["k"] == "ref" and n.get("vk") in ("local", "param") and not n.get("isref") and n.get("t", "") in ("bool", "const bool"):
            env[("v", n["v"])] = val
        elif n["k"] in ("ref", "mem") and val and ("v", n["v"]) not in env and n.get("t", "") != "bool":
            env[("v", n["v"])] = SOME
        if self.src is None or f.n[self.src]["k"] not in ("call", "cast"):
            return
        s = f.n[self.src]
        if n["k"] == "call" and n.get("q", "").endswith(("::operator==", "::operator!=")) and len(n.get("a", ())) == 2:
            hit = any(self.alike(a) for a in n["a"])
            if hit and any(self.endish(a, env) or f.n[strip(f, a)]["k"] == "null" for a in n["a"]):
                if val == int(n["q"].endswith("!=")):
                    env["found"] = 1
        elif val and c != self.src and same(f, c, self.src):
            env["found"] = 1
        elif n["k"] == "bin" and n.get("op") in ("==", "!=") and any(same(f, a, self.src) and strip(f, a) != self.src for a in n["a"]):
            if val == int(n["op"] == "!="):
                env["found"] = 1
        elif val and n["k"] == "call" and s["k"] == "call" and s.get("a") and isinstance(s.get("o"), int):
            m = n.get("q", "").rsplit("::", 1)[-1]
            if m in ("count", "contains") and isinstance(n.get("o"), int) and same(f, n["o"], s["o"]) and same(f, n["a"][0], s["a"][0]):
                env["found"] = 1
            g = self.P.fns.get(n.get("f"))
            p = self.S.predicate(g) if g is not None else None
            o = f.n[strip(f, s["o"])]
            if p and o["k"] == "mem" and o["v"] == p[0] and p[1] < len(n["a"]) and same(f, n["a"][p[1]], s["a"][0]):
                env["found"] = 1

    def alike(self, i):
        """the same look-up, or one for the same key in the same container"""
        f = self.f
        i = strip(f, i)
        n, s = f.n[i], f.n[self.src]
        if i == self.src:
            return False
        if same(f, i, self.src):
            return True
        return n["k"] == s["k"] == "call" and n.get("q", "").endswith("::find") and s.get("q", "").startswith("std::") and isinstance(n.get("o"), int) and \
            isinstance(s.get("o"), int) and n["o"] >= 0 and s["o"] >= 0 and n.get("a") and s.get("a") and same(f, n["o"], s["o"]) and same(f, n["a"][0], s["a"][0])

    def inserted(self, n, env):
        """the container has the key now, or no longer"""
        f, s = self.f, self.f.n[self.src]
        if n["k"] != "call" or not isinstance(n.get("o"), int) or n["o"] < 0 or not isinstance(s.get("o"), int) or s["o"] < 0 or not s.get("a"):
            return
        m = n.get("q", "").rsplit("::", 1)[-1]
        if not n.get("q", "").startswith("std::") or not same(f, n["o"], s["o"]):
            return
        if m in ("operator[]", "emplace", "insert", "try_emplace", "insert_or_assign"):
            if any(same(f, j, s["a"][0]) for a in n.get("a", ()) for j in subtree(f, a)):
                env["found"] = 1
        elif m in ("erase", "clear", "extract", "swap"):
            env.pop("found", None)

    def store(self, e, n, env):
        f = self.f
        k = n["k"]

        def put(v, i, t):
            x = self.value(i, env)
            env.pop(("v", v), None)
            if x is not None and (x == self.absent and live_type(self.kind, t) or x in (0, 1) and t in ("bool", "const bool") or
                                  self.kind == "pos" and isinstance(x, int) and f.n[strip(f, i)].get("c") is None and not self.lean):
                env[("v", v)] = x
        if k == "assign" and f.n[n["a"][0]]["k"] in ("ref", "mem"):
            m = f.n[n["a"][0]]
            if n["op"] == "=":
                put(m["v"], n["a"][1], m.get("t", ""))
            else:
                env.pop(("v", m["v"]), None)
        elif k == "decl":
            for d in n["d"]:
                env.pop(("v", d["v"]), None)
                if isinstance(d.get("i"), int) and d["i"] >= 0:
                    put(d["v"], d["i"], d.get("t", ""))
        elif k == "un" and n.get("op") in ("++", "--"):
            m = f.n[strip(f, n["a"][0])]
            if m["k"] in ("ref", "mem"):
                v = env.pop(("v", m["v"]), None)
                if self.kind == "pos" and isinstance(v, int) and v in (NPOS, -1, 0):
                    env[("v", m["v"])] = (v + (1 if n["op"] == "++" else -1)) & NPOS
        elif k in ("call", "ctor"):
            pm = n.get("pm") or []
            for x, a in enumerate(n.get("a", ())):
                j = strip(f, a)
                m = f.n[j]
                if m["k"] in ("ref", "mem") and x < len(pm) and pm[x] in ("r", "rr") and n.get("q", "").rsplit("::", 1)[-1] not in ("operator==", "operator!="):
                    if ("v", m.get("v")) in env and not (k == "ctor" and (n.get("copy") or n.get("move"))):
                        env.pop(("v", m["v"]), None)
                if m["k"] == "un" and m.get("op") == "&" and f.n[m["a"][0]]["k"] in ("ref", "mem"):
                    env.pop(("v", f.n[m["a"][0]]["v"]), None)
            o = n.get("o")
            if k == "call" and isinstance(o, int) and o >= 0:
                m = f.n[strip(f, o)]
                if m["k"] in ("ref", "mem") and smart(m.get("t", "")) and n.get("q", "").rsplit("::", 1)[-1] in ("reset", "operator=", "emplace", "swap"):
                    env.pop(("v", m["v"]), None)
                    if n["q"].endswith("operator=") and n.get("a"):
                        put(m["v"], n["a"][0], m.get("t", ""))
                elif m["k"] in ("ref", "mem") and n.get("q", "").endswith("::operator=") and n.get("a"):
                    put(m["v"], n["a"][0], m.get("t", ""))
                elif m["k"] == "ref" and not n.get("mc") and self.kind == "iter" and n.get("q", "").endswith(("operator++", "operator--")):
                    env.pop(("v", m["v"]), None)
                if m["k"] == "this" and not n.get("mc"):        # may give a field another value
                    for x in [x for x in env if isinstance(x, tuple) and "@FI@" in x[1]]:
                        env.pop(x)


def n_ret(f, blk):
    return bool(blk["e"]) and f.n[blk["e"][-1]]["k"] == "ret"


def live_type(kind, t):
    return True


def f_kind(f, i):
    n = f.n[strip(f, i)]
    return n["k"]


def same(f, a, b, d=0):
    a, b = strip(f, a), strip(f, b)
    if a == b:
        return True
    x, y = f.n[a], f.n[b]
    if x["k"] != y["k"] or d > 12:
        return False
    for k in ("v", "f", "op", "c", "s"):
        if x.get(k) != y.get(k):
            return False
    ka, kb = list(kids(x)), list(kids(y))
    return len(ka) == len(kb) and all(same(f, p, q, d + 1) for p, q in zip(ka, kb))


# containers that hold something there for reasons no path shows: function -> why
FULL = {"eckit::DefaultHandler::pick": "the dispatcher calls it when there is a request",
        
    "eckit::BTree::insert": "the path down to a leaf has the root on it at least",
    "eckit::CacheLRU::trim": "the list has as many entries as the map, whose size is tested",
    "eckit::JSON::sep": "starts with one, and the caller pairs start and end", "eckit::JSON::endObject": "the caller pairs start and end",
    "eckit::JSON::endList": "the caller pairs start and end", "eckit::JSON::inlist": "the caller pairs start and end",
    "eckit::JSON::indict": "the caller pairs start and end",
    "eckit::YAMLParser::endOfToken": "the constructor pushes one of each, and what is pushed while parsing is popped",
    "eckit::PeekHandle::skip": "counts up to a length that is tested against the size",
    "eckit::sql::expression::ShiftedColumnExpression::eval": "filled if it is empty, and shift_ is tested to be positive",
    "eckit::CompositeParams::pop_front": "as for the standard list, the caller's", "eckit::CompositeParams::pop_back": "as for the standard list, the caller's",
    "eckit::Queue::pop": "counts up to a number that is at most the size",
    "eckit::geo::range::GaussianLatitude::includesNorthPole": "N latitudes, and N is tested", "eckit::geo::range::GaussianLatitude::includesSouthPole": "N latitudes, and N is tested",
    "eckit::geometry::polygon::LonLatPolygon::LonLatPolygon": "a copy of points, whose number is tested",
    "eckit::EckitGeoGrid::execute": "as many longitudes as latitudes, which is tested",
}
# as above, for look-ups
SURE = {
    "eckit::geo::grid::reduced::ReducedLonLat::ReducedLonLat::(lambda)::operator()": "the constructor has tested that pl is not empty",
}

WORD = {"ptr": "null", "iter": "the end", "pos": "npos"}


def scan(P):
    S = Sources(P)
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.file.startswith("src/") or f.file.startswith("src/eckit/contrib") or not f.blocks:
            continue
        reach = f.reachable_nodes()
        for i, n in enumerate(f.n):
            if i not in reach:
                continue
            k = S.source(f, i)
            if k:
                yield S, f, i, k


Sources.big = set()


def run(P, ctx):
    first(P, ctx)
    run2(P, ctx)
    ctx.floor("tested-first", 450)
    ctx.floor("not-empty", 70)


def first(P, ctx):
    ctx.rule("tested-first", "on every path from a look-up that can find nothing (end iterator, null pointer, npos), the paths on which it "
             "found nothing are told apart before the result is dereferenced, erased, used as a position or handed to a function that does so")
    for S, f, i, k in scan(P):
        if f.q in SURE:
            continue
        bad = Walk(S, f, i, k).run()
        name = f.n[i].get("q", f.n[i]["k"]).lstrip(":")
        if not bad:
            ctx.ok("tested-first", 1, "%s %s in %s" % (f.loc(i), name, f.q))
        for e, how in bad:
            ctx.bad("tested-first", "%s:%s" % (f.q, name), f.loc(e), "%s: the result of %s may be %s and is %s" % (f.q, name, WORD[k], how))
    for q in sorted(S.big):
        ctx.note("too many paths, explored in part: " + q)


# -- containers that may be empty

SEQ = ("std::vector", "std::deque", "std::list", "std::queue", "std::stack", "std::priority_queue", "std::basic_string", "std::forward_list",
       "std::map", "std::set", "std::multimap", "std::multiset", "std::unordered_map")
TAKES = ("front", "back", "pop_back", "pop_front", "top", "pop")
GROW = ("push_back", "emplace_back", "push_front", "emplace_front", "push", "emplace", "insert", "append", "operator+=", "insert_or_assign", "try_emplace")
SHRINK = ("pop_back", "pop_front", "pop", "clear", "erase", "remove", "remove_if")
KEEP = ("size", "empty", "length", "front", "back", "top", "begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "c_str", "at", "capacity",
        "reserve", "find", "count", "operator[]", "substr", "max_size", "shrink_to_fit", "rfind", "find_first_of", "compare")
EMPTY = "EMPTY"


def path(f, i):
    i = strip(f, i)
    n = f.n[i]
    if n["k"] == "this":
        return ("@FI@this",)
    if n["k"] == "un" and n.get("op") == "*":
        return path(f, n["a"][0])
    if n["k"] == "ref":
        return (n["v"],)
    if n["k"] == "mem":
        if isinstance(n.get("b"), int) and n["b"] >= 0:
            if f.n[n["b"]]["k"] == "this":
                return (n["v"],)
            b = path(f, n["b"])
            return b + (n["v"],) if b else None
        return (n["v"],)
    if n["k"] == "call" and n.get("q", "").endswith("::operator->") and isinstance(n.get("o"), int):
        return path(f, n["o"])
    return None


def container(n):
    q = n.get("q", "")
    c, _, m = q.rpartition("::")
    return m if n["k"] == "call" and c in SEQ and isinstance(n.get("o"), int) and n["o"] >= 0 else None


class Empty(Walk):
    """paths to element src on which the container it takes from may be empty"""

    def __init__(self, S, f, src, key, state=None):
        Walk.__init__(self, S, f, src, "ptr")
        self.key = key

    def obj(self, n):
        return path(self.f, n["o"]) == self.key

    def inject(self, c, env):
        f = self.f
        env = dict(env)
        env["strict"] = True
        if env.get("state") != EMPTY:
            return env
        for j in sorted(subtree(f, c)):
            n = f.n[j]
            m = container(n)
            if m and self.obj(n):
                if m == "empty":
                    env[j] = 1
                elif m in ("size", "length"):
                    env[j] = 0
            elif n["k"] == "call" and isinstance(n.get("o"), int) and n["o"] >= 0 and n.get("mc") and not n.get("a") and f.n[strip(f, n["o"])]["k"] == "this" \
                    and "@FI@" in self.key[0]:
                g = self.P.fns.get(n.get("f"))
                rets = [x for _, x in g.nodes_of("ret") if x.get("a")] if g is not None and g.u != f.u and g.blocks and len(g.blocks) < 5 else ()
                if len(rets) == 1:
                    w = Empty(self.S, g, None, self.key)
                    v = peval(g, rets[0]["a"][0], w.inject(rets[0]["a"][0], {"state": EMPTY}))
                    if isinstance(v, int):
                        env[j] = v
            elif n["k"] == "call" and n.get("q") == "std::min" and len(n.get("a", ())) >= 2:
                if any(peval(f, x, env) == 0 for x in n["a"][:2]):
                    env[j] = 0
            elif n["k"] == "bin" and n.get("op") in ("<", ">") and "unsigned" in f.n[n["a"][0]].get("t", ""):
                if peval(f, n["a"][0 if n["op"] == ">" else 1], env) == 0:
                    env[j] = 0
            elif n["k"] == "call" and n.get("q", "").endswith(("operator==", "operator!=")) and len(n.get("a", ())) == 2:
                a, b = (self.bound(x, env) for x in n["a"])
                if a and b:
                    env[j] = int(n["q"].endswith("=="))
        return env

    def bound(self, i, env):
        f = self.f
        j = strip(f, i)
        n = f.n[j]
        if n["k"] == "ref":
            return env.get(("v", n["v"])) == END
        m = container(n)
        return bool(m and m in ("begin", "end", "cbegin", "cend", "rbegin", "rend") and self.obj(n))

    def uses(self, e, env):
        if e == self.src and env.get("state") == EMPTY:
            return "taken from"
        return None

    def start(self):
        return {"state": EMPTY}

    def store(self, e, n, env):
        f, k = self.f, n["k"]
        if k == "decl":
            for d in n["d"]:
                env.pop(("v", d["v"]), None)
                if (d["v"],) == self.key:
                    env["state"] = self.initial(d)
                    continue
                if isinstance(d.get("i"), int) and d["i"] >= 0:
                    if "&" in d.get("t", "") and path(f, d["i"]) == self.key and not d["t"].startswith("const"):
                        env.pop("state", None)
                    if self.bound(d["i"], env):
                        env[("v", d["v"])] = END
                    elif d.get("t", "") in ("bool", "const bool", "unsigned long", "const unsigned long", "int", "long"):
                        x = peval(f, d["i"], self.inject(d["i"], env))
                        if isinstance(x, int):
                            env[("v", d["v"])] = x
                    if d.get("t", "").rstrip().endswith("&") and not d["t"].startswith("const") and path(f, d["i"]) == self.key:
                        env.pop("state", None)
            return
        if k == "assign" and f.n[n["a"][0]]["k"] in ("ref", "mem"):
            env.pop(("v", f.n[n["a"][0]]["v"]), None)
            x = peval(f, n["a"][1], self.inject(n["a"][1], env))
            if isinstance(x, int) and f.n[n["a"][0]].get("t") == "bool" and n["op"] == "=":
                env[("v", f.n[n["a"][0]]["v"])] = x
        if k == "un" and n.get("op") in ("++", "--"):
            m = f.n[strip(f, n["a"][0])]
            env.pop(("v", m.get("v")), None)
        if k == "init" and (n.get("v"),) == self.key:
            env["state"] = self.initial({"i": n["a"][0]}) if n.get("a") else EMPTY
            return
        m = container(n)
        if m and self.obj(n):
            if m in GROW:
                if m in ("insert", "append", "operator+=") and "basic_string" in n["q"]:
                    env.pop("state", None)
                else:
                    env.pop("state", None)
            elif m in SHRINK:
                env["state"] = EMPTY
            elif m in ("resize", "assign"):
                x = peval(f, n["a"][0], {}) if n.get("a") else None
                env.pop("state", None)
            elif m == "operator=":
                env["state"] = EMPTY
            elif m not in KEEP:
                env.pop("state", None)
            return
        if k in ("call", "ctor"):
            pm = n.get("pm") or []
            for x, a in enumerate(n.get("a", ())):
                j = strip(f, a)
                if f.n[j]["k"] == "un" and f.n[j].get("op") == "&":
                    j = strip(f, f.n[j]["a"][0])
                p = path(f, j)
                if p and p == self.key[:len(p)] and x < len(pm) and pm[x] in ("r", "p", "rr"):
                    if "std::move" in n.get("q", ""):
                        env["state"] = EMPTY
                    else:
                        env.pop("state", None)
                if f.n[j]["k"] == "lambda" and any((c.get("v"),) == self.key[:1] for c in f.n[j].get("caps", ())):
                    env.pop("state", None)
            o = n.get("o")
            if k == "call" and isinstance(o, int) and o >= 0 and not n.get("mc"):
                p = path(f, o)
                if f.n[strip(f, o)]["k"] == "this" and "@FI@" in self.key[0]:
                    env.pop("state", None)
                elif p and len(p) < len(self.key) and p == self.key[:len(p)]:
                    env.pop("state", None)

    def initial(self, d):
        f = self.f
        i = d.get("i")
        if isinstance(i, int) and i >= 0 and f.n[strip(f, i)]["k"] == "ctor":
            a = f.n[strip(f, i)].get("a") or ()
            m = f.n[strip(f, a[0])] if a else {"k": ""}
            if m["k"] == "bin" and m.get("op") == "+" and any((peval(f, x, {}) or 0) > 0 for x in m["a"]) and "unsigned" in m.get("t", ""):
                return "some"
        if not isinstance(i, int) or i < 0:
            return EMPTY
        n = f.n[strip(f, i)]
        if n["k"] == "ctor" and n.get("a"):
            t = n.get("pm") or []
            if n.get("list") or "initializer_list" in str(n.get("f", "")):
                return "some" if any(f.n[x]["k"] == "initlist" and f.n[x].get("a") for x in subtree(f, i)) else EMPTY
            v = peval(f, n["a"][0], {})
            if isinstance(v, int):
                return "some" if v > 0 else EMPTY
        if n["k"] == "initlist" and n.get("a"):
            return "some"
        return EMPTY


def taken(P, f, i):
    """the container element i takes an item from"""
    n = f.n[i]
    m = container(n)
    if m in TAKES:
        return path(f, n["o"]) or ("?",)
    if n["k"] == "call" and n.get("q", "").endswith("operator*") and len(n.get("a", ())) <= 1:
        for o in ([n["o"]] if isinstance(n.get("o"), int) and n["o"] >= 0 else n.get("a", ())):
            b = f.n[strip(f, o)]
            if container(b) in ("begin", "rbegin", "cbegin"):
                return path(f, b["o"]) or ("?",)
    return None


def scan2(P):
    S = Sources(P)
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.file.startswith("src/") or f.file.startswith("src/eckit/contrib") or not f.blocks:
            continue
        reach = f.reachable_nodes()
        for i, n in enumerate(f.n):
            if i in reach:
                k = taken(P, f, i)
                if k:
                    yield S, f, i, k


class Full:
    """fields that always hold something: every constructor sees to it and nothing takes away"""

    def __init__(self, S):
        self.S, self.P, self.memo = S, S.P, {}
        self.owner = {fd["v"]: r for r in S.P.recs.values() for fd in r["fields"]}

    def always(self, key):
        if len(key) != 1 or key[0] not in self.owner:
            return False
        if key not in self.memo:
            self.memo[key] = self.decide(key)
        return self.memo[key]

    def decide(self, key):
        r = self.owner[key[0]]
        fns = [f for f in self.P.fns.values() if f.cls == r["q"] or f.r.get("clsu") == r["u"]]
        ctors = [f for f in fns if f.kind == "ctor" and f.blocks]
        if not ctors:
            return False
        for f in self.P.fns.values():
            for i, n in enumerate(f.n):
                if n["k"] == "mem" and n.get("v") == key[0]:
                    for p in f.parents().get(i, ()):
                        m = f.n[p]
                        c = container(m)
                        if c and m["o"] == i and (c in SHRINK or c in ("operator=", "resize", "swap", "assign")):
                            return False
                        if m["k"] in ("call", "ctor") and i in m.get("a", ()) and (m.get("pm") or ["v"] * 99)[m["a"].index(i)] in ("r", "rr"):
                            return False
        for f in ctors:
            if any(n["k"] == "init" and n.get("deleg") for n in f.n):
                continue
            w = Empty(self.S, f, None, key)
            w.run()
            if EMPTY in w.final:
                return False
        return True


def guarded_by_callers(P, S, F, f, i, key, depth=0):
    """the container is the caller's, or a private function's own object: established at every call"""
    if depth > 2:
        return False
    ps = [p["v"] for p in f.r.get("p", ())]
    if len(key) == 1 and key[0] in ps:
        x = ps.index(key[0])
    elif len(key) == 1 and "@FI@" in key[0] and f.r.get("acc") == 2:
        x = None
    else:
        return False
    sites = P.callers().get(f.u, ())
    if not sites:
        return False
    for g, c in sites:
        n = g.n[c]
        if x is None:
            k = key if isinstance(n.get("o"), int) and n["o"] >= 0 and g.n[strip(g, n["o"])]["k"] == "this" else None
        else:
            k = path(g, n["a"][x]) if x < len(n.get("a", ())) else None
        if not k:
            return False
        if c not in g.reachable_nodes():
            continue
        if Empty(S, g, c, k).run() and not F.always(k) and not guarded_by_callers(P, S, F, g, c, k, depth + 1):
            return False
    return True


def run2(P, ctx):
    ctx.rule("not-empty", "an item is taken from a container (front, back, pop, top, *begin) only on paths that have established that there is one")
    F = None
    for S, f, i, k in scan2(P):
        F = F or Full(S)
        name = f.n[i]["q"].lstrip(":")
        if k == ("?",):
            ctx.note("not followed: %s %s" % (f.loc(i), name))
            continue
        if f.q in FULL:
            continue
        if not Empty(S, f, i, k).run() or F.always(k) or guarded_by_callers(P, S, F, f, i, k):
            ctx.ok("not-empty", 1, "%s %s in %s" % (f.loc(i), name, f.q))
        else:
            ctx.bad("not-empty", "%s:%s:%s" % (f.q, name, k[-1].rsplit("@", 1)[-1]), f.loc(i), "%s: %s of a container that may be empty" % (f.q, name))
