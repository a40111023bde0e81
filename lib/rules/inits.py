"""Nothing is read before it has a value: fields are set by constructors, locals before their use."""
from rules.outparam import Look
from rules.oscall import peval, effective, truth
from rules.lockuse import subtree
from rules.copies import Walk, own
from prog import kids

SCALAR = ("int", "bool", "float", "ptr", "enum")
TESTED = {}      # outputs set by a callee only sometimes, where the caller cannot see the other case


def scalar(P, t):
    t = t.replace("const ", "").strip()
    if t.endswith("*") or t in ("bool", "int", "long", "unsigned int", "unsigned long", "long long", "unsigned long long", "short", "unsigned short", "char",
                                "signed char", "unsigned char", "float", "double", "size_t", "long double"):
        return True
    return t.startswith("enum ") or t in {e["q"] for e in P.enums.values()} if not t.endswith(("&", "]", ">")) else False


class Uninit(Look):
    """paths on which local v is read before it is set"""

    def __init__(self, P, S, f, v, decl=None, param=False):
        super().__init__(P, f, v)
        self.S = S
        self.decl = decl
        self.param = param       # v is an output parameter: ask whether it is set at the exits
        self.exits = set()

    def event(self, e):
        f, n = self.f, self.f.n[e]
        k = n["k"]
        if k == "assign":
            return "set" if self.direct(n["a"][0]) else None
        if k == "un" and n.get("op") in ("++", "--"):
            return "set" if self.direct(n["a"][0]) else None
        if k == "lambda" and any(c.get("v") == self.v for c in n.get("caps", ())):
            return "set"
        if k == "un" and n["op"] == "&" and f.n[n["a"][0]].get("v") == self.v:
            return "addr"
        if k == "decl":
            for d in n["d"]:
                if isinstance(d.get("i"), int) and d["i"] >= 0 and d.get("t", "").endswith("&") and self.direct(d["i"]):
                    return "set"      # bound to a reference: out of sight
        if k not in ("call", "ctor"):
            return None
        if n.get("o") is not None and n["o"] >= 0 and f.n[n["o"]].get("v") == self.v and f.n[n["o"]]["k"] == "ref":
            return None if n.get("mc") else "set"
        pm = n.get("pm") or ()
        for x, a in enumerate(n.get("a", ())):
            mode = pm[x] if x < len(pm) else "v"
            m = f.n[a]
            j = a
            while f.n[j]["k"] in ("cast", "definit"):
                j = f.n[j]["a"][0]
            m = f.n[j]
            hit = m["k"] == "un" and m["op"] == "&" and self.direct(m["a"][0])
            if mode in ("r", "p") and self.direct(a) and mode == "r" or hit and mode != "cp":
                s = self.S.sets(n, x, 0) if not hit else "always"
                if s == "always":
                    return "set"
                if s == "iftrue":
                    return "pending"
                return None
            if mode == "p" and self.direct(a) and f.n[j].get("t", "").endswith("]"):
                return "set"
        return None

    def reads(self, e, done):
        """nodes of element e that read v, elements evaluated before left out"""
        out = []
        st = [e]
        f = self.f
        while st:
            x = st.pop()
            n = f.n[x]
            if n["k"] == "ref" and n.get("v") == self.v and n.get("r"):
                out.append(x)
            if n["k"] == "un" and n.get("op") in ("++", "--") and f.n[n["a"][0]].get("v") == self.v:
                out.append(x)
            if n["k"] == "assign" and n.get("op") != "=" and f.n[n["a"][0]].get("v") == self.v:
                out.append(x)
            if n["k"] == "sizeof":
                continue
            for c in kids(n):
                if c not in done:
                    st.append(c)
        return out

    def run(self):
        f = self.f
        bad = []
        els = set(f.elpos())
        start = (f.entry, 0, frozenset())
        if self.decl is not None:
            pos = f.elpos().get(self.decl)
            if pos is None:
                return []
            start = (pos[0], 0, frozenset())
        first = True
        seen, todo = set(), [start]
        while todo:
            st = todo.pop()
            if st in seen and not first:
                continue
            if len(seen) > 6000:
                return bad if bad else []
            seen.add(st)
            b, touch, facts = st
            blk = f.blocks[b]
            if b == f.exit:
                self.exits.add((touch if not isinstance(touch, tuple) else "p", None))
                continue
            facts = dict(facts)
            stop = False
            elems = blk["e"]
            if first and self.decl is not None:
                elems = elems[f.elpos()[self.decl][1] + 1:]
            elif self.decl in elems:
                elems = []
                stop = True          # declared anew
            first = False
            for e in elems:
                n = f.n[e]
                facts.pop(e, None)
                if self.P.leaves(f, n) or n.get("nr"):
                    stop = True
                    break
                t2 = touch
                if isinstance(touch, tuple):
                    c = facts.get(touch[1])
                    t2 = c if c is not None else touch
                if t2 != 1:
                    for x in self.reads(e, els - {e}):
                        bad.append((x, t2))
                        touch = t2 = 1
                        break
                ev = self.event(e)
                if ev in ("set", "addr"):
                    touch = 1
                elif ev == "pending" and touch != 1:
                    if not (isinstance(touch, tuple) and facts.get(touch[1]) == 1):
                        touch = ("p", e)
                    else:
                        touch = 1
                if n["k"] == "assign" and f.n[n["a"][0]]["k"] == "ref":
                    v = f.n[n["a"][0]]["v"]
                    facts.pop(("v", v), None)
                    facts.pop(("is", v), None)
                    val = peval(f, n["a"][1], self.env(facts)) if n["op"] == "=" else None
                    if isinstance(val, int):
                        facts[("v", v)] = int(bool(val))
                    elif isinstance(touch, tuple) and self.same(n["a"][1], touch[1]):
                        facts[("is", v)] = touch[1]
                elif n["k"] == "decl":
                    for d in n["d"]:
                        if "i" in d:
                            val = peval(f, d["i"], self.env(facts))
                            if isinstance(val, int):
                                facts[("v", d["v"])] = int(bool(val))
                            elif isinstance(touch, tuple) and self.same(d["i"], touch[1]):
                                facts[("is", d["v"])] = touch[1]
                elif n["k"] in ("call", "ctor"):
                    for x, a in enumerate(n.get("a", ())):
                        if f.n[a]["k"] == "ref" and (n.get("pm") or [""] * 99)[x:x + 1] in (["r"], ["p"]):
                            facts.pop(("v", f.n[a]["v"]), None)
                            facts.pop(("is", f.n[a]["v"]), None)
                elif n["k"] == "un" and n["op"] in ("++", "--") and f.n[n["a"][0]]["k"] == "ref":
                    facts.pop(("v", f.n[n["a"][0]].get("v")), None)
                elif n["k"] == "ret":
                    if self.param:
                        r = truth(peval(f, n["a"][0], self.env(facts))) if n.get("a") else None
                        tt = touch
                        if isinstance(touch, tuple):
                            c = facts.get(touch[1])
                            tt = c if c is not None else ("p" if self.same(n["a"][0], touch[1]) or True else 0)
                        self.exits.add((tt, r))
                    stop = True
                    break
            if stop or blk.get("nr"):
                continue
            if not self.param and touch == 1:
                continue
            t = blk.get("t")
            ss = blk["s"]
            if t and t.get("c") is not None and t["c"] >= 0 and touch != 1:
                tt = touch if not isinstance(touch, tuple) or facts.get(touch[1]) is None else facts[touch[1]]
                for x in self.reads(t["c"], els):
                    if tt != 1:
                        bad.append((x, tt))
                        touch = 1
                        break
            if t and t.get("c") is not None and len(ss) == 2 and t["k"] != "SwitchStmt":
                c = effective(f, t["c"])
                val = truth(peval(f, c, self.env(facts)))
                for j, s in enumerate(ss):
                    if s < 0 or (val is not None and val != (j == 0)):
                        continue
                    fx = dict(facts)
                    self.learn(c, int(j == 0), fx, touch)
                    tc = touch
                    if isinstance(touch, tuple) and fx.get(touch[1]) is not None:
                        tc = fx[touch[1]]
                    todo.append((s, tc, frozenset((k, x) for k, x in fx.items() if self.keep(k))))
            else:
                for s in ss:
                    if s >= 0:
                        todo.append((s, touch, frozenset((k, x) for k, x in facts.items() if self.keep(k))))
        return bad

    def keep(self, k):
        return True


class Sets:
    """whether a callee sets what it is given by reference: always, iftrue or never"""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def sets(self, n, x, depth):
        ts = self.P.targets(n) if n["k"] == "call" else [n.get("f")]
        known = [self.P.fns[u] for u in ts if u in self.P.fns]
        if not known or len(ts) > 1 and not known:
            return "always"
        worst = "always"
        for g in known:
            if g.file.startswith("/") or not g.file.startswith("src/"):
                continue
            r = self.of(g, x, depth)
            if r == "never":
                return "never"
            if r == "iftrue":
                worst = "iftrue"
        return worst

    def of(self, g, x, depth):
        key = (g.u, x)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = "always"
        ps = g.r.get("p", ())
        if x >= len(ps):
            return "always"
        L = Uninit(self.P, self, g, ps[x]["v"], None, True)
        L.run()
        res = "always"
        if any(t != 1 for t, _ in L.exits):
            res = "never"
            if g.r.get("rt") == "bool":
                res = "iftrue" if all(t == 1 or t == "p" or r in (0, None) for t, r in L.exits) else "never"
        self.memo[key] = res
        return res


def locals_(P, ctx):
    S = Sets(P)
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if not own(f):
            continue
        for i, n in f.nodes_of("decl"):
            for d in n["d"]:
                if d.get("i") is not None and d.get("i", -1) >= 0 or d.get("vk") not in (None, "local") or not scalar(P, d["t"]):
                    continue
                L = Uninit(P, S, f, d["v"], i)
                bad = L.run()
                if bad:
                    x, t = bad[0]
                    ctx.bad("local", "%s:%s" % (f.q, d["n"]), f.loc(x), "%s reads %s, which %s" % (
                        f.q, d["n"], "is set only if the call before succeeds, and that is not tested" if isinstance(t, tuple) else "has no value on some path"))
                else:
                    ctx.ok("local", sample="%s: %s" % (f.q, d["n"]))


def fields(P, ctx):
    W = Walk(P)
    byrec = {}
    for f in P.fns.values():
        if f.kind == "ctor" and own(f):
            byrec.setdefault(f.r.get("clsu"), []).append(f)
    for r in sorted(P.recs.values(), key=lambda r: r["q"]):
        if not r["file"].startswith("src/") or "/contrib/" in r["file"]:
            continue
        fs = [f for f in r["fields"] if f["cat"] in SCALAR]
        if not fs:
            continue
        for k in byrec.get(r["u"], ()):
            ws = W.writes(k, {"this": "A"}, "A")
            for fl in fs:
                if (r["q"], fl["n"]) in LATER:
                    continue
                if fl["v"] not in ws and "*" not in ws and not fl.get("ini"):
                    ctx.bad("field", "%s:%s" % (k.q, fl["n"]), "%s:%d" % (k.file, k.line), "%s leaves field %s without a value" % (k.q, fl["n"]))
                else:
                    ctx.ok("field", sample="%s: %s" % (k.q, fl["n"]))


# set by a union member of the same object
LATER = {("eckit::types::detail::Double", "i_"), ("eckit::types::detail::Float", "i_"),
         # static storage: zero before any constructor runs, and the flag must survive the constructor running after a first use
         ("eckit::StaticMutex", "exists_")}


def run(P, ctx):
    ctx.rule("field", "every constructor gives every scalar field a value on every path")
    ctx.rule("local", "no scalar local is read on a path on which nothing has set it")
    fields(P, ctx)
    locals_(P, ctx)
