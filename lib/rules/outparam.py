"""A look-up that reports success in its result sets its output exactly when it succeeds."""
from rules.oscall import peval, effective, truth
from rules.lockuse import subtree

# bool functions with an output that are no look-ups
NOT = {
    "eckit::BTree::insert": "updates a page", "eckit::CacheLRU::insert": "a cache's own bookkeeping",
    "eckit::DataHandle::compare": "compares two handles", "eckit::EasyCURLResponseImp::redirect": "",
    "eckit::Select::set": "", "eckit::TxnLog::exists": "", "eckit::codec::sfinae::encode_data": "encoder",
    "eckit::codec::sfinae::encode_metadata": "encoder", "eckit::isChild": "", "eckit::isParent": "",
    "eckit::sql::expression::SQLExpression::andSplit": "", "eckit::sql::expression::function::FunctionAND::andSplit": "",
    "eckit::sql::expression::function::FunctionEQ::equal": "", "eckit::sql::expression::function::FunctionNE::equal": "",
    "eckit::sql::expression::function::FunctionRLIKE::match": "", "openfam::mock::(anon)::openOrCreateShm": "mock",
    "eckit::spec::GeneratorT::match": "", "eckit::CmdResource::run": "a command", "eckit::Dispatcher::next": "hands out work, several outputs",
    "eckit::Exporter::nextDatabase": "asserts the tag, then tests it again", "eckit::Recycler::pop": "compares the count of items", "eckit::compress": "merges lists in place",
}


def outs(f):
    return [p for p in f.r.get("p", ()) if p["t"].endswith("&") and not p["t"].startswith("const ") and not p["t"].endswith("&&")
            and "(lambda" not in p["t"] and "stream" not in p["t"] and p["t"] != "eckit::Stream &"]


def involves(f, i, v):
    return any(f.n[x]["k"] == "ref" and f.n[x].get("v") == v or
               f.n[x]["k"] == "lambda" and any(c.get("v") == v for c in f.n[x].get("caps", ())) for x in subtree(f, i))


class Look:
    def __init__(self, P, f, v):
        self.P, self.f, self.v = P, f, v
        self.kills = {}          # element -> vars whose facts end

    def direct(self, i):
        f = self.f
        while f.n[i]["k"] in ("cast", "narrow", "definit"):
            i = f.n[i]["a"][0]
        return f.n[i]["k"] == "ref" and f.n[i].get("v") == self.v or \
            f.n[i]["k"] in ("idx", "mem") and self.direct(f.n[i]["a"][0] if f.n[i].get("a") else f.n[i]["b"])

    def event(self, e):
        """'set', 'pending' or None"""
        f, n = self.f, self.f.n[e]
        k = n["k"]
        if k == "assign":
            return "set" if self.direct(n["a"][0]) else None
        if k == "un" and n.get("op") in ("++", "--"):
            return "set" if self.direct(n["a"][0]) else None
        if k not in ("call", "ctor"):
            return None
        if n.get("o") is not None and n["o"] >= 0 and self.direct(n["o"]):
            return None if n.get("mc") else "set"
        for x, a in enumerate(n.get("a", ())):
            pm = (n.get("pm") or ["v"] * 99)[x:x + 1]
            m = f.n[a]
            if m["k"] == "lambda" and any(c.get("v") == self.v for c in m.get("caps", ())):
                return "pending" if n.get("t") == "bool" else "set"
            if pm == ["r"] and self.direct(a) or m["k"] == "un" and m.get("op") == "&" and self.direct(m["a"][0]) and pm == ["p"]:
                if k == "call" and n.get("t") == "bool":
                    return "pending"
                if k == "ctor" and not n.get("q", "").startswith("std::"):
                    return "set"
                return "set"
        return None

    def run(self):
        f = self.f
        bad = []
        start = (f.entry, 0, frozenset())
        seen, todo = set(), [start]
        while todo:
            st = todo.pop()
            if st in seen or len(seen) > 20000:
                continue
            seen.add(st)
            b, touch, facts = st
            blk = f.blocks[b]
            if b == f.exit:
                continue
            facts = dict(facts)
            stop = False
            for e in blk["e"]:
                n = f.n[e]
                facts.pop(e, None)
                if n["k"] == "throw" or n.get("q") in ("eckit::Assert", "eckit::Panic") or n.get("nr"):
                    stop = True
                    break
                ev = self.event(e)
                if ev == "set":
                    touch = 1
                elif ev == "pending" and touch == 0:
                    touch = ("p", e)
                elif ev == "pending" and isinstance(touch, tuple):
                    # several attempts: the earlier ones failed on this path, or it would have left
                    c = facts.get(touch[1])
                    if c == 1:
                        touch = 1
                    elif c == 0 or c is None:
                        touch = ("p", e)
                # what is written ends what was known
                if n["k"] == "assign" and f.n[n["a"][0]]["k"] == "ref":
                    v = f.n[n["a"][0]]["v"]
                    facts.pop(("v", v), None)
                    val = peval(f, n["a"][1], self.env(facts))
                    if isinstance(val, int):
                        facts[("v", v)] = int(bool(val))
                    elif isinstance(touch, tuple) and touch[1] in subtree(f, n["a"][1]) and self.same(n["a"][1], touch[1]):
                        facts[("is", v)] = touch[1]
                elif n["k"] == "decl":
                    for d in n["d"]:
                        if "i" in d and d.get("t") == "bool":
                            val = peval(f, d["i"], self.env(facts))
                            if isinstance(val, int):
                                facts[("v", d["v"])] = int(bool(val))
                            elif isinstance(touch, tuple) and self.same(d["i"], touch[1]):
                                facts[("is", d["v"])] = touch[1]
                elif n["k"] in ("call", "ctor"):
                    for x, a in enumerate(n.get("a", ())):
                        if f.n[a]["k"] == "ref" and (n.get("pm") or [""] * 99)[x:x + 1] in (["r"], ["p"]):
                            facts.pop(("v", f.n[a]["v"]), None)
                            facts.pop(("is", f.n[a]["v"]), None)
                elif n["k"] == "ret" and n.get("a"):
                    r = self.ret(n["a"][0], touch, facts)
                    if r:
                        bad.append((e, r))
                    stop = True
                    break
            if stop or blk.get("nr"):
                continue
            t = blk.get("t")
            ss = blk["s"]
            if t and t.get("c") is not None and len(ss) == 2 and t["k"] != "SwitchStmt":
                c = effective(f, t["c"])
                val = truth(peval(f, c, self.env(facts)))
                for j, s in enumerate(ss):
                    if s < 0 or (val is not None and val != (j == 0)):
                        continue
                    fx = dict(facts)
                    self.learn(c, int(j == 0), fx, touch)
                    tc = touch
                    if isinstance(touch, tuple) and fx.get(touch[1]) is not None:
                        tc = fx[touch[1]]
                        if tc == 0:
                            pass
                    todo.append((s, tc, frozenset(fx.items())))
            else:
                for s in ss:
                    if s >= 0:
                        todo.append((s, touch, frozenset(facts.items())))
        return bad

    def same(self, i, c):
        while self.f.n[i]["k"] in ("cast", "narrow", "definit"):
            i = self.f.n[i]["a"][0]
        return i == c

    def env(self, facts):
        env = {}
        for k, v in facts.items():
            if isinstance(k, int) or k[0] == "v":
                env[k] = v
        return env

    def learn(self, c, val, facts, touch):
        """the condition c came out as val"""
        f = self.f
        n = f.n[c]
        while n["k"] in ("cast", "narrow", "definit") or n["k"] == "un" and n.get("op") == "!":
            if n["k"] == "un":
                val = 1 - val
            c = n["a"][0]
            n = f.n[c]
        facts[c] = val
        if n["k"] == "ref" and n.get("vk") == "local":
            facts[("v", n["v"])] = val
            p = facts.get(("is", n["v"]))
            if p is not None:
                facts[p] = val
        if n["k"] == "bin" and n.get("op") in ("==", "!="):
            a, b = n["a"]
            for x, y in ((a, b), (b, a)):
                w = f.n[y].get("c")
                if w in ("0", "1") and f.n[x].get("t") == "bool":
                    self.learn(x, val if (w == "1") == (n["op"] == "==") else 1 - val, facts, touch)

    def ret(self, i, touch, facts):
        cases = [(touch, self.env(facts))]
        if isinstance(touch, tuple):
            c = touch[1]
            cases = []
            for v in (0, 1):
                if facts.get(c, v) != v:
                    continue
                env = self.env(facts)
                env[c] = v
                for k, p in facts.items():
                    if isinstance(k, tuple) and k[0] == "is" and p == c:
                        env[("v", k[1])] = v
                cases.append((v, env))
        for t, env in cases:
            r = truth(peval(self.f, i, env))
            if r is None:
                # set on this path, and the result does not say so (or the other way round)
                if t == 1:
                    return "sets its output but may report failure"
                return "may report success without setting its output" if not isinstance(touch, tuple) else None
            if r == 0 and t == 1:
                return "sets its output and then reports failure"
            if r == 1 and t == 0:
                return "reports success without setting its output"
        return None


def run(P, ctx):
    ctx.rule("set-iff-found", "a function that returns whether it found something has, on every path, assigned its output when it "
             "returns true and left it alone when it returns false")
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if f.r.get("rt") != "bool" or not f.file.startswith("src/") or f.q in NOT or "intersects" in f.q:
            continue
        if f.file.startswith("src/eckit/contrib"):
            continue
        for p in outs(f):
            if p["t"] == "bool &" and p["n"] == "missing":
                continue
            bad = Look(P, f, p["v"]).run()
            if not bad:
                ctx.ok("set-iff-found", 1, "%s:%d %s(%s)" % (f.file, f.line, f.q, p["t"]))
            for e, why in bad:
                ctx.bad("set-iff-found", "%s:%s:%s" % (f.q, p["t"].split("<")[0], p["n"]), f.loc(e), "%s(... %s %s) %s" % (f.q, p["t"][:40], p["n"], why))
    ctx.floor("set-iff-found", 120)
    ctx.rule("found-set", "a function with an output flag that says whether something was found assigns the flag on every path")
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        for p in f.r.get("p", ()):
            if p["t"] == "bool &" and p["n"] in ("found", "ok") and f.file.startswith("src/"):
                L = Look(P, f, p["v"])
                e = unset(L)
                if e is None:
                    ctx.ok("found-set", 1, "%s:%d %s" % (f.file, f.line, f.q))
                else:
                    ctx.bad("found-set", f.q, "%s:%s" % (f.file, e or f.line), "%s returns without setting %s" % (f.q, p["n"]))
    ctx.floor("found-set", 1)


def unset(L):
    f = L.f
    seen, todo = set(), [f.entry]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        stop = False
        for e in f.blocks[b]["e"]:
            n = f.n[e]
            if L.event(e) or n["k"] == "throw" or n.get("nr") or n.get("q") in ("eckit::Assert", "eckit::Panic"):
                stop = True
                break
            if n["k"] == "ret":
                return n.get("l")
        if not stop and not f.blocks[b].get("nr"):
            if b == f.exit:
                return 0
            todo += f.succs(b)
    return None
