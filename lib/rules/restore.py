"""What is begun is ended and what is changed for the time of a call is put back: structured output, the caller's streams, signal masks
and handlers, and the objects that do so at the end of a scope."""
import re
from collections import defaultdict
import engine
from rules.lockuse import subtree
from rules.resources import May

JS = "eckit::JSON"
OPEN = {"eckit::JSON::startObject": "object", "eckit::JSON::startList": "list", "eckit::Channel::indent": "indentation",
        "eckit::Stream::startObject": "object", "eckit::JavaAgent::startObject": "object", "eckit::_startObject": "object"}
CLOSE = {"eckit::JSON::endObject": "object", "eckit::JSON::endList": "list", "eckit::Channel::unindent": "indentation",
         "eckit::Stream::endObject": "object", "eckit::JavaAgent::endObject": "object", "eckit::_endObject": "object"}
DEEP = 9


class Paths:
    """follows the paths of a function with a state; a condition that is tested twice is taken the same way twice"""

    def __init__(self, P, f, may=None, cap=6000):
        self.P, self.f, self.may, self.cap = P, f, may, cap
        self.over = False
        self.skip = set()
        self.keys = {}
        count = defaultdict(int)
        for b in f.blocks.values():
            t = b.get("t")
            if t and t.get("c") is not None and t["c"] >= 0 and len(b["s"]) == 2:
                k = self.key(t["c"])
                if k:
                    self.keys[b["i"]] = k
                    count[k[0]] += 1
        self.keys = {b: k for b, k in self.keys.items() if count[k[0]] > 1}

    def key(self, i):
        """(text, variables, negated) of a condition that depends on nothing but unchanging variables"""
        f = self.f
        neg = False
        for _ in range(10):
            n = f.n[i]
            if n["k"] == "un" and n["op"] == "!":
                neg = not neg
                i = n["a"][0]
            elif n["k"] in ("cast", "narrow") and len(n.get("a", ())) == 1:
                i = n["a"][0]
            else:
                break
        s = self.text(i)
        if s is None:
            return None
        return s, frozenset(re.findall(r"\{(.*?)\}", s)), neg

    def text(self, i):
        f, n = self.f, self.f.n[i]
        k = n["k"]
        if k in ("cast", "narrow", "definit") and len(n.get("a", ())) == 1:
            return self.text(n["a"][0])
        if k == "ref":
            return "{%s}" % n["v"]
        if k == "mem":
            b = self.text(n["b"])
            return None if b is None else "%s.{%s}" % (b, n["v"])
        if k == "this":
            return "this"
        if "c" in n:
            return str(n["c"])
        if k in ("int", "null", "float"):
            return str(n.get("c"))
        if k == "bin" or k == "un" and n["op"] in ("!", "-", "*"):
            a = [self.text(x) for x in n["a"]]
            return None if None in a else "%s(%s)" % (n["op"], ",".join(a))
        if k == "call" and n.get("mc"):
            o = self.text(n["o"]) if isinstance(n.get("o"), int) and n["o"] >= 0 else "-"
            a = [self.text(x) for x in n.get("a", ())]
            return None if o is None or None in a else "%s.%s(%s)" % (o, n.get("q"), ",".join(a))
        return None

    def run(self, init, step):
        """states at normal ends and at ends by an exception"""
        f = self.f
        out, thrown = set(), set()
        seen = set()
        disp = f.dispatch_blocks()
        todo = [(f.entry, init, frozenset())]
        while todo:
            b, st, facts = todo.pop()
            if (b, st, facts) in seen:
                continue
            if len(seen) > self.cap:
                self.over = True
                return out, thrown
            seen.add((b, st, facts))
            blk = f.blocks[b]
            dead = False
            for e in blk["e"]:
                n = f.n[e]
                leaves = self.P.leaves(f, n)
                if self.may is not None and (n["k"] in ("call", "ctor", "throw") and self.may.node(f, n)) or n["k"] == "throw":
                    before = step(e, n, st, True)
                    d = disp.get(n.get("x"))
                    if d is None:
                        if before is not None:
                            thrown.add((before, e))
                    else:
                        if before is not None:
                            todo.append((d, before, facts))
                            if not (self.may or May(self.P)).caught(f, n):
                                thrown.add((before, e))
                if leaves:
                    dead = True
                    break
                st2 = step(e, n, st, False)
                if st2 is None:
                    dead = True
                    break
                st = st2
                if facts:
                    facts = self.forget(n, facts)
            if dead or blk.get("nr"):
                continue
            if b == f.exit:
                out.add(st)
                continue
            k = self.keys.get(b)
            for x, s in enumerate(blk["s"]):
                if s < 0 or s == f.exit and b in disp.values() or (b, x) in self.skip:
                    continue
                fs = facts
                if k:
                    val = (x == 0) != k[2]
                    known = dict(facts).get(k[0])
                    if known is not None and known != val:
                        continue
                    fs = facts | {(k[0], val)}
                todo.append((s, st, fs))
        return out, thrown

    def forget(self, n, facts):
        k = n["k"]
        f = self.f
        tgt = None
        if k == "assign" or k == "un" and n["op"] in ("++", "--"):
            tgt = f.n[n["a"][0]]
        elif k == "decl":
            names = {d["v"] for d in n["d"]}
            return frozenset(x for x in facts if not names & set(re.findall(r"\{(.*?)\}", x[0])))
        elif k == "call" and not n.get("mc"):
            names = set()
            for a in list(n.get("a", ())) + ([n["o"]] if isinstance(n.get("o"), int) and n["o"] >= 0 else []):
                m = f.n[a]
                if m["k"] == "un" and m["op"] == "&":
                    m = f.n[m["a"][0]]
                if m["k"] in ("ref", "mem") and not m.get("r"):
                    names.add(m["v"])
            if names:
                return frozenset(x for x in facts if not names & set(re.findall(r"\{(.*?)\}", x[0])))
            return facts
        if tgt is not None and tgt.get("v"):
            return frozenset(x for x in facts if tgt["v"] not in re.findall(r"\{(.*?)\}", x[0]))
        return facts


def run(P, ctx):
    L = engine.locks()
    may = May(P)
    ctx.rule("ended", "an object, list or indentation that is begun is ended in the same function, in the order in which they nest, on every path")
    ctx.rule("pairs", "in a JSON object every key has its value")
    ctx.rule("one-value", "what writes a thing to JSON writes exactly one value")
    ctx.rule("format", "what prints on a stream of its caller leaves the base, precision, float notation and fill of that stream as it found them")
    Ended(P, L, ctx).run()
    Format(P, L, ctx).run()
    ctx.rule("process", "signal masks, handlers, alarms, the umask and the directory that a call changes for itself are put back on every way out of it, exceptions included")
    ctx.rule("undo", "a count that is raised before something that can fail is lowered again when it fails")
    ctx.rule("guards", "an object that changes something for a scope saves what it found and puts exactly that back when it is destroyed")
    ctx.rule("scopes", "an object that works for a scope has a name: it does not end with the statement that makes it")
    ctx.rule("registered", "what enters itself in a registry takes itself out when it is destroyed")
    process(P, L, may, ctx)
    undo(P, L, may, ctx)
    guards(P, L, ctx)
    scopes(P, ctx)
    registered(P, L, ctx)


class Ended:
    def __init__(self, P, L, ctx):
        self.P, self.L, self.ctx = P, L, ctx
        self.memo = {}

    def run(self):
        P, ctx = self.P, self.ctx
        for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.q)):
            if not f.file.startswith("src/") or not f.blocks:
                continue
            if f.q in OPEN or f.q in CLOSE:
                continue
            roots = set()
            js = False
            for i, n in f.nodes_of("call"):
                q = n.get("q", "")
                if q in OPEN or q in CLOSE:
                    roots.add(self.root(f, self.recv(f, n)))
            for r in sorted(roots, key=str):
                self.fn(f, r)
            for x, p in enumerate(f.r.get("p", ())):
                if p["t"].replace("class ", "") in ("eckit::JSON &", "JSON &") and (f.name in ("json", "operator<<")) and not f.q.startswith("eckit::JSON::"):
                    out = self.counts(f, p["v"])
                    if out is None or not out:
                        continue
                    if 2 not in out:
                        ctx.ok("one-value")
                    else:
                        ctx.bad("one-value", f.q, f.loc(f.entry) if False else "%s:%s" % (f.file, f.line), "%s writes %s values to JSON" % (f.q, " or ".join(str(c) for c in sorted(out, key=str))))

    def recv(self, f, n):
        if isinstance(n.get("o"), int) and n["o"] >= 0:
            return n["o"]
        return n["a"][0] if n.get("a") else -1

    def root(self, f, i):
        for _ in range(40):
            if i < 0:
                return None
            n = f.n[i]
            if n["k"] in ("cast", "narrow", "definit") and len(n.get("a", ())) == 1:
                i = n["a"][0]
            elif n["k"] == "call" and (n.get("q", "").startswith(JS + "::") or n.get("op") == "<<"):
                i = self.recv(f, n)
            else:
                break
        return self.L.pf.path(f, i)

    def events(self, f, root):
        """node -> ('open'|'close'|'items', kind or number)"""
        ev = {}
        for i, n in f.nodes_of("call", "ctor"):
            q = n.get("q", "")
            if q in OPEN and self.root(f, self.recv(f, n)) == root:
                ev[i] = ("open", OPEN[q])
            elif q in CLOSE and self.root(f, self.recv(f, n)) == root:
                ev[i] = ("close", CLOSE[q])
            elif n["k"] == "call" and (q.startswith(JS + "::operator<<") or q == JS + "::null") and self.root(f, self.recv(f, n)) == root:
                ev[i] = ("items", 1)
            elif q in (JS + "::raw",) and self.root(f, self.recv(f, n)) == root:
                ev[i] = ("items", None)
            elif not q.startswith(JS + "::"):
                if any(self.captures(f, a, root) for a in n.get("a", ())):
                    ev[i] = ("items", None)
                for x, a in enumerate(n.get("a", ())):
                    if "eckit::JSON" in f.n[a].get("t", "") and self.root(f, a) == root:
                        ev[i] = ("items", self.passed(n, x))
        return ev

    def captures(self, f, a, root):
        return any(f.n[j]["k"] == "lambda" and "eckit::JSON" in str([m.get("t") for m in self.P.fns[f.n[j]["f"]].n] if f.n[j].get("f") in self.P.fns else "eckit::JSON")
                   for j in subtree(f, a))

    def passed(self, n, x):
        P = self.P
        gs = [P.fns[t] for t in P.targets(n) if t in P.fns]
        if not gs or n["k"] != "call":
            return None
        got = set()
        for g in gs:
            ps = g.r.get("p", ())
            if n.get("op") and len(ps) == len(n.get("a", ())) - 1:
                x -= 1
            if x >= len(ps) or not g.blocks:
                if P.leaves(g, n):
                    continue
                return None
            c = self.counts(g, ps[x]["v"])
            if c is None:
                return None
            got |= c
        return 1 if got == {1} else 0 if got == {0} else None

    def counts(self, f, v):
        """numbers of values function f writes to its parameter v"""
        key = (f.u, v)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {1}        # assumed of a function that calls itself
        root = ("v:" + v,) if not v.startswith("v:") else (v,)
        for i, n in f.nodes_of("ref"):
            if n.get("v") == v:
                root = self.L.pf.path(f, i)
                break
        out = self.walk(f, root, quiet=True)
        if out is None or any(len(s) != 1 for s in out):
            self.memo[key] = None
            return None
        got = {s[0][1] for s in out}
        self.memo[key] = None if None in got else got
        return self.memo[key]

    def walk(self, f, root, quiet=False):
        ev = self.events(f, root)
        bad = {}

        def step(e, n, st, thrown):
            if thrown:
                return None
            x = ev.get(e)
            if x is None:
                return st
            top = st[-1]
            if x[0] == "open":
                if len(st) >= DEEP:
                    bad.setdefault(("grows", e), x[1])
                    return None
                return st + ((x[1], 0, e),)
            if x[0] == "close":
                if len(st) == 1 or top[0] != x[1]:
                    bad.setdefault(("order", e), "%s is ended where %s" % (x[1], "nothing is open" if len(st) == 1 else top[0] + " was begun last"))
                    return None
                if top[0] == "object" and top[1] is not None and top[1] % 2:
                    bad.setdefault(("pairs", e), x[1])
                return st[:-2] + (add(st[-2], 1),)
            return st[:-1] + (add(top, x[1]),)

        def add(fr, k):
            if k is None or fr[1] is None:
                return (fr[0], None, fr[2])
            if fr[0] == "root":
                return (fr[0], min(fr[1] + k, 2), fr[2])
            return (fr[0], (fr[1] + k) % 2, fr[2])

        p = Paths(self.P, f)
        out, _ = p.run((("root", 0, -1),), step)
        self.bad = bad
        self.nev = len(ev)
        if p.over:
            return None
        if quiet:
            return None if any(k[0] != "pairs" for k in bad) else out
        return out

    def fn(self, f, root):
        ctx = self.ctx
        if f.kind in ("ctor", "dtor") and len([1 for i, n in f.nodes_of("call") if n.get("q", "") in OPEN or n.get("q", "") in CLOSE]) == 1:
            return
        out = self.walk(f, root)
        bad = self.bad
        if out is None:
            ctx.note("%s: too many paths" % f.q)
            return
        n = 0
        for (what, e), s in sorted(bad.items()):
            n += 1
            if what == "pairs":
                ctx.bad("pairs", "%s:%s" % (f.q, e if False else "object"), f.loc(e), "%s ends a JSON object that has a key without a value" % f.q)
            else:
                ctx.bad("ended", "%s:%s" % (f.q, what), f.loc(e), "%s: %s" % (f.q, s if what == "order" else "%s begun in a loop is not ended in it" % s))
        for st in out:
            for fr in st[1:]:
                n += 1
                ctx.bad("ended", "%s:%s" % (f.q, fr[0]), f.loc(fr[2]), "%s: the %s begun here is not ended on some path" % (f.q, fr[0]))
        if not n:
            ctx.ok("ended", sum(1 for e in f.n if e["k"] == "call" and e.get("q", "") in OPEN))
            ctx.ok("pairs", sum(1 for e in f.n if e["k"] == "call" and e.get("q", "") == JS + "::startObject"))


BASE = {"std::hex": "base", "std::oct": "base", "std::setbase": "base", "std::fixed": "float notation", "std::scientific": "float notation",
        "std::hexfloat": "float notation", "std::boolalpha": "boolalpha", "std::uppercase": "case", "std::setfill": "fill", "std::setprecision": "precision"}
RESETS = {"std::dec": "base", "std::defaultfloat": "float notation", "std::noboolalpha": "boolalpha", "std::nouppercase": "case"}
ATTRS = {"fill": "fill", "precision": "precision", "flags": "flags", "setf": "flags", "unsetf": "flags", "imbue": "locale"}
SAVES = {"fill": "fill", "precision": "precision", "flags": "flags", "setf": "flags", "getloc": "locale"}
FLAGS = {"base", "float notation", "boolalpha", "case", "flags"}
# functions whose purpose is to set the format of the stream they are given
SETTERS = {"eckit::JSON::precision": "documented to work like std::setprecision"}


class Format:
    def __init__(self, P, L, ctx):
        self.P, self.L, self.ctx = P, L, ctx

    def run(self):
        P, ctx = self.P, self.ctx
        for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.q)):
            if not f.file.startswith("src/eckit/") or not f.blocks or f.q in SETTERS:
                continue
            ev, roots = self.events(f)
            for r in sorted(roots, key=str):
                self.check(f, r, ev)

    def stream(self, f, i):
        """the stream expression i stands for, or None for one of the function's own"""
        for _ in range(60):
            n = f.n[i]
            if n["k"] in ("cast", "narrow", "definit") and len(n.get("a", ())) == 1:
                i = n["a"][0]
            elif n["k"] == "un" and n["op"] in ("*", "&"):
                i = n["a"][0]
            elif n["k"] == "call" and n.get("op") == "<<" or n["k"] == "call" and n.get("q", "").endswith("operator<<"):
                i = n["o"] if isinstance(n.get("o"), int) and n["o"] >= 0 else n["a"][0]
            else:
                break
        n = f.n[i]
        if n["k"] == "call":
            return ("call", n.get("q", "")) if n.get("q", "").startswith("eckit::") and n.get("t", "").endswith("&") else None
        if n["k"] == "ref":
            if n.get("vk") in ("local",) and not n.get("isref") and "*" not in n.get("t", ""):
                return None
            v = [p for p in f.r.get("p", ()) if p["v"] == n["v"]]
            if v and not re.search(r"[&*]$", v[0]["t"]):
                return None
            return ("v", n["v"])
        if n["k"] == "mem":
            rec = None
            for r in self.P.recs.values():
                if any(fl["v"] == n["v"] for fl in r["fields"]):
                    rec = [fl for fl in r["fields"] if fl["v"] == n["v"]][0]
                    break
            if rec is None or not re.search(r"[&*]$", rec["t"]):
                return None
            return None         # given to the object for its own use when it was made
        return None

    def saved(self, f, i, get):
        """expression i is a local that was set from what the stream's getter or setter returned"""
        for _ in range(6):
            n = f.n[i]
            if n["k"] in ("cast", "narrow", "definit", "ctor") and len(n.get("a", ())) == 1:
                i = n["a"][0]
            else:
                break
        n = f.n[i]
        if n["k"] == "call" and n.get("q", "").split("::")[-1] in get:
            return "call"
        if n["k"] in ("ref", "mem"):
            for v, i in self.given(f):
                if v == n.get("v"):
                    return v if any(f.n[k]["k"] == "call" and f.n[k].get("q", "").split("::")[-1] in get and "ios" in f.n[k]["q"] for k in subtree(f, i)) else None
            return "member" if n["k"] == "mem" else None
        return None

    def given(self, f):
        """(variable, expression) of each local of f that is given a value"""
        for j, d in f.nodes_of("decl"):
            for x in d["d"]:
                if isinstance(x.get("i"), int) and x["i"] >= 0:
                    yield x["v"], x["i"]
        for j, n in f.nodes_of("assign"):
            if n.get("op") == "=" and f.n[n["a"][0]]["k"] == "ref":
                yield f.n[n["a"][0]].get("v"), n["a"][1]

    def events(self, f):
        ev, roots = {}, set()

        def put(e, r, x):
            if r is not None:
                ev.setdefault(e, []).append((r,) + x)
                roots.add(r)
        for i, n in f.nodes_of("call"):
            q = n.get("q", "")
            last = q.split("::")[-1]
            if last == "operator<<" and n.get("a"):
                a = n["a"][-1]
                for _ in range(4):
                    if f.n[a]["k"] in ("cast", "narrow", "definit", "un", "ctor") and len(f.n[a].get("a", ())) == 1:
                        a = f.n[a]["a"][0]
                m = f.n[a]
                mq = m.get("q", "")
                r = None
                if m["k"] == "fref" and (mq in BASE or mq in RESETS) or m["k"] == "call" and (mq in BASE or mq in RESETS):
                    r = self.stream(f, i)
                if r is None:
                    continue
                if mq in RESETS:
                    put(i, r, ("back", RESETS[mq]))
                elif mq == "std::setfill" and str(f.n[m["a"][0]].get("c")) == "32":
                    put(i, r, ("back", "fill"))
                elif mq in ("std::setfill", "std::setprecision") and self.saved(f, m["a"][0], ("fill", "precision")):
                    put(i, r, ("back", BASE[mq], self.saved(f, m["a"][0], ("fill", "precision"))))
                else:
                    put(i, r, ("set", BASE[mq]))
            elif last in ATTRS and ("std::basic_ios" in q or "std::ios_base" in q) and n.get("a"):
                r = self.stream(f, n["o"])
                back = last in ("fill", "precision", "flags", "imbue") and self.saved(f, n["a"][0], (last, "setf", "getloc"))
                put(i, r, ("back", ATTRS[last], back) if back else ("set", ATTRS[last]))
            elif q in BASE or q in RESETS:
                if n.get("a") and f.n[n["a"][0]].get("t", "").endswith("&"):
                    r = self.stream(f, n["a"][0])
                    put(i, r, ("set", BASE[q]) if q in BASE else ("back", RESETS[q]))
        for v, x in self.given(f):
            for k in subtree(f, x):
                n = f.n[k]
                last = n.get("q", "").split("::")[-1]
                if n["k"] == "call" and last in SAVES and ("std::basic_ios" in n["q"] or "std::ios_base" in n["q"]):
                    r = self.stream(f, n["o"])
                    if r is not None:
                        ev.setdefault(k, []).insert(0, (r, "save", SAVES[last], v))
        return ev, roots

    def helper(self, f, r, left):
        """a helper of one class: what it leaves is put back by each function that calls it"""
        if r[0] != "v" or not (f.r.get("acc") == 2 or f.r.get("internal")):
            return False
        sites = [(g, c) for g, c in self.P.callers().get(f.u, ()) if g.u != f.u]
        for g, c in sites:
            ev, _ = self.events(g)
            for a in g.n[c].get("a", ()):
                s = self.stream(g, a)
                if s is None:
                    continue
                ev.setdefault(c, []).extend((s, "set", x) for x in left)
                self.check(g, s, ev)
        return bool(sites)

    def check(self, f, r, ev):
        first = {}

        def step(e, n, st, thrown):
            if thrown:
                return None
            for x in ev.get(e, ()):
                if x[0] != r:
                    continue
                if x[1] == "set":
                    st = st | {x[2]}
                    first.setdefault(x[2], e)
                elif x[1] == "save":
                    # what is saved after it was changed is not what was found
                    dirty = st & FLAGS if x[2] == "flags" else st & {x[2]}
                    st = (st | {("late", x[3])}) if dirty else st - {("late", x[3])}
                elif len(x) > 3 and ("late", x[3]) in st:
                    continue
                else:
                    st = st - (FLAGS if x[2] == "flags" else {x[2]})
            return st
        p = Paths(self.P, f)
        out, _ = p.run(frozenset(), step)
        left = {a for st in out for a in st if isinstance(a, str)}
        if left and self.helper(f, r, left):
            return
        for a in sorted(left):
            self.ctx.bad("format", "%s:%s" % (f.q, a), f.loc(first[a]), "%s leaves the %s of its caller's stream changed" % (f.q, a))
        if not left:
            self.ctx.ok("format")


# -- signal masks, handlers, alarms, umask, directory

# functions that are where a thread starts: its mask is theirs to set
THREADS = {"eckit::ThreadControler::execute": "the mask of the thread it starts", "eckit::(anon)::ChildReaper::run": "its own thread"}


def const(f, i):
    n = f.n[i]
    while n["k"] in ("cast", "narrow") and len(n.get("a", ())) == 1:
        n = f.n[n["a"][0]]
    return n.get("c")


def isnull(f, i):
    n = f.n[i]
    while n["k"] in ("cast", "narrow") and len(n.get("a", ())) == 1:
        n = f.n[n["a"][0]]
    return n["k"] == "null" or n.get("c") == "0"


def local(f, i):
    """the local variable expression i names, if any"""
    for _ in range(6):
        n = f.n[i]
        if n["k"] in ("cast", "narrow", "definit") or n["k"] == "un" and n["op"] in ("&", "*"):
            i = n["a"][0]
        elif n["k"] == "idx":
            i = n["a"][0]
        else:
            break
    n = f.n[i]
    return n["v"] if n["k"] == "ref" and n.get("vk") in ("local", "param") else None


def kept(f, i):
    """the local variable the result of call i is kept in"""
    cur = i
    for _ in range(5):
        ps = f.parents().get(cur, ())
        if not ps:
            return None
        m = f.n[ps[0]]
        if m["k"] == "assign" and m["a"][1] == cur:
            return local(f, m["a"][0])
        if m["k"] == "decl":
            return next((d["v"] for d in m["d"] if d.get("i") == cur), None)
        if m["k"] not in ("cast", "narrow", "init", "initlist", "definit"):
            return None
        cur = ps[0]
    return None


def handlers(P, f, n):
    """functions of the library installed as handlers by call n"""
    return [P.fns[f.n[j]["f"]] for a in n.get("a", ()) for j in subtree(f, a) if f.n[j]["k"] == "fref" and f.n[j].get("f") in P.fns]


def declared(f, v):
    ds = [d for _, n in f.nodes_of("decl") for d in n["d"] if d["v"] == v]
    return bool(ds) and not any("&" in d.get("t", "") for d in ds)


def process_events(f):
    ev = {}
    saved = defaultdict(set)
    for i, n in f.nodes_of("call"):
        q = n.get("q", "").lstrip(":")
        if q == "getcwd" and n.get("a"):
            saved["directory"].add(local(f, n["a"][0]) or kept(f, i))
            saved["getcwd"].add(i)
    for i, n in f.nodes_of("call"):
        q = n.get("q", "").lstrip(":")
        a = n.get("a", ())
        if q in ("pthread_sigmask", "sigprocmask") and len(a) == 3:
            ev[i] = ("set" if const(f, a[0]) == "0" else "back", "signal mask")
            if const(f, a[0]) == "2" and not isnull(f, a[2]):
                ev[i] = ("set", "signal mask")
        elif q == "signal" and len(a) == 2:
            if kept(f, i):
                ev[i] = ("set", "signal handler")
            elif local(f, a[1]) and not any(p["v"] == local(f, a[1]) for p in f.r.get("p", ())):
                ev[i] = ("back", "signal handler")
        elif q == "sigaction" and len(a) == 3:
            if not isnull(f, a[1]) and local(f, a[2]) and declared(f, local(f, a[2])):
                ev[i] = ("set", "signal handler")
            elif not isnull(f, a[1]):
                ev[i] = ("back", "signal handler")
        elif q == "alarm" and a:
            ev[i] = ("back", "alarm") if const(f, a[0]) == "0" else ("set", "alarm")
        elif q == "umask" and a:
            if kept(f, i):
                ev[i] = ("set", "umask")
            elif local(f, a[0]):
                ev[i] = ("back", "umask")
        elif q in ("chdir", "fchdir") and a and any(f.dominates(g, i) for g in saved["getcwd"]):
            ev[i] = ("back" if local(f, a[0]) in saved["directory"] else "set", "directory")
    return ev


def process(P, L, may, ctx):
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.file.startswith("src/eckit/") or not f.blocks or f.kind in ("ctor", "dtor"):
            continue
        ev = process_events(f)
        for i, n in f.nodes_of("call"):
            if n.get("q", "").lstrip(":") in ("signal", "sigaction"):
                for h in handlers(P, f, n):
                    j = [x for x, c in h.nodes_of("call") if c.get("q", "").lstrip(":") in ("longjmp", "_longjmp")]
                    s = [x for g in P.fns.values() if g.file == h.file for x, c in g.nodes_of("call") if c.get("q", "").lstrip(":") in ("setjmp", "_setjmp", "__sigsetjmp", "sigsetjmp")
                         and (len(c.get("a", ())) < 2 or const(g, c["a"][1]) == "0")]
                    if j or s and any(c.get("q", "").lstrip(":") == "siglongjmp" for _, c in h.nodes_of("call")):
                        ctx.bad("process", "%s:jump" % h.q, "%s:%s" % (h.file, h.line), "%s jumps out of a signal handler without putting the signal mask back: the signal stays blocked" % h.q)
                    else:
                        ctx.ok("process", 1, "handler " + h.q)
        if not ev:
            continue
        if f.q in THREADS:
            ctx.note("%s: %s" % (f.q, THREADS[f.q]))
            continue
        if not any(x[0] == "set" for x in ev.values()):
            continue
        jumps = [i for i, n in f.nodes_of("call") if n.get("q", "").lstrip(":") in ("setjmp", "_setjmp", "sigsetjmp", "__sigsetjmp")]
        where = {}
        bad = set()

        def step(e, n, st, thrown):
            x = ev.get(e)
            if x and not thrown:
                if x[0] == "set":
                    where.setdefault(x[1], e)
                    if x[1] == "alarm" and False:
                        pass
                    return st | {x[1]}
                if x[1] == "signal handler" and "alarm" in st:
                    bad.add(("the handler of the alarm is put back while the alarm can still go off", e))
                return st - {x[1]}
            return st
        p = Paths(P, f, may)
        out, thrown = p.run(frozenset(), step)
        ends = [(s, None) for s in out] + list(thrown)
        if jumps:       # a jump out of the handler comes back here with everything set that was set
            full = frozenset(x[1] for x in ev.values() if x[0] == "set" and x[1] != "alarm")
            for b in f.blocks.values():
                t = b.get("t")
                if not t or t.get("c") is None or t["c"] < 0 or not any(j in subtree(f, t["c"]) for j in jumps):
                    continue
                n = f.n[t["c"]]
                back = 1 if n["k"] == "bin" and n["op"] == "==" else 0
                q = Paths(P, f, may)
                q.f = f
                o2, t2 = from_block(q, b["s"][back], full, step)
                ends += [(s, None) for s in o2] + list(t2)
        n = 0
        for st, e in ends:
            for a in st:
                key = "%s:%s" % (f.q, a)
                how = "" if e is None else " when %s fails" % (f.n[e].get("q") or "an exception is thrown")
                bad.add(("the %s changed here is not put back on some path%s" % (a, how if f.n[e]["k"] != "throw" else " that throws") if e is not None else "the %s changed here is not put back on some path" % a, where.get(a, e)))
        for msg, e in sorted(bad, key=str):
            n += 1
            ctx.bad("process", "%s:%s" % (f.q, msg.split(" changed")[0].replace("the ", "", 1)), f.loc(e) if e is not None else "%s:%s" % (f.file, f.line), "%s: %s" % (f.q, msg))
        if not n:
            ctx.ok("process", sum(1 for x in ev.values() if x[0] == "set"), f.q)


def from_block(p, b, st, step):
    f = p.f
    old = f.entry
    try:
        f.entry = b
        return p.run(st, step)
    finally:
        f.entry = old


# -- counts raised before what can fail

def undo(P, L, may, ctx):
    ways = defaultdict(set)         # member -> the ways its class counts it
    for f in P.fns.values():
        if f.file.startswith("src/eckit/"):
            for i, n in f.nodes_of("un"):
                m = f.n[n["a"][0]]
                if n["op"] in ("++", "--") and m["k"] == "mem" and f.n[m["b"]]["k"] == "this":
                    ways[m["v"]].add(n["op"])
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.file.startswith("src/eckit/") or not f.blocks or f.kind in ("ctor", "dtor"):
            continue
        per = defaultdict(dict)
        for i, n in f.nodes_of("un", "assign"):
            if n["k"] == "un" and n["op"] in ("++", "--") or n["k"] == "assign" and n["op"] in ("+=", "-="):
                m = f.n[n["a"][0]]
                if m["k"] == "mem" and f.n[m["b"]]["k"] == "this":
                    per[m["v"]][i] = 1 if n["op"][0] == "+" else -1
        for v, ev in per.items():
            if len(set(ev.values())) < 2 and not (len(ways[v]) == 2 and all(f.n[i]["k"] == "un" for i in ev)):
                continue
            p = Paths(P, f, may)

            def step(e, n, st, thrown):
                return st + ev[e] if e in ev and not thrown and abs(st) < 3 else st
            out, thrown = p.run(0, step)
            both = len(set(ev.values())) == 2       # otherwise what undoes it is another function's: only its own throws count
            left = [(s, e) for s, e in thrown if s and (both or f.n[e]["k"] == "throw")]
            name = next((f.n[f.n[i]["a"][0]]["n"] for i in ev), v)
            # a loop that adds one at a time keeps those it has added
            loop = any(e for e in ev) and len({s for s, _ in thrown}) > 2
            if left and not loop:
                ctx.bad("undo", "%s:%s" % (f.q, name), f.loc(left[0][1]), "%s: %s stays changed when this fails" % (f.q, name))
            else:
                ctx.ok("undo", 1, "%s %s" % (f.q, name))


# -- objects for a scope

# class -> [(what the constructor calls or None, what the destructor calls, the member it puts back, a constant, or None)]
GUARDS = {
    "eckit::AutoUmask": [("umask", "umask", "umask_")],
    "eckit::AutoAlarm": [(None, "alarm", 0), ("signal", "signal", "old_")],
    "eckit::AutoState": [("eckit::Monitor::state", "eckit::Monitor::state", "old_")],
    "eckit::AutoIndent": [("eckit::Channel::indent", "eckit::Channel::unindent", None)],
    "eckit::net::AutoMemoize": [("eckit::net::Connector::memoize", "eckit::net::Connector::memoize", 0)],
    "eckit::AutoTiming": [("eckit::Statistics::timer", "eckit::Timing::operator+=", None)],
    "eckit::SavedStatus": [("eckit::Monitor::status", "eckit::Monitor::status", "status_")],
    "eckit::Progress": [("eckit::Monitor::progress", "eckit::Monitor::progress", None)],
    "eckit::SignalHandler": [("sigaction", "sigaction", "save_")],
    "eckit::YAMLItemLock": [("eckit::YAMLItemLock::set", "eckit::YAMLItemLock::set", 0)],
    "eckit::codec::Session": [("eckit::codec::ActiveSession::push", "eckit::codec::ActiveSession::pop", None)],
    "eckit::MetricsGroup": [("eckit::MetricsCollector::pushGroup", "eckit::MetricsCollector::item", None, "current_"),
                            ("eckit::MetricsCollector::pushGroup", "eckit::MetricsCollector::pop", None, "current_")],
    "eckit::MetricsPrefix": [("eckit::MetricsCollector::push", "eckit::MetricsCollector::pop", None, "current_")],
    "eckit::MetricsGroupItem": [("eckit::MetricsCollector::item", "eckit::MetricsCollector::item", None, "current_")],
    "eckit::AutoCloser": [(None, r"close", None)],
}
# members saved and put back by assignment: class -> {member: what it is saved from}
SAVED = {"eckit::AutoAlarm": {"saveThrow_": "throw_", "saveSec_": "sec_"}, "eckit::SignalHandler": {"next_": "current_"}}


def every(P, f, hit, unless=None):
    """a node of hit is on every normal path (but where the pointer named unless is null)"""
    p = Paths(P, f)
    for b in f.blocks.values():
        t = b.get("t")
        if unless and t and t.get("c") is not None and t["c"] >= 0 and len(b["s"]) == 2:
            n, neg = f.n[t["c"]], False
            i = t["c"]
            while n["k"] in ("cast", "narrow") or n["k"] == "un" and n["op"] == "!":
                neg ^= n["k"] == "un"
                i = n["a"][0]
                n = f.n[i]
            if n["k"] == "bin" and n["op"] in ("==", "!=") and isnull(f, n["a"][1]):
                neg ^= n["op"] == "=="
                i = n["a"][0]
            if member(f, i) == unless:
                p.skip.add((b["i"], 0 if neg else 1))
    out, _ = p.run(False, lambda e, n, st, thrown: None if thrown else st or e in hit)
    return bool(out) and all(out)


def fname(q):
    return q.lstrip(":")


def guards(P, L, ctx):
    for cls, want in sorted(GUARDS.items()):
        rs = [r for r in P.recs.values() if r["q"] == cls]
        n = 0
        for r in rs:
            ds = [P.fns[m["u"]] for m in r["methods"] if m["n"].startswith("~") and m["u"] in P.fns]
            cs = [f for f in P.fns.values() if f.r.get("clsu") == r["u"] and f.kind == "ctor" and not f.r.get("implicit")]
            # a member that goes by another name now is not looked for
            has = {x["n"] for x in r["fields"]} | {v["q"].split("::")[-1] for v in P.vars.values() if v["q"].startswith(cls + "::")} | \
                  {v["q"].split("::")[-1] for v in P.vars.values() if any(v.get("f", v.get("file")) == d.file for d in ds)}
            mine = [x if not isinstance(x[2], str) or x[2] in has else (x[0], x[1], None) + tuple(x[3:]) for x in want]
            kept = {k: o for k, o in SAVED.get(cls, {}).items() if k in has and o in has}
            if not ds:
                if cs or any(not m["n"].startswith("~") for m in r["methods"]):
                    if not r.get("inst") and not any(m["n"].startswith("~") for m in r["methods"]):
                        ctx.bad("guards", "%s:dtor" % cls, "%s:%s" % (r["file"], r["l"]), "%s has no destructor of its own: nothing is put back" % cls)
                continue
            for d in ds:
                for make, undo_, what, *unless in mine:
                    hit = set()
                    for i, c in d.nodes_of("call"):
                        q = fname(c.get("q", ""))
                        if q == undo_ or undo_ == "close" and q.split("::")[-1] == "close":
                            if what is None or puts(d, c, what):
                                hit.add(i)
                    if every(P, d, hit, *unless):
                        n += 1
                        ctx.ok("guards", 1, "%s: %s" % (cls, undo_))
                    else:
                        ctx.bad("guards", "%s:%s" % (cls, undo_), "%s:%s" % (d.file, d.line), "%s: the destructor does not put back %s with %s on every path" % (cls, what if isinstance(what, str) else "what was changed", undo_))
                for keep, of in kept.items():
                    hit = {i for i, a in d.nodes_of("assign") if member(d, a["a"][0]) == of and member(d, a["a"][1]) == keep}
                    if every(P, d, hit):
                        ctx.ok("guards", 1, "%s: %s" % (cls, of))
                    else:
                        ctx.bad("guards", "%s:%s" % (cls, of), "%s:%s" % (d.file, d.line), "%s: the destructor does not put back %s on every path" % (cls, of))
                if cls == "eckit::AutoAlarm":
                    pos = [fname(c.get("q", "")) for e in order(d) for c in [d.n[e]] if c["k"] == "call"]
                    if "alarm" in pos and "signal" in pos and pos.index("alarm") > pos.index("signal"):
                        ctx.bad("guards", cls + ":order", "%s:%s" % (d.file, d.line), "%s puts the handler back while the alarm can still go off" % cls)
                    else:
                        ctx.ok("guards", 1, cls + ": alarm before handler")
            for c in cs:
                for make, undo_, what, *unless in mine:
                    if make is None:
                        continue
                    hit = {i for i, x in c.nodes_of("call") if fname(x.get("q", "")) == make}
                    # the value saved is the one that was found
                    if isinstance(what, str) and make != "sigaction":
                        hit = {i for i in hit if stores(c, i, what)}
                    if isinstance(what, str) and make == "sigaction":
                        hit = {i for i in hit if member(c, c.n[i]["a"][2]) == what}
                    if every(P, c, hit, *unless):
                        ctx.ok("guards")
                    else:
                        ctx.bad("guards", "%s:saves" % cls, "%s:%s" % (c.file, c.line), "%s: the constructor does not %s" % (cls, "save in %s what %s found" % (what, make) if isinstance(what, str) else "call %s" % make))
                for keep, of in kept.items():
                    saves = [i for i, a in c.nodes_of("assign", "init") if (member(c, a["a"][0]) == keep and member(c, a["a"][1]) == of if a["k"] == "assign"
                                                                            else a.get("n") == keep and a.get("a") and member(c, a["a"][0]) == of)]
                    changes = [i for i, a in c.nodes_of("assign") if member(c, a["a"][0]) == of]
                    if saves and all(c.dominates(saves[0], x) for x in changes):
                        ctx.ok("guards")
                    else:
                        ctx.bad("guards", "%s:%s" % (cls, keep), "%s:%s" % (c.file, c.line), "%s: the constructor does not save %s before changing it" % (cls, of))
        if not rs or not n:
            ctx.note("%s: not found" % cls)
    ctx.floor("guards", 25)


def order(f):
    """elements of a function in the order of its blocks from the entry"""
    seen, out, todo = set(), [], [f.entry]
    while todo:
        b = todo.pop(0)
        if b in seen or b < 0:
            continue
        seen.add(b)
        out += f.blocks[b]["e"]
        todo += f.blocks[b]["s"]
    return out


def member(f, i):
    for _ in range(8):
        n = f.n[i]
        if n["k"] in ("cast", "narrow", "definit") or n["k"] == "un" and n["op"] in ("&", "*") or n["k"] == "ctor" and len(n.get("a", ())) == 1:
            i = n["a"][0]
        else:
            break
    n = f.n[i]
    return n.get("n", "").split("::")[-1] if n["k"] in ("mem", "ref") else None


def puts(f, c, what):
    for a in c.get("a", ()):
        if isinstance(what, str) and member(f, a) == what:
            return True
        if what == 0 and (const(f, a) in ("0", "false") or isnull(f, a)):
            return True
    return False


def stores(f, i, name):
    cur = i
    for _ in range(6):
        ps = f.parents().get(cur, ())
        if not ps:
            return False
        m = f.n[ps[0]]
        if m["k"] == "init":
            return m.get("n") == name
        if m["k"] == "assign":
            return member(f, m["a"][0]) == name
        cur = ps[0]
    return False


def scopes(P, ctx):
    names = set(GUARDS) | {"eckit::AutoClose", "eckit::AutoLock", "eckit::AutoSharedLock", "eckit::TimedAutoLock", "eckit::AutoLockTag", "eckit::AutoStdFile",
                           "eckit::AutoStdPipe", "eckit::HandleHolder", "std::lock_guard", "std::unique_lock", "std::scoped_lock", "eckit::TraceTimer",
                           "eckit::TraceResourceUsage"}
    seen = set()
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.file.startswith("src/"):
            continue
        for i, n in f.nodes_of("ctor"):
            c = (n.get("cls") or n.get("q", "")).split("<")[0]
            if c not in names:
                c = re.sub(r"::[^:]*$", "", n.get("q", "")).split("<")[0]
            if c not in names:
                continue
            cur, what = i, None
            for _ in range(6):
                ps = f.parents().get(cur, ())
                if not ps:
                    what = "statement"
                    break
                m = f.n[ps[0]]
                if m["k"] in ("decl", "init", "new", "ret", "initlist", "call", "ctor", "assign"):
                    break
                cur = ps[0]
            if what:
                ctx.bad("scopes", "%s:%s" % (f.q, c), f.loc(i), "%s: this %s has no name: it ends with its statement, and protects nothing after it" % (f.q, c))
            elif (f.file, n.get("l")) not in seen:
                seen.add((f.file, n.get("l")))
                ctx.ok("scopes")
    ctx.floor("scopes", 150)


# -- registries

# class -> (what its constructor calls with itself, what its destructor calls)
PAIRS = {
    "eckit::ResourceBase": ("eckit::Configurable::add", "eckit::Configurable::remove"),
    "eckit::PathNameBuilderBase": ("eckit::PathNameFactoryImpl::enregister", "eckit::PathNameFactoryImpl::deregister"),
    "eckit::URIManager": ("eckit::URIManagerRegistry::enregister", "eckit::URIManagerRegistry::deregister"),
    "eckit::PooledFile": ("eckit::PoolFileEntry::add", "eckit::PoolFileEntry::remove"),
    "eckit::PooledHandle": ("eckit::PoolHandleEntry::add", "eckit::PoolHandleEntry::remove"),
    "eckit::message::SplitterBuilderBase": ("eckit::message::SplitterFactory::enregister", "eckit::message::SplitterFactory::deregister"),
    "eckit::message::MessageDecoder": ("std::vector::push_back", "std::vector::erase"),
    "eckit::mpi::CommFactory": ("eckit::mpi::CommFactories::registFactory", "eckit::mpi::CommFactories::unregistFactory"),
    "eckit::sql::SQLTableFactoryBase": ("eckit::sql::SQLTableFactory::enregister", "eckit::sql::SQLTableFactory::deregister"),
    "eckit::sql::expression::function::FunctionBuilderBase": ("eckit::sql::expression::function::FunctionFactory::enregister", "eckit::sql::expression::function::FunctionFactory::deregister"),
    "eckit::CompressorBuilderBase": ("eckit::CompressorFactory::add", "eckit::CompressorFactory::remove"),
    "eckit::HashBuilderBase": ("eckit::HashFactory::add", "eckit::HashFactory::remove"),
    "eckit::HttpResource": ("eckit::HttpResourceRegistry::enregister", "eckit::HttpResourceRegistry::deregister"),
    "eckit::ClassExtent": ("std::map::operator[]", "std::map::erase"),
}
ENTERS = re.compile(r"::(add|enregister|regist\w*|register\w*|push_back|emplace_back|insert|emplace|attach)$")
# never destroyed before the program ends
FOREVER = {
    "eckit::ConcreteBuilderT0": "static objects", "eckit::ConcreteBuilderT1": "static objects", "eckit::ConcreteBuilderT2": "static objects",
    "eckit::spec::ConcreteSpecGeneratorT0": "never deleted", "eckit::spec::ConcreteSpecGeneratorT1": "never deleted", "eckit::spec::ConcreteSpecGeneratorT2": "never deleted",
    "eckit::linalg::LinearAlgebraDense": "static objects", "eckit::linalg::LinearAlgebraSparse": "static objects",
    "eckit::geo::cache::MemoryCache": "static objects", "eckit::system::Library": "static objects", "eckit::Params::Factory": "static objects",
}


def registered(P, L, ctx):
    done = set()
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if f.kind != "ctor" or not f.file.startswith("src/eckit/") or f.r.get("clsu") not in P.recs:
            continue
        r = P.recs[f.r["clsu"]]
        for i, n in f.nodes_of("call"):
            q = n.get("q", "")
            if not ENTERS.search(q) or not any(isthis(f, a) for a in n.get("a", ())):
                continue
            if isinstance(n.get("o"), int) and n["o"] >= 0 and own(f, n["o"]):
                continue
            if r["q"] in PAIRS or r["q"] in FOREVER or (r["q"], q) in done:
                continue
            done.add((r["q"], q))
            d = dtor(P, r)
            if d is None or not any(re.search(r"::(remove|deregister|unregist\w*|erase|detach|pop_back)$", c.get("q", "")) for _, c in d.nodes_of("call")):
                ctx.bad("registered", "%s:new" % r["q"], f.loc(i), "%s enters itself with %s and does not take itself out when it is destroyed" % (r["q"], q))
    for cls, (_, out) in sorted(PAIRS.items()):
        rs = [r for r in P.recs.values() if r["q"] == cls]
        n = 0
        for r in rs:
            d = dtor(P, r)
            if d is None:
                if not any(m["n"].startswith("~") for m in r["methods"]):
                    ctx.bad("registered", cls, "%s:%s" % (r["file"], r["l"]), "%s no longer takes itself out of its registry when it is destroyed" % cls)
                continue
            hit = {i for i, c in d.nodes_of("call") if c.get("q") == out}
            cs = [g for g in P.fns.values() if g.r.get("clsu") == r["u"] and g.kind == "ctor"]
            always = all(every(P, g, {i for i, c in g.nodes_of("call") if c.get("q") == PAIRS[cls][0]}) for g in cs)
            if hit and (out.startswith("std::") or not always or every(P, d, hit)):
                n += 1
                ctx.ok("registered", 1, cls)
            else:
                ctx.bad("registered", cls, "%s:%s" % (d.file, d.line), "%s: the destructor does not take it out of its registry (%s) on every path" % (cls, out))
        if not n:
            ctx.note("%s: no destructor seen" % cls)
    ctx.floor("registered", 14)


def dtor(P, r):
    return next((P.fns[m["u"]] for m in r["methods"] if m["n"].startswith("~") and m["u"] in P.fns), None)


def isthis(f, i):
    for _ in range(4):
        n = f.n[i]
        if n["k"] == "this":
            return True
        if n["k"] in ("cast", "narrow") or n["k"] == "un" and n["op"] == "*":
            i = n["a"][0]
        else:
            return False
    return False


def own(f, i):
    """a member of the object under construction"""
    for _ in range(8):
        n = f.n[i]
        if n["k"] == "mem":
            if f.n[n["b"]]["k"] == "this":
                return "*" not in n.get("t", "") and "&" not in n.get("t", "")
            i = n["b"]
        elif n["k"] in ("cast", "narrow", "un"):
            i = n["a"][0]
        else:
            return False
    return False
