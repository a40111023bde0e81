"""What is allocated is released once, in the form it was allocated in."""
from prog import kids
from rules.lockuse import subtree
from rules.oscall import peval
from rules import resources
from rules.resources import State, Resources, N, E, V, S, LIVE

TAKERS = ("pthread_setspecific", "fopencookie", "funopen")
OWNERS = ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__uniq_ptr_impl", "std::auto_ptr")
MALLOC = {"malloc", "calloc", "realloc", "strdup", "strndup"}


def news(f, i, depth=0):
    """kinds of storage that expression i allocates: 'new', 'new[]', 'malloc' (through casts and conditionals)"""
    n = f.n[i]
    k = n["k"]
    if k == "new":
        return set() if n.get("pl") else {"new[]" if n.get("arr") else "new"}
    if k in ("cast", "narrow", "definit") or k == "initlist" and len(n.get("a", ())) == 1 or k == "other" and len(n.get("a", ())) == 1:
        return news(f, n["a"][0], depth + 1) if n.get("a") else set()
    if k == "cond" and len(n.get("a", ())) == 3:
        return news(f, n["a"][1]) | news(f, n["a"][2])
    if k == "call" and n.get("q", "").lstrip(":").replace("std::", "") in MALLOC:
        return {"malloc"}
    if k == "call" and n.get("q", "").startswith("std::unique_ptr") and n["q"].endswith("::release"):
        o = f.n[n["o"]].get("t", "") if n.get("o") is not None and n["o"] >= 0 else ""
        return {"new[]"} if "[]" in o else {"new"}
    return set()


class HeapState(State):
    def stored(self, i):
        f = self.f
        ks = news(f, i)
        if ks:
            return ["acq"]
        j = i
        while f.n[j]["k"] in ("cast", "narrow", "definit") or f.n[j]["k"] == "initlist" and len(f.n[j].get("a", ())) == 1:
            if not f.n[j].get("a"):
                break
            j = f.n[j]["a"][0]
        m = f.n[j]
        if m["k"] == "call" and self.R.makes(f, m):
            return ["acq"]
        if m["k"] == "null" or m["k"] in ("initlist", "definit") and not m.get("a"):
            return [("set", 0)]
        if isinstance(peval(f, j, {}), int):
            return [("set", peval(f, j, {}))]
        if self.field and m["k"] == "ref" and m.get("v") in self.R.local(f):
            return ["acq"]
        return [("set", None)]

    def effect(self, e):
        f, n = self.f, self.f.n[e]
        k = n["k"]
        if k == "delete":
            return ["rel"] if self.named(n["a"][0]) else []
        if k == "mem" and n.get("arrow") and self.named(n["b"]):
            return ["use"]
        if k == "un" and n.get("op") == "*" and self.named(n["a"][0]):
            return ["use"]
        if k == "call" and n.get("o") is not None and n["o"] >= 0 and self.named(n["o"]):
            return ["use", "rel"] if n.get("q", "").endswith("::detach") else ["use"]
        if k == "lambda" and not self.field:
            return ["gone"] if any(self.named(c) for c in n.get("caps", ()) if isinstance(c, int)) else []
        if k == "ctor" or k == "call":
            q = n.get("q", "").lstrip(":")
            for x, a in enumerate(n.get("a", ())):
                if a is None or not self.carries(a):
                    continue
                if k == "call" and q == "free" and x == 0:
                    return ["rel"]
                if q in TAKERS:
                    return ["gone"]
                if self.owner_takes(n):
                    if k == "call" and n.get("o") is not None and n["o"] >= 0 and not self.R.keeps_elements(bare(f, n["o"]).get("v")):
                        return []
                    return ["use", "gone"]
                how = self.R.takes(n, x, self.kind)
                if how:
                    return [how] if how == "rel" else ["use", how]
                return []
            if k == "call" and self.field and n.get("o") is not None and n["o"] >= 0 and f.n[n["o"]]["k"] == "this":
                g = self.P.fns.get(n.get("f"))
                if g is not None and g.blocks and g.u != f.u:
                    return [("call", g)]
            return []
        if k in ("init", "assign") and not self.field and n.get("a") and self.named(n["a"][-1]):
            v = n.get("v") if k == "init" else bare(f, n["a"][0]).get("v") if bare(f, n["a"][0])["k"] == "mem" else None
            if v and not self.R.field_owns(v):
                return []
        if k == "assign" and n["op"] == "=" and not self.field and self.named(n["a"][1]):
            m = f.n[n["a"][0]]
            if m["k"] == "ref" and (m.get("vk") in ("global", "static", "member") or m.get("isref")):
                return ["gone"]
        if k == "initlist" and not self.field and any(self.named(a) for a in n.get("a", ())) and len(n["a"]) > 1:
            return ["gone"]
        return super().effect(e)

    def carries(self, a):
        n = self.f.n[a]
        while n["k"] in ("cast", "narrow") and n.get("a"):
            a = n["a"][0]
            n = self.f.n[a]
        return self.named(a) or n["k"] == "cond" and len(n.get("a", ())) == 3 and any(self.carries(x) for x in n["a"][1:])

    def keeps(self, e, n):
        ts = self.P.targets(n) if n["k"] == "call" else [n.get("f")]
        for x, a in enumerate(n.get("a", ())):
            if a is not None and self.named(a):
                return bool(ts) and all(self.R.safe(t, x) for t in ts)
        return False

    def owner_takes(self, n):
        q = n.get("q", "") or n.get("cls", "")
        if any(o in str(n.get("f")) for o in ("@F@shared_ptr#", "@F@unique_ptr#", "shared_ptr>#", "unique_ptr>#")):
            return True
        return q.startswith("std::") and not q.startswith(("std::mem", "std::copy", "std::fill", "std::swap", "std::basic_ostream", "std::operator<<", "std::basic_string", "std::char_traits"))


class Heap(Resources):
    State = HeapState

    def __init__(self, P):
        super().__init__(P)
        self.mkmemo = {}
        self.inner = {}
        self.held = None
        self.owning = None
        self.owned = None
        self.found = []

    def analyse(self, f, key, field, entry):
        self.found = []
        st = HeapState(self, f, key, "heap", field).run(entry)
        st.bad += self.found
        return st

    def makes(self, f, n):
        """every function the call may reach hands out something it allocated"""
        ts = self.P.targets(n)
        hs = [self.hands_out(t) for t in ts]
        return any(h is True for h in hs) and all(h is not False for h in hs)

    def hands_out(self, u):
        if u not in self.mkmemo:
            self.mkmemo[u] = False              # None: it only throws
            g = self.P.fns.get(u)
            if g is None and "@N@eckit@" in str(u) and self.P.overriders(u):
                self.mkmemo[u] = None           # pure virtual
                return None
            if g is None or not g.blocks or not g.file.startswith("src/"):
                return False
            rets = [n for n in g.n if n["k"] == "ret" and n.get("a")]
            if not str(g.r.get("rt", "")).rstrip().endswith("*"):
                return False
            if not rets:
                self.mkmemo[u] = None
                return None
            some = False
            for r in rets:
                i = r["a"][0]
                while g.n[i]["k"] in ("cast", "narrow"):
                    i = g.n[i]["a"][0]
                m = g.n[i]
                if news(g, i) or m["k"] == "call" and self.makes(g, m) or m["k"] == "call" and m.get("q", "").startswith("std::unique_ptr") and m["q"].endswith("::release"):
                    some = True
                elif m["k"] == "null" or peval(g, i, {}) == 0:
                    pass
                elif m["k"] == "ref" and m.get("v") in self.local(g) and m.get("vk") == "local":
                    some = True
                elif m["k"] == "ref" and m.get("vk") == "local" and self.taken_out(g, m["v"]):
                    some = True
                else:
                    return False
            self.mkmemo[u] = some or None
        return self.mkmemo[u]

    def lends(self, g):
        """the function returns a pointer to what something else holds"""
        for r in g.n:
            if r["k"] == "ret" and r.get("a"):
                for j in results(g, r["a"][0]):
                    m = g.n[j]
                    if m["k"] == "mem" or m["k"] == "un" and m.get("op") == "&" or m["k"] == "this" or m["k"] == "call" and m["q"].startswith("std::") and m["q"].endswith(("::get", "::data", "::c_str")):
                        return True
                    if m["k"] == "ref" and m.get("vk") in ("global", "static"):
                        return True
        return False

    def field_owns(self, v):
        """what field v, a plain pointer, holds is released by someone"""
        if self.owning is None:
            self.owning = set()
            raw = {fl["v"]: fl for rec in self.P.recs.values() for fl in rec.get("fields", ())}
            self.raw = {v for v, fl in raw.items() if fl["t"].rstrip().endswith("*")}
            for f in self.P.fns.values():
                alias = {}
                for n in f.n:
                    for d in n["d"] if n["k"] == "decl" else ():
                        if isinstance(d.get("i"), int) and d["i"] >= 0:
                            m = bare(f, d["i"])
                            if m["k"] == "mem" and m.get("v") in self.raw:
                                alias.setdefault(d["v"], set()).add(m["v"])
                    if n["k"] == "assign" and n["op"] == "=" and bare(f, n["a"][0])["k"] == "ref" and bare(f, n["a"][1])["k"] == "mem":
                        alias.setdefault(bare(f, n["a"][0])["v"], set()).add(bare(f, n["a"][1])["v"])
                for n in f.n:
                    ms = ()
                    if n["k"] == "delete":
                        ms = [bare(f, n["a"][0])]
                    elif n["k"] == "call" and n.get("q", "").endswith("::detach") and n.get("o") is not None and n["o"] >= 0:
                        ms = [bare(f, n["o"])]
                    elif n["k"] in ("call", "ctor") and (n.get("q", "").lstrip(":") == "free" or any(o in n.get("q", "") for o in ("unique_ptr", "shared_ptr"))):
                        ms = [bare(f, a) for a in n.get("a", ()) if a is not None]
                    elif n["k"] == "call" and n.get("q") == "std::exchange":
                        ms = [bare(f, n["a"][0])]
                    elif n["k"] in ("call", "ctor") and n.get("f"):
                        ms = [bare(f, a) for x, a in enumerate(n.get("a", ())) if a is not None and self.deletes_param(n["f"], x)]
                    elif n["k"] == "assign" and n["op"] == "=" and bare(f, n["a"][0])["k"] == "mem" or n["k"] == "init" and n.get("a"):
                        ms = [bare(f, n["a"][-1])]
                    for m in ms:
                        if m["k"] == "mem":
                            self.owning.add(m["v"])
                        elif m["k"] == "ref":
                            self.owning |= alias.get(m["v"], set())
        return v not in self.raw or v in self.owning

    def deletes_param(self, u, x):
        """the function itself deletes what its parameter is, or refers to"""
        g = self.P.fns.get(u)
        return g is not None and x < len(g.r.get("p", ())) and any(m["k"] == "delete" and bare(g, m["a"][0]).get("v") == g.r["p"][x]["v"] for m in g.n)

    def containers(self):
        if self.held is None:
            self.held, self.deletes, self.popped = {}, {}, set()
            for rec in self.P.recs.values():
                for fl in rec.get("fields", ()):
                    t = fl["t"].replace("const ", "")
                    if t.startswith(CONTAINERS) and pointers(t) and rec["file"].startswith("src/"):
                        self.held[fl["v"]] = (rec, fl)
            for f in self.P.fns.values():
                if any(n["k"] == "delete" for n in f.n):
                    for v in element_deletes(f, self.held):
                        self.deletes.setdefault(v, set()).add(f.u)
                for n in f.n:
                    if n["k"] == "call" and n.get("o") is not None and n["o"] >= 0 and n.get("q", "").rsplit("::", 1)[-1] in REMOVES:
                        v = bare(f, n["o"]).get("v")
                        if v in self.held and not n["q"].endswith("::clear") and takes_element(f, v):
                            self.popped.add(v)
        return self.held

    def keeps_elements(self, v):
        """a pointer put into container v is deleted with it, or taken out again"""
        held = self.containers()
        return v not in held or "%s:%s" % (held[v][0]["q"], held[v][1]["n"]) in PASSED or v in self.popped or self.destroyed(held[v][0], v, self.deletes)

    def sinks(self, fns):
        """(function, parameter) to which some caller gives an object allocated for it"""
        out = set()
        for f in fns:
            for n in f.n:
                if n["k"] in ("call", "ctor") and n.get("f"):
                    for x, a in enumerate(n.get("a", ())):
                        if a is not None and (news(f, a) or bare(f, a)["k"] == "call" and self.makes(f, bare(f, a))):
                            for t in (self.P.targets(n) if n["k"] == "call" else [n["f"]]):
                                g = self.P.fns.get(t)
                                if g is not None and g.blocks and g.file.startswith("src/") and x < len(g.r.get("p", ())) and g.r["p"][x]["t"].rstrip().endswith("*"):
                                    out.add((t, x))
        return out

    def taken_out(self, g, x):
        """local x of g is an element of a container that owns its elements, and g removes it from there"""
        held = self.containers()
        src = sources(g)
        return any(v in held and v in self.owns() and removes(g, v) for v in src.get(x, ()))

    def owns(self):
        """containers whose elements someone deletes, or puts there when making them"""
        if self.owned is None:
            held = self.containers()
            self.owned = set(self.deletes) | {v for v, (rec, fl) in held.items() if "%s:%s" % (rec["q"], fl["n"]) in OWNERS_OF}
            for f in self.P.fns.values():
                for n in f.n:
                    if n["k"] == "call" and n.get("o") is not None and n["o"] >= 0 and n.get("q", "").rsplit("::", 1)[-1] in INSERTS:
                        v = bare(f, n["o"]).get("v")
                        if v in held and v not in self.owned and any(a is not None and any(f.n[j]["k"] == "new" or f.n[j]["k"] == "call" and news(f, j) for j in subtree(f, a)) for a in n.get("a", ())):
                            self.owned.add(v)
        return self.owned

    def destroyed(self, rec, v, deletes):
        """the destructor of the class deletes the elements of field v, itself or through a method it calls"""
        for f in self.P.fns.values():
            if f.kind == "dtor" and f.r.get("clsu") == rec["u"]:
                if f.u in deletes.get(v, ()) or any(n["k"] == "call" and n.get("f") in deletes.get(v, ()) for n in f.n):
                    return True
        return False

    def local(self, f):
        if f.u not in self.lmemo:
            self.lmemo[f.u] = {}
            self.lmemo[f.u] = {k: True for k, (field, i) in allocated(self, f).items() if field is False}
        return self.lmemo[f.u]

    def aliased(self, f, d):
        """a local that takes over what a field holds, and deletes it"""
        k = (f.u, d["v"])
        if k not in self.amemo:
            self.amemo[k] = None
            i = d["i"]
            while f.n[i]["k"] in ("cast", "narrow") or f.n[i]["k"] == "initlist" and len(f.n[i]["a"]) == 1:
                i = f.n[i]["a"][0]
            if f.n[i]["k"] == "mem" and f.n[f.n[i]["b"]]["k"] == "this":
                for n in f.n:
                    if n["k"] == "delete":
                        a = n["a"][0]
                        while f.n[a]["k"] in ("cast", "narrow"):
                            a = f.n[a]["a"][0]
                        if f.n[a]["k"] == "ref" and f.n[a].get("v") == d["v"]:
                            self.amemo[k] = "heap"
                    elif n["k"] == "call" and n.get("f") and any(a is not None and bare(f, a)["k"] == "ref" and bare(f, a).get("v") == d["v"] and self.deletes_param(n["f"], x)
                                                                  for x, a in enumerate(n.get("a", ()))):
                        self.amemo[k] = "heap"
        return self.amemo[k]

    def summary(self, g, key, kind, st, depth):
        k = (g.u, key, st)
        if k not in self.memo:
            self.memo[k] = ({st}, set())
            s = HeapState(self, g, key, kind, True).run([st], depth)
            self.memo[k] = (s.exit, s.thrown)
            self.inner[k] = [((g, e) if not isinstance(e, tuple) else e, what, t) for e, what, t in s.bad]
        self.found += self.inner.get(k, ())
        return self.memo[k]

    def guard(self, d, kind):
        return d.get("t", "").replace("const ", "").startswith(OWNERS)

    def safe(self, u, x):
        """the function throws only after it has taken what parameter x points to"""
        k = (u, x, "safe")
        if k not in self.tmemo:
            self.tmemo[k] = False
            g = self.P.fns.get(u)
            if g is not None and g.blocks and x < len(g.r.get("p", ())):
                st = HeapState(self, g, g.r["p"][x]["v"], "heap", False).run([(V, LIVE)])
                self.tmemo[k] = not any(t[0] == V for t, _ in st.thrown)
        return self.tmemo[k]

    def takes(self, n, x, kind, depth=0):
        """what a call does with the pointer it is handed: rel, gone (kept, handed on) or nothing"""
        for t in (self.P.targets(n) if n["k"] == "call" else [n.get("f")]):
            g = self.P.fns.get(t)
            if g is None or not g.blocks:
                continue
            ps = g.r.get("p", ())
            if x >= len(ps):
                continue
            key = (g.u, x)
            if key not in self.tmemo:
                self.tmemo[key] = None
                hows, keys, done = set(), [ps[x]["v"]], set()
                while keys:
                    v = keys.pop()
                    if v in done:
                        continue
                    done.add(v)
                    st = HeapState(self, g, v, kind, False)
                    for i in range(len(g.n)):
                        if g.n[i]["k"] == "decl":
                            keys += [d["v"] for d in g.n[i]["d"] if isinstance(d.get("i"), int) and d["i"] >= 0 and d["t"].rstrip().endswith("*") and st.named(d["i"])]
                            if any(isinstance(d.get("i"), int) and d["i"] >= 0 and d["t"].rstrip().endswith("*") and st.named(d["i"]) for d in g.n[i]["d"]):
                                continue
                        hows |= {ef for ef in st.effect(i) if ef in ("rel", "gone")}
                self.tmemo[key] = "rel" if hows == {"rel"} else "gone" if hows else None
            if self.tmemo[key]:
                return self.tmemo[key]
        return None


def allocated(H, f):
    """variable -> (is field, node) of what this function allocates into it"""
    out = {}
    els = f.elpos()

    def made(i):
        j = i
        while f.n[j]["k"] in ("cast", "narrow", "definit") and f.n[j].get("a"):
            j = f.n[j]["a"][0]
        return news(f, i) or f.n[j]["k"] == "call" and H.makes(f, f.n[j])

    for i, n in enumerate(f.n):
        if n["k"] == "assign" and n["op"] == "=" and made(n["a"][1]):
            m = f.n[n["a"][0]]
            if m["k"] == "mem" and f.n[m["b"]]["k"] == "this":
                out[m["v"]] = (True, i)
            elif m["k"] == "ref" and m.get("vk") in ("local", "param"):
                out[m["v"]] = (False, i)
        elif n["k"] == "decl":
            for d in n["d"]:
                if isinstance(d.get("i"), int) and d["i"] >= 0 and made(d["i"]) and d.get("vk", "local") == "local" and d.get("t", "").rstrip().endswith("*"):
                    out[d["v"]] = (False, i)
        elif n["k"] == "init" and n.get("v") and n.get("a") and made(n["a"][0]) :
            out[n["v"]] = (True, i)
    return out


def run(P, ctx):
    H = Heap(P)
    fns = sorted([f for f in P.fns.values() if f.file.startswith("src/") and "/contrib/" not in f.file], key=lambda f: (f.file, f.line))
    owner = {fl["v"]: rec for rec in P.recs.values() for fl in rec.get("fields", ())}

    ctx.rule("local", "an object allocated into a local is deleted, returned, stored or handed to an owner on every path out, exceptions of the "
                      "library included; it is not deleted twice and not used after that")
    fields = {}
    for f in fns:
        for k, (field, i) in sorted(allocated(H, f).items(), key=str):
            if field:
                fields.setdefault(k, []).append(f)
            else:
                st = H.analyse(f, k, False, [(N, 0)])
                nm = next((d["n"] for n in f.n if n["k"] == "decl" for d in n["d"] if d["v"] == k), "")
                if "%s:%s" % (f.q, nm) in LOCALS:
                    st.thrown = set()
                resources.report(ctx, P, "local", f, k, "heap", st)
        for n in f.n:
            for d in n["d"] if n["k"] == "decl" else ():
                if isinstance(d.get("i"), int) and d["i"] >= 0 and H.aliased(f, d):
                    st = H.analyse(f, d["v"], False, [(N, 0)])
                    st.thrown, st.exit = set(), {s for s in st.exit if s[0] != V}      # the field still has it
                    resources.report(ctx, P, "local", f, d["v"], "heap", st)

    ctx.rule("field", "a method that deletes what a field points to sets the field before it returns or throws; one that allocates into it does not overwrite one still held")
    ctx.rule("ctor", "a constructor that has allocated into a field does not throw with it")
    ctx.rule("dtor", "the destructor of a class that allocates into a field releases it")
    for f in fns:                       # fields that only a release shows to own what they point to
        for n in f.n:
            if n["k"] == "delete" or n["k"] == "call" and n.get("q", "").endswith("::detach") and n.get("o") is not None and n["o"] >= 0:
                m = bare(f, n["a"][0] if n["k"] == "delete" else n["o"])
                if m["k"] == "mem" and f.n[m["b"]]["k"] == "this":
                    fields.setdefault(m["v"], [])
    for k, opens in sorted(fields.items(), key=lambda x: str(x[0])):
        if k not in owner:
            continue
        rec = owner[k]
        fn, cls = resources.fieldname(P, rec["u"], k), rec["q"]
        if not next((fl["t"] for fl in rec["fields"] if fl["v"] == k), "").rstrip().endswith("*"):
            continue
        family = {rec["u"]} | {x["u"] for x in P.subclasses(cls)}
        ms = sorted([f for f in P.fns.values() if f.r.get("clsu") in family], key=lambda f: (f.file, f.line))
        dtors = [f for f in ms if f.kind == "dtor" and f.r.get("clsu") == rec["u"]]
        made = set(x.u for x in ms)
        private = {f.u for f in ms if f.r.get("acc", 0) >= 1 and f.kind == "method" and P.callers()[f.u] and all(c.u in made for c, _ in P.callers()[f.u])}
        runs = [H.analyse(f, k, True, [(E, LIVE)]) for f in dtors]
        released = any(r.exit and all(s[0] in (S, N) for s in r.exit) and not r.bad for r in runs)
        if not released and any(s[0] == S for r in runs for s in r.exit) and not any(r.bad for r in runs):
            flags = set.intersection(*[flagged(f, k) for f in opens + dtors]) if opens else set()
            released = any(tests(f, v) for f in dtors for v in flags) if flags else False
        name = "%s:%s" % (cls, fn)
        where = "%s:%d" % (opens[0].file, opens[0].line) if opens else "%s:%d" % (rec["file"], rec["l"])
        if opens:
            if released:
                ctx.ok("dtor", sample=name)
            elif name in FOREVER:
                ctx.ok("dtor")
                ctx.note("%s: %s" % (name, FOREVER[name]))
            else:
                ctx.bad("dtor", name, where, "%s allocates into %s and the destructor of its class does not release it" % (opens[0].q, fn))
        for f in ms:
            if f.kind in ("ctor", "copyctor", "movector"):
                if f in opens:
                    st = H.analyse(f, k, True, [(N, 0)])
                    if released and any(m["k"] == "init" and m.get("deleg") for m in f.n):
                        st.thrown = set()
                    st.thrown = {x for x in st.thrown if x[0][0] != S}
                    if name in FOREVER:
                        st.thrown = set()
                    resources.report(ctx, P, "ctor", f, k, "heap", st, fn)
                continue
            if f.kind == "dtor" or f.u in private and f.q not in BY_ITSELF or not touches(H, f, k, released):
                continue
            resources.report(ctx, P, "field", f, k, "heap", H.analyse(f, k, True, [(N, 0), (E, LIVE)]), fn)

    ctx.rule("owner", "what a unique_ptr or shared_ptr is made of was allocated for it: it is not the object that another one owns; what release() gives up is taken up")
    ctx.rule("handed", "an object allocated in the argument of a call is kept, deleted or handed on by the function called")
    ctx.rule("dropped", "an object that a function allocates and returns is not dropped by its caller")
    sinks = H.sinks(fns)
    for u, x in sorted(sinks, key=str):
        g = P.fns[u]
        pa = g.r["p"][x]
        st = H.analyse(g, pa["v"], False, [(V, LIVE)])
        st.thrown = set()
        if all(s[0] == V for s in st.exit):
            continue                    # it takes nothing: its callers are told
        resources.report(ctx, P, "handed", g, pa["v"], "heap", st, pa["n"])
    for f in fns:
        par = None
        for i, n in enumerate(f.n):
            if n["k"] in ("call", "ctor") and n.get("f") in P.fns:
                for x, a in enumerate(n.get("a", ())):
                    if a is not None and (n["f"], x) in sinks:
                        m = bare(f, a)
                        if m["k"] == "call" and m.get("q", "").startswith("std::") and m["q"].endswith("::get") and "_ptr" in m["q"] and H.takes(n, x, "heap"):
                            ctx.bad("owner", "%s:%s" % (f.q, n["q"]), f.loc(i), "%s gives %s, which will delete it, what another owner holds" % (f.q, n["q"]))
            if n["k"] in ("call", "ctor") and n.get("f") in P.fns and P.fns[n["f"]].file.startswith("src/"):
                for x, a in enumerate(n.get("a", ())):
                    if a is not None and news(f, a):
                        g = P.fns[n["f"]]
                        ps = g.r.get("p", ())
                        if x < len(ps) and not ps[x]["t"].rstrip().endswith("*"):
                            ctx.ok("handed")        # an owner made of it
                        elif H.takes(n, x, "heap") or not g.blocks and n.get("v"):
                            ctx.ok("handed", 1, "%s gives what it allocates to %s" % (f.q, n["q"]))
                        else:
                            ctx.bad("handed", "%s:%s" % (f.q, n["q"]), f.loc(i), "%s allocates an argument of %s, which neither keeps nor deletes it" % (f.q, n["q"]))
            if n["k"] == "call" and i in f.elpos() and (n.get("t") or "").rstrip().endswith("*") and H.makes(f, n):
                par = par or f.parents()
                ps = par.get(i, ())
                if not ps:
                    ctx.bad("dropped", "%s:%s" % (f.q, n["q"]), f.loc(i), "%s drops what %s allocated for it" % (f.q, n["q"]))
                else:
                    ctx.ok("dropped")

    for f in fns:
        par = None
        for i, n in enumerate(f.n):
            q = n.get("q", "")
            if n["k"] == "call" and q.startswith("std::unique_ptr") and q.endswith("::release"):
                par = par or f.parents()
                if par.get(i) or "%s:release" % f.q in OWNED or lent(f, bare(f, n["o"]).get("v")):
                    ctx.ok("owner")
                else:
                    ctx.bad("owner", "%s:release" % f.q, f.loc(i), "%s drops what release() gave up" % f.q)
                continue
            if not n.get("a") or n["a"][0] is None or not ("unique_ptr" in q or "shared_ptr" in q) or n["k"] == "call" and not q.endswith("::reset") or n["k"] not in ("call", "ctor"):
                continue
            for j in results(f, n["a"][0]):
                m = f.n[j]
                if not m.get("t", "").rstrip().endswith("*") and m["k"] != "this":
                    continue
                why = None
                if m["k"] == "this":
                    why = "this"
                elif m["k"] == "un" and m.get("op") == "&":
                    why = "the address of an object"
                elif m["k"] == "mem" and m["b"] >= 0 and f.n[m["b"]]["k"] == "ref" and f.n[m["b"]].get("vk") == "local" and not f.n[m["b"]].get("isref") and not m.get("arrow"):
                    pass                # a copy of it that the function has
                elif m["k"] == "mem":
                    why = "a pointer that another object holds"
                elif m["k"] == "call":
                    for t in P.targets(m):
                        g = P.fns.get(t)
                        if g is not None and g.blocks and H.lends(g):
                            why = "what %s lends" % g.q
                    if m["q"].startswith("std::") and m["q"].endswith(("::get", "::data", "::c_str")):
                        why = "what another one holds"
                if why and "%s:%s" % (f.q, why) not in OWNED:
                    ctx.bad("owner", "%s:owner" % f.q, f.loc(i), "%s makes an owner of %s" % (f.q, why))
                else:
                    ctx.ok("owner", 1, f.q)

    ctx.rule("elements", "a class that puts what it allocates, or is given, into a container of pointers deletes the elements in its destructor, and before it removes them")
    noted = set()
    held, deletes = H.containers(), H.deletes
    for v, (rec, fl) in sorted(held.items(), key=str):
        name = "%s:%s" % (rec["q"], fl["n"])
        if v in H.owns() and name not in PASSED and name not in EMPTIED and v not in H.popped:
            where = "%s:%d" % (rec["file"], rec["l"])
            if H.destroyed(rec, v, deletes):
                ctx.ok("elements", 1, name)
            else:
                ctx.bad("elements", name, where, "the destructor of %s does not delete the elements of %s" % (rec["q"], fl["n"]))
    for f in fns:
        for i, n in enumerate(f.n):
            if n["k"] == "delete" and f.kind != "dtor" and i in f.elpos():
                for v in stale(f, n["a"][0], held):
                    name = "%s:%s" % (f.q, held[v][1]["n"])
                    if ends(P, f, i, v) is None:
                        ctx.bad("elements", name, f.loc(i), "%s deletes an element of %s and leaves it there" % (f.q, held[v][1]["n"]))
                    else:
                        ctx.ok("elements", 1, name)
            if n["k"] != "call" or n.get("o") is None or n["o"] < 0:
                continue
            v = bare(f, n["o"]).get("v")
            if v not in held:
                continue
            rec, fl = held[v]
            nm = n.get("q", "").rsplit("::", 1)[-1]
            name = "%s:%s" % (rec["q"], fl["n"])
            if nm in INSERTS:
                if not any(a is not None and news(f, a) or a is not None and bare(f, a)["k"] == "call" and H.makes(f, bare(f, a)) for a in n.get("a", ())):
                    continue
                if name in PASSED:
                    ctx.ok("elements")
                    if name not in noted:
                        noted.add(name)
                        ctx.note("%s: %s" % (name, PASSED[name]))
                elif H.destroyed(rec, v, deletes):
                    ctx.ok("elements", 1, name)
                else:
                    ctx.bad("elements", name, f.loc(i), "%s puts what it allocates into %s, whose elements the destructor of %s does not delete" % (f.q, fl["n"], rec["q"]))
            elif nm in REMOVES and v in H.owns() and name not in PASSED:
                if f.u in deletes.get(v, ()) or takes_element(f, v):
                    ctx.ok("elements", 1, "%s:%s" % (f.q, nm))
                else:
                    ctx.bad("elements", "%s:%s" % (f.q, fl["n"]), f.loc(i), "%s removes elements of %s, which the class owns, without deleting them or taking them" % (f.q, fl["n"]))

    replaced(P, ctx, fns, H)

    ctx.rule("kept", "a destructor that is known to release what a field of its class holds still does, if the field is still a plain pointer or a container of them")
    for rec in P.recs.values():
        for fl in rec.get("fields", ()):
            if rec["q"] not in KEPT or fl["n"] not in KEPT[rec["q"]] or "*" not in fl["t"] and rec["q"] != "eckit::BTree" or "_ptr<" in fl["t"]:
                continue
            for f in fns:
                if f.kind == "dtor" and f.r.get("clsu") == rec["u"] and f.blocks:
                    if fl["v"] in lets_go(P, f, set()) and (rec["q"] != "eckit::BTree" or any(n["k"] == "delete" for n in f.n)):
                        ctx.ok("kept", 1, "%s:%s" % (rec["q"], fl["n"]))
                    else:
                        ctx.bad("kept", "%s:%s" % (rec["q"], fl["n"]), "%s:%d" % (f.file, f.line), "the destructor of %s no longer releases %s, and nothing else does" % (rec["q"], fl["n"]))

    ctx.rule("form", "what new allocated is released by delete, what new[] did by delete[], what malloc did by free")
    made, freed = {}, {}
    for f in fns:
        for i, n in enumerate(f.n):
            if n["k"] in ("assign", "decl", "init"):
                for v, x in ([(bare(f, n["a"][0]).get("v"), n["a"][1])] if n["k"] == "assign" and n["op"] == "=" else
                             [(d["v"], d["i"]) for d in n["d"] if isinstance(d.get("i"), int) and d["i"] >= 0] if n["k"] == "decl" else
                             [(n.get("v"), n["a"][0])] if n["k"] == "init" and n.get("a") else []):
                    for form in news(f, x):
                        if v:
                            made.setdefault(v, []).append((form, f, i))
            elif n["k"] == "delete" or n["k"] == "call" and n.get("q", "").lstrip(":") == "free":
                v = bare(f, n["a"][0]).get("v")
                if v:
                    freed.setdefault(v, []).append(("malloc" if n["k"] == "call" else "new[]" if n.get("arr") else "new", f, i))
            if n["k"] in ("ctor", "call"):
                t = n.get("cls") or n.get("q", "")
                if t.startswith(("std::unique_ptr<", "std::shared_ptr<", "std::unique_ptr::reset", "std::shared_ptr::reset", "std::unique_ptr")) and n.get("a"):
                    a = n["a"][0]
                    if a is None:
                        continue
                    for form in news(f, a):
                        o = f.n[n["o"]].get("t", "") if n["k"] == "call" and n.get("o") is not None and n["o"] >= 0 else n.get("cls") or n.get("t", "")
                        if len(n["a"]) > 1:
                            continue            # with a deleter
                        inner = o.split("<", 1)[1] if "<" in o else ""
                        arr = first_arg(inner).rstrip().endswith("[]")
                        if "default_delete" in o or "shared_ptr" in o:
                            if (form == "new[]") != arr or form == "malloc":
                                ctx.bad("form", "%s:%s" % (f.q, "owner"), f.loc(i), "%s: %s holds what %s allocated" % (f.q, o, form))
                            else:
                                ctx.ok("form")
    for v in sorted(set(made) & set(freed), key=str):
        for form, f, i in freed[v]:
            if any(form != m[0] for m in made[v]):
                ctx.bad("form", "%s:%s" % (f.q, form), f.loc(i), "%s releases by %s what was allocated by %s (%s)"
                        % (f.q, FORMS[form], made[v][0][0], made[v][0][1].q))
            else:
                ctx.ok("form")

    ctx.rule("virtual", "what is deleted through a pointer to a base class has a virtual destructor there")
    base = {b["q"] for r in P.recs.values() for b in r.get("bases", ())}
    recs = {r["q"]: r for r in P.recs.values()}
    seen = set()

    def destroys(t, f, i):
        t = t.replace("const ", "").replace("class ", "").strip()
        r = recs.get(t) or recs.get(t.split("<")[0])
        if r is None or r["q"] not in base or not r.get("poly"):
            return
        sp = r["sp"]
        if sp.get("dtor_virt"):
            ctx.ok("virtual", 1, "%s" % t)
        elif sp.get("dtor_acc", 0) == 0 or f is not None and f.r.get("clsu") == r["u"]:
            if (t, f.q if f else "") not in seen:
                seen.add((t, f.q if f else ""))
                ctx.bad("virtual", "%s" % t, f.loc(i), "%s deletes a %s, which has derived classes and no virtual destructor" % (f.q, t))
    for f in fns:
        for i, n in enumerate(f.n):
            if n["k"] == "delete" and n.get("dt"):
                if n["dt"] == "void":
                    ctx.bad("virtual", f.q, f.loc(i), "%s deletes a void pointer" % f.q)
                destroys(n["dt"], f, i)
            elif n["k"] == "ctor" and n.get("cls", "").startswith("std::unique_ptr<") and "default_delete" in n.get("cls", ""):
                destroys(first_arg(n["cls"].split("<", 1)[1]), f, i)

    ctx.rule("self", "after delete this, nothing of the object is touched")
    for f in fns:
        for i, n in enumerate(f.n):
            if n["k"] == "delete" and f.n[n["a"][0]]["k"] == "this":
                if i not in f.elpos():
                    continue
                later = after(f, i)
                use = [j for j in later if f.n[j]["k"] in ("mem", "call") and any(f.n[x]["k"] == "this" for x in
                       ([f.n[j].get("b")] if f.n[j]["k"] == "mem" else [f.n[j].get("o")]) if x is not None and x >= 0)]
                if use:
                    ctx.bad("self", f.q, f.loc(use[0]), "%s uses the object after delete this" % f.q)
                else:
                    ctx.ok("self", 1, f.q)

    ctx.rule("thread", "a thread object that does not delete itself is not allocated for a controler that will not delete it either")
    keep = {}
    for f in fns:
        if f.kind == "ctor":
            for n in f.n:
                if n["k"] == "ctor" and n.get("q") == "eckit::Thread::Thread" and n.get("a"):
                    keep[f.u] = peval(f, n["a"][0], {}) == 0
    for f in fns:
        for i, n in enumerate(f.n):
            if n["k"] == "ctor" and n.get("cls") == "eckit::ThreadControler" and n.get("a") and "new" in news(f, n["a"][0]):
                c = [f.n[j].get("f") for j in subtree(f, n["a"][0]) if f.n[j]["k"] == "ctor" and f.n[j].get("f") in keep]
                if f.q in FOREVER:
                    ctx.ok("thread")
                    ctx.note("%s: %s" % (f.q, FOREVER[f.q]))
                elif any(keep[u] for u in c):
                    ctx.bad("thread", f.q, f.loc(i), "%s allocates a thread that does not delete itself; nothing else does" % f.q)
                else:
                    ctx.ok("thread", 1, f.q)


def lets_go(P, f, seen):
    """fields that the function releases, or passes to something that may"""
    if f.u in seen or not f.blocks:
        return set()
    seen.add(f.u)
    src, out = sources(f), set()
    for n in f.n:
        vs = set()
        if n["k"] == "delete":
            vs = {f.n[j].get("v") for j in subtree(f, n["a"][0]) if f.n[j]["k"] in ("ref", "mem")}
        elif n["k"] in ("call", "ctor"):
            if n["k"] == "call" and n.get("q", "").endswith("::detach") and n.get("o") is not None and n["o"] >= 0:
                vs = {bare(f, n["o"]).get("v")}
            elif not n.get("q", "").startswith("eckit::Log") and (
                    n.get("f") in P.fns and P.fns[n["f"]].file.startswith("src/") or not n.get("q", "").startswith(("std::", "__gnu"))
                    or any(f.n[j]["k"] in ("lambda", "fref") for a in n.get("a", ()) if a is not None for j in subtree(f, a))):
                vs = {f.n[j].get("v") for a in n.get("a", ()) if a is not None for j in subtree(f, a) if f.n[j]["k"] in ("ref", "mem")}
            g = P.fns.get(n.get("f"))
            if g is not None and g.file.startswith("src/"):
                if g.r.get("clsu") == f.r.get("clsu"):
                    out |= lets_go(P, g, seen)
                elif not any(x["k"] == "delete" or x["k"] == "call" and (x.get("q", "").lstrip(":") == "free" or x.get("f")) for x in g.n):
                    vs = set()
        out |= vs | {w for v in vs for w in src.get(v, ())}
    return out


KEPT = {
    "eckit::BTree": ["cache_"], "eckit::net::ConnectorCache": ["cache_"],
    "eckit::AIOBuffer": ["buff_"], "eckit::AIOHandle": ["buffers_"], "eckit::ArgContentList": ["list_"], "eckit::AsyncHandle": ["buffers_"],
    "eckit::Channel": ["buffer_"], "eckit::ChannelBuffer": ["target_"], "eckit::CircularBuffer": ["buffer_"], "eckit::CollectMetrics": ["collector_"],
    "eckit::EasyCURL": ["ch_"], "eckit::EasyCURLHandle": ["imp_"], "eckit::EasyCURLResponse": ["imp_"], "eckit::EasyCURLResponseImp": ["ch_"],
    "eckit::FOpenDataHandle": ["handle_"], "eckit::HandleHolder": ["handle_"], "eckit::HttpStream": ["buf_"], "eckit::LineBasedTarget": ["buffer_"],
    "eckit::MapAllocator": ["more_"], "eckit::MemoryBuffer": ["buffer_"], "eckit::MemoryHandle": ["address_"], "eckit::MultiHandle": ["datahandles_"],
    "eckit::Params": ["self_"], "eckit::PathName": ["path_"], "eckit::Pipe": ["controler_", "payloads_"], "eckit::SeekableHandle": ["handle_"],
    "eckit::SharedBuffer": ["buffer_"], "eckit::TeeHandle": ["datahandles_"], "eckit::TeeTarget": ["left_", "right_"], "eckit::ThreadControler": ["proc_"],
    "eckit::Trie": ["kids_"], "eckit::UserChannel": ["buffer_"], "eckit::Value": ["content_"], "eckit::WrapperTarget": ["target_"],
    "eckit::YAMLItemLock": ["item_"], "eckit::YAMLParser": ["last_"], "eckit::distributed::TCPTransport": ["connections_"],
    "eckit::geo::TraceResourceUsage": ["info_"], "eckit::geo::cache::MemoryCacheT": ["mutex_"], "eckit::linalg::Matrix": ["array_"],
    "eckit::linalg::Tensor": ["array_"], "eckit::linalg::Vector": ["array_"], "eckit::maths::Qhull": ["qh_"], "eckit::message::Message": ["content_"],
    "eckit::mpi::Environment": ["communicators"], "eckit::mpi::Group": ["content_"], "eckit::mpi::Request": ["content_"], "eckit::mpi::Status": ["content_"],
    "eckit::net::MultiSocket": ["accept_", "sockets_"], "eckit::option::CmdArgs": ["options_"],
}


def lvalue_of(f, i, held):
    """container, a field, of whose elements expression i is one"""
    n = f.n[i]
    while n["k"] in ("cast", "narrow") and n.get("a"):
        n = f.n[n["a"][0]]
    if n["k"] == "mem" and n.get("n") == "second":
        n = bare(f, n["b"])
    if n["k"] == "un" and n.get("op") == "*" or n["k"] == "idx" or n["k"] == "call" and (n.get("op") in ("*", "[]", "->") or n.get("q", "").endswith(("::operator[]", "::operator*", "::at", "::front", "::back"))):
        j = n["o"] if n["k"] == "call" and n.get("o") is not None and n["o"] >= 0 else n["a"][0]
        m = bare(f, j)
        if m["k"] == "mem" and m["v"] in held:
            return m["v"]
        if m["k"] == "ref":
            return next((v for v in sources(f).get(m["v"], ()) if v in held), None)
    return None


def replaced(P, ctx, fns, H):
    """an element of a container that owns its elements is given another value"""
    held = H.containers()
    for f in fns:
        if f.kind in ("ctor", "copyctor", "movector"):
            continue
        for i, n in enumerate(f.n):
            if n["k"] != "assign" or n["op"] != "=" or "*" not in f.n[n["a"][0]].get("t", "") or i not in f.elpos():
                continue
            v = lvalue_of(f, n["a"][0], held)
            if v is None or v not in H.owns() or "%s:%s" % (held[v][0]["q"], held[v][1]["n"]) in PASSED:
                continue
            name = "%s:%s" % (f.q, held[v][1]["n"])
            if f.u in H.deletes.get(v, ()) or peval(f, n["a"][1], {}) == 0 or saved(f, v) or fresh(f, v):
                ctx.ok("elements", 1, name)
            else:
                ctx.bad("elements", name, f.loc(i), "%s overwrites an element of %s without deleting it or keeping it" % (f.q, held[v][1]["n"]))


def saved(f, v):
    """an element is read into a pointer of its own, exchanged, returned or passed on"""
    for n in f.n:
        if n["k"] == "call" and (n.get("q", "") in ("std::swap", "std::exchange")) and any(v in {f.n[j].get("v") for j in subtree(f, a)} for a in n.get("a", ()) if a is not None):
            return True
    return takes_element(f, v)


def fresh(f, v):
    """the function makes the element, or knows that there is none"""
    for n in f.n:
        if n["k"] == "call" and n.get("o") is not None and n["o"] >= 0 and bare(f, n["o"]).get("v") == v and n.get("q", "").rsplit("::", 1)[-1] in INSERTS + ("resize", "assign", "find", "count", "operator[]", "contains"):
            if not n["q"].startswith(("std::vector", "std::deque", "std::list")) or not n["q"].endswith("operator[]"):
                return True
    src = sources(f)
    for b in (x if isinstance(x, dict) else f.blocks[x] for x in f.blocks):
        c = (b.get("t") or {}).get("c")
        if c is not None and any(f.n[j].get("v") == v or v in src.get(f.n[j].get("v"), ()) for j in subtree(f, c)):
            k = bare(f, c)
            if k["k"] in ("un", "idx", "call") or k["k"] == "bin" and any(f.n[a]["k"] == "null" for a in k["a"]):
                if lvalue_of(f, c, {v}) or k["k"] == "un" and k.get("op") == "!" or k["k"] == "bin" and k["op"] == "==":
                    return True
    return False


INSERTS = ("push_back", "push_front", "emplace_back", "insert", "emplace", "push")
REMOVES = ("clear", "erase", "pop_back", "pop_front", "pop")
CONTAINERS = tuple("std::%s<" % c for c in ("vector", "list", "deque", "set", "map", "queue", "stack"))
OWNERS_OF = {"eckit::ThreadPool:queue_"}          # the workers delete the tasks that the pool is given
EMPTIED = {"eckit::DispatchTask:pick_"}           # run() deletes what was picked before it picks again
PASSED = {x: "the CmdArgs made of them, which the tool goes on to make, deletes the options" for x in
          ("DHCopy:options_", "HashTool:options_", "eckit::EckitTool:options_", "eckit::tools::EckitCodecTool:options_")}
BY_ITSELF = {"eckit::LineBasedTarget::reserve", "eckit::Value::update", "eckit::PipeHandler::start"}     # private methods that release and acquire
OWNED = {
    "eckit::FOpenDataHandle::close:this": "it owns itself: the FILE it is behind is all that refers to it",
    "eckit::Application::unique:release": "the semaphore is kept locked until the process ends",
}


def pointers(t):
    """the elements of the container, or what its keys map to, are pointers to objects"""
    inner = t.split("<", 1)[1]
    a = first_arg(inner)
    if t.startswith("std::map<"):
        a = first_arg(inner[len(a) + 1:])
    a = a.strip()
    if a.startswith("std::pair<"):
        a = a[10:-1][len(first_arg(a[10:])) + 1:]
    return a.rstrip().endswith("*") and "(" not in a


def lent(f, v):
    """what the owner v holds has been got at, for a function that has it now"""
    return v and any(n["k"] == "call" and n.get("q", "").endswith("::get") and n.get("o") is not None and n["o"] >= 0 and bare(f, n["o"]).get("v") == v for n in f.n)


def results(f, i):
    n = f.n[i]
    while n["k"] in ("cast", "narrow") and n.get("a"):
        i = n["a"][0]
        n = f.n[i]
    if n["k"] == "cond" and len(n.get("a", ())) == 3:
        return results(f, n["a"][1]) + results(f, n["a"][2])
    return [i]


def sources(f):
    """local -> what it was made of: variables and fields, transitively"""
    src = {}
    for n in f.n:
        for d in n["d"] if n["k"] == "decl" else ():
            if isinstance(d.get("i"), int) and d["i"] >= 0:
                src.setdefault(d["v"], set()).update(f.n[j].get("v") for j in subtree(f, d["i"]) if f.n[j]["k"] in ("ref", "mem"))
        if n["k"] == "assign" and n["op"] == "=" or n["k"] == "call" and n.get("op") == "=" and n.get("o") is not None and n["o"] >= 0 and n.get("a"):
            v = bare(f, n["a"][0] if n["k"] == "assign" else n["o"]).get("v")
            if v:
                src.setdefault(v, set()).update(f.n[j].get("v") for j in subtree(f, n["a"][-1]) if f.n[j]["k"] in ("ref", "mem"))
    for _ in range(4):
        for v in src:
            src[v] |= {w for x in src[v] for w in src.get(x, ())}
    return src


def element_deletes(f, held):
    """fields (containers) whose elements the function deletes"""
    src = sources(f)
    out = set()
    for n in f.n:
        if n["k"] == "delete":
            vs = {f.n[j].get("v") for j in subtree(f, n["a"][0]) if f.n[j]["k"] in ("ref", "mem")}
            out |= (vs | {w for v in vs for w in src.get(v, ())}) & set(held)
    return out


def stale(f, i, held):
    """containers, fields of the object, that the deleted expression is an element of"""
    src = sources(f)
    vs = {f.n[j].get("v") for j in subtree(f, i) if f.n[j]["k"] in ("ref", "mem")}
    own = {n["v"] for n in f.n if n["k"] == "mem" and n.get("b", -1) >= 0 and f.n[n["b"]]["k"] == "this"}
    return sorted((vs | {w for v in vs for w in src.get(v, ())}) & set(held) & own, key=str)


def replaces(f, e, v):
    """element e gives an element of container v another value, or removes it"""
    n = f.n[e]
    if n["k"] == "assign" and n["op"] == "=" or n["k"] == "call" and n.get("op") == "=" and n.get("o") is not None and n["o"] >= 0:
        i = n["a"][0] if n["k"] == "assign" else n["o"]
        if any(f.n[j].get("v") == v for j in subtree(f, i)):
            return True
        src = sources(f)
        return f.n[i]["k"] != "ref" and any(v in src.get(f.n[j].get("v"), ()) for j in subtree(f, i))
    return n["k"] == "call" and n.get("o") is not None and n["o"] >= 0 and bare(f, n["o"]).get("v") == v and n.get("q", "").rsplit("::", 1)[-1] in REMOVES + ("swap", "operator=")


def ends(P, f, i, v):
    """what each path from element i meets first: something that replaces an element of container v, or the end (-1)"""
    b0, k0 = f.elpos()[i]
    if removes_before(f, i, v):
        return []
    made = f.kind in ("ctor", "copyctor", "movector") or P.callers()[f.u] and all(c.kind == "ctor" and c.r.get("clsu") == f.r.get("clsu") for c, _ in P.callers()[f.u])
    out, seen = [], set()
    todo = [(b0, k0 + 1)]
    while todo:
        b, k = todo.pop()
        if (b, k) in seen:
            continue
        seen.add((b, k))
        for e in f.blocks[b]["e"][k:]:
            if replaces(f, e, v) or made and f.n[e]["k"] == "throw":        # what is not made yet is not destroyed
                out.append(e)
                break
        else:
            if b == f.exit:
                return None
            todo += [(s, 0) for s in f.succs(b) if s >= 0]
    return out


def removes_before(f, i, v):
    """it was taken out before it was deleted"""
    for j, n in enumerate(f.n):
        if n["k"] == "call" and replaces(f, j, v) and j in f.elpos() and n.get("q", "").rsplit("::", 1)[-1] in REMOVES:
            if f.dominates(j, i):
                return True
    return False


def removes(f, v):
    return any(n["k"] == "call" and n.get("o") is not None and n["o"] >= 0 and bare(f, n["o"]).get("v") == v and n.get("q", "").rsplit("::", 1)[-1] in REMOVES for n in f.n)


def takes_element(f, v):
    """an element of container v is returned, passed on, or stored, as a pointer"""
    src = sources(f)

    def is_element(i):
        m = bare(f, i)
        if not m.get("t", "").rstrip().endswith("*") and "pair<" not in m.get("t", "") and "(anon" not in m.get("t", "") and "*" not in m.get("t", ""):
            return False
        if m["k"] == "mem" and m["b"] >= 0 and m.get("v") != v and bare(f, m["b"])["k"] == "ref":
            m = bare(f, m["b"])
        if m["k"] == "ref":
            return v in src.get(m.get("v"), ())
        return m["k"] in ("call", "idx", "un") and any(f.n[j].get("v") == v for j in subtree(f, next(x for x in range(len(f.n)) if f.n[x] is m)))
    for n in f.n:
        if n["k"] == "ret" and n.get("a") and is_element(n["a"][0]):
            return True
        if n["k"] in ("call", "ctor") and (not n.get("q", "").startswith(("std::", "__gnu_cxx::")) or "unique_ptr" in n["q"] or "shared_ptr" in n["q"]) and any(a is not None and is_element(a) for a in n.get("a", ())):
            return True
        if n["k"] == "assign" and n["op"] == "=" and bare(f, n["a"][0])["k"] in ("mem", "un", "idx") and is_element(n["a"][1]):
            return True
    return False


def run_all(P, ctx):
    from rules import counted
    run(P, ctx)
    counted.run(P, ctx)
    for r, n in FLOORS.items():
        ctx.floor(r, n)


FLOORS = {"local": 35, "field": 12, "ctor": 30, "dtor": 20, "handed": 70, "dropped": 60, "owner": 120, "elements": 10, "form": 60, "virtual": 70, "self": 0, "kept": 30, "thread": 10,
          "counted": 45}
FOREVER = {
    "eckit::RotationOutputStream:last_": "the streams of the log files live as long as the process",
    "eckit::TxnLog:nextID_": "a recovery thread, which is detached, goes on using it",
    "eckit::Dispatcher::changeThreadCount": "the tasks say themselves that they are not deleted when they stop",
}
LOCALS = {
    "eckit::ThreadPoolThread::run:r": "a thread that cannot enter its state in the monitor's table ends the program",
    "eckit::mpi::Serial::split:newcomm": "only a communicator of the same name, made by another thread since its name was tested, stops it from being registered",
    "eckit::mpi::Parallel::split:newcomm": "as in Serial::split", "eckit::mpi::Parallel::create:newcomm": "as in Serial::split",
}
FORMS = {"new": "delete", "new[]": "delete[]", "malloc": "free"}


def flagged(f, k):
    """fields of the object that the function gives a value that is not nothing, or tests"""
    out = set()
    for i, n in enumerate(f.n):
        v, x = (n.get("v"), n["a"][0]) if n["k"] == "init" and n.get("a") else (bare(f, n["a"][0]).get("v"), n["a"][1]) if n["k"] == "assign" else (None, None)
        if v and v != k and peval(f, x, {}) not in (0, None):
            out.add(v)
    if f.kind == "dtor":
        out |= {n["v"] for n in f.n if n["k"] == "mem"}
    return out


def tests(f, v):
    return any((b.get("t") or {}).get("c") is not None and any(f.n[j].get("v") == v for j in subtree(f, b["t"]["c"]))
               for b in (x if isinstance(x, dict) else f.blocks[x] for x in f.blocks))


def bare(f, i):
    n = f.n[i]
    while n["k"] in ("cast", "narrow") and n.get("a"):
        n = f.n[n["a"][0]]
    return n


def first_arg(t):
    d = 0
    for x, c in enumerate(t):
        if c == "<":
            d += 1
        elif c == ">":
            if d == 0:
                return t[:x]
            d -= 1
        elif c == "," and d == 0:
            return t[:x]
    return t


def after(f, i):
    """elements that can run after element i"""
    b0, k0 = f.elpos()[i]
    out = list(f.blocks[b0]["e"][k0 + 1:])
    seen, todo = set(), [s for s in f.succs(b0) if s >= 0]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        out += f.blocks[b]["e"]
        todo += [s for s in f.succs(b) if s >= 0]
    return out


def touches(H, f, k, sets=False, seen=()):
    if f.u in seen:
        return False
    st = HeapState(H, f, k, "heap", True)
    for i in f.elpos():
        for ef in st.effect(i):
            if ef in ("acq", "rel") or ef[0] == "set" and sets or ef[0] == "call" and touches(H, ef[1], k, False, seen + (f.u,)):
                return True
    return False


resources.FAILURE["heap"] = 0
resources.EMPTY["heap"] = 0
resources.CALLS["heap"] = "delete"
