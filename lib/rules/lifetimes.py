"""What is referred to is still there (C24): references, pointers, iterators and views are not used after what they refer to has ended,
moved elsewhere in its container, or been moved from.

Each local reference, pointer, iterator or view is followed through the control flow graph with the set of places it may refer to: a path
from a root (a local variable, a temporary, the object, a parameter, a global) through members and '*' (what a container or owner holds).
Destructors, calls that take elements away from a container or move them about, and std::move end places; a use afterwards is reported.
What a function returns a reference to, which of its parameters' contents it changes and which it keeps are summarised from its body.
"""
import re
import engine
from rules.lockuse import subtree

ITER = re.compile(r"__normal_iterator|_Rb_tree_(const_)?iterator|_List_(const_)?iterator|_Deque_iterator|_Node_(const_)?iterator|_Fwd_list_(const_)?iterator|reverse_iterator<|basic_string_view|std::span<|reference_wrapper<|_Bit_iterator|istreambuf_iterator")
SEQ = re.compile(r"^(const )?(std::(__cxx11::)?)(vector|basic_string|deque)<")
NODE = re.compile(r"^(const )?(std::(__cxx11::)?)(map|set|multimap|multiset|list|forward_list|unordered_map|unordered_set|unordered_multimap)<")
HASH = re.compile(r"^(const )?std::unordered_")
OWNER = re.compile(r"^(const )?std::(unique_ptr|optional|vector|array)<")
# what a container lends
LEND = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "front", "back", "at", "operator[]", "data", "c_str", "find", "lower_bound", "upper_bound", "equal_range",
        "operator*", "operator->", "get", "value", "operator basic_string_view", "top", "str"}
MUT_SEQ = {"push_back", "emplace_back", "insert", "emplace", "erase", "clear", "resize", "reserve", "assign", "append", "operator+=", "operator=", "shrink_to_fit", "push_front", "emplace_front", "replace",
           "pop_front"}
MUT_NODE = {"erase", "clear", "operator=", "pop_front", "pop_back", "remove", "remove_if", "unique", "extract"}
PASS = {"std::min", "std::max", "std::next", "std::prev", "std::find", "std::find_if", "std::find_if_not", "std::lower_bound", "std::upper_bound", "std::min_element", "std::max_element",
        "std::remove", "std::remove_if", "std::unique", "std::forward", "std::move", "std::as_const", "std::addressof", "std::begin", "std::end", "std::cbegin", "std::cend", "std::ref", "std::cref",
        "std::data", "std::get", "std::partition", "std::rotate", "std::search", "std::find_first_of", "std::adjacent_find", "std::make_reverse_iterator", "std::tie"}
DEPTH = 6
# what is of no use once it was moved from
MOVED = re.compile(r"^(std::(__cxx11::)?(unique_ptr|shared_ptr|vector|basic_string|map|set|list|deque|function|unordered_map|unordered_set|optional)<|eckit::|std::thread|std::future)")


TEMP = re.compile(r"^const (std::(__cxx11::)?(basic_string|vector|map|set|list|function|pair|unique_ptr|shared_ptr)<.*|eckit::(PathName|LocalPathName|URI|Length|Offset)) ?&$")
# objects made where what they refer to outlives them
BINDS = {"eckit::geo::iterator::Unstructured": "of the grid that is iterated over", "eckit::sql::expression::OrderByExpressions": "of the SQLOrderOutput whose map it is a key of"}


def pointery(t):
    """a reference, pointer, iterator or view; not a function pointer"""
    if not t:
        return False
    if t.endswith("&&") or t.endswith("&") or t.endswith("*") or t.endswith("*const"):
        return "(*" not in t
    return bool(ITER.search(t)) and not re.match(r"(const )?std::(__cxx11::)?(vector|map|set|list|basic_string|unique_ptr|function|deque)<", t)


def isref(t):
    return bool(t) and t.endswith("&") and "(*" not in t


def last(n):
    return n.get("q", "").split("::")[-1]


class Life:
    def __init__(self, P, ctx):
        self.P, self.ctx = P, ctx
        self.rets = {}
        self.keeps = {}
        self.muts = {}
        self.busy = set()
        self.seen = 0

    # ---- summaries

    def ret(self, u):
        """what a function returns a reference to, in terms of its parameters and of the object"""
        if u in self.rets:
            return self.rets[u]
        f = self.P.fns.get(u)
        if f is None or not f.blocks or u in self.busy or len(self.busy) > 12:
            return frozenset()
        if not pointery(f.r.get("rt", "")):
            self.rets[u] = frozenset()
            return self.rets[u]
        self.busy.add(u)
        try:
            w = Flow(self, f, quiet=True)
            w.run()
            out = frozenset(o for o in w.returned if o[0][0] in ("pp", "this") and len(o) < 6)
        finally:
            self.busy.discard(u)
        self.rets[u] = out
        return out

    def kept(self, u, depth=0):
        """the parameters of a constructor that the object goes on referring to, as (index, path)"""
        if u in self.keeps:
            return self.keeps[u]
        f = self.P.fns.get(u)
        if f is None or depth > DEPTH:
            return frozenset()
        self.keeps[u] = frozenset()
        w = Flow(self, f, quiet=True)
        w.why, w.movedat, w.targets = {}, {}, set()
        ps = [p["v"] for p in f.r.get("p", ())]
        out = set()

        def note(o):
            for x in o:
                if x[0][0] == "pp" and x[0][1] in ps:
                    out.add((ps.index(x[0][1]), x[1:]))
        for i, n in f.nodes_of("init"):
            a = n.get("a")
            if not a:
                continue
            fld = self.field(n.get("v")) if n.get("v") else None
            if n.get("base") or n.get("deleg") or fld and not pointery(fld):
                if f.n[a[0]]["k"] == "ctor":
                    note(w.held(a[0], depth + 1))
            elif fld and pointery(fld):
                note(w.path(a[0]) if isref(fld) else w.val(a[0]))
        for i, n in f.nodes_of("assign"):
            t = f.n[n["a"][0]]
            if t["k"] == "mem" and f.n[t["b"]]["k"] == "this" and pointery(self.field(t.get("v")) or "") and n["op"] == "=":
                note(w.val(n["a"][1]))
        self.keeps[u] = frozenset(out)
        return self.keeps[u]

    def field(self, v):
        if not hasattr(self, "fields"):
            self.fields = {x["v"]: x["t"] for r in self.P.recs.values() for x in r["fields"]}
        return self.fields.get(v)

    def mut(self, u, depth=0):
        """the containers a function may take elements away from or move: paths from this, parameters and globals"""
        if u in self.muts:
            return self.muts[u]
        f = self.P.fns.get(u)
        if f is None or not f.blocks or depth > DEPTH:
            return frozenset()
        self.muts[u] = frozenset()
        w = Flow(self, f, quiet=True)
        out = set()
        for i, n in f.nodes_of("call"):
            for p in w.mutated(i, n, depth):
                if p[0][0] in ("this", "pp", "g") and len(p) < 6:
                    out.add(p)
        self.muts[u] = frozenset(out)
        return self.muts[u]


class Flow:
    def __init__(self, life, f, quiet=False):
        self.life, self.P, self.f, self.quiet = life, life.P, f, quiet
        self.params = {p["v"]: p for p in f.r.get("p", ())}
        self.state = {}
        self.returned = set()
        self.found = {}
        self.checks = 0
        self.tempdtor = {n["a"][0] for _, n in f.nodes_of("dtor") if n.get("w") == "temp" and n.get("a")}
        self.ty = {}
        for _, n in f.nodes_of("decl"):
            for d in n["d"]:
                self.ty[d["v"]] = d.get("t", "")
        for v, p in self.params.items():
            self.ty[v] = p.get("t", "")

    # ---- where an expression is

    def vars(self, n):
        v = n["v"]
        return self.state.get(v, frozenset())

    def path(self, i, d=0):
        f, n = self.f, self.f.n[i]
        k = n["k"]
        if d > 25:
            return frozenset()
        if n.get("mt") == "full" and k not in ("ref", "mem"):
            return frozenset([(("t", i),)])
        if n.get("mt") == "auto" and k not in ("ref", "mem"):
            return frozenset([(("l", "extended"),)])
        if k == "ref":
            if "b" in n and isinstance(n["b"], int):
                return self.path(n["b"], d + 1)
            if n["vk"] in ("global", "smember", "slocal"):
                return frozenset([(("g", n["v"]),)]) if not n.get("isref") else frozenset()
            t = self.ty.get(n["v"])
            if n.get("isref") or isref(t):
                if n["v"] in self.params:
                    return frozenset([(("pp", n["v"]),)])
                return frozenset(o for o, ok in self.vars(n))
            if t is None and n["vk"] == "local":
                return frozenset()       # a variable of an enclosing function
            return frozenset([(("l", n["v"]),)])
        if k == "this":
            return frozenset([(("this",),)])
        if k == "mem":
            if "v" not in n or not isinstance(n.get("b"), int):
                return frozenset()
            b = self.val(n["b"], d + 1) if n.get("arrow") else self.path(n["b"], d + 1)
            fld = self.field(n["v"])
            if fld and isref(fld):
                return frozenset()
            return frozenset(o + (n["v"],) for o in b if len(o) < 7)
        if k == "un" and n["op"] == "*":
            return self.val(n["a"][0], d + 1)
        if k == "un" and n["op"] in ("++", "--") and not n.get("post"):
            return self.path(n["a"][0], d + 1)
        if k == "idx":
            return self.val(n["a"][0], d + 1)
        if k in ("cast", "narrow", "definit") and n.get("a"):
            return self.path(n["a"][0], d + 1)
        if k == "cond":
            return self.path(n["a"][1], d + 1) | self.path(n["a"][2], d + 1)
        if k == "assign":
            return self.path(n["a"][0], d + 1)
        if k == "bin" and n["op"] == ",":
            return self.path(n["a"][1], d + 1)
        if k == "call":
            return self.called(i, n, d)
        return frozenset()

    def field(self, v):
        return self.life.field(v)

    def held(self, i, d=0):
        """what the object that a constructor makes goes on referring to"""
        n = self.f.n[i]
        if n["k"] != "ctor" or not n.get("f") or n.get("copy") or n.get("move"):
            return frozenset()
        out = set()
        g = self.P.fns.get(n["f"])
        if g is None:
            return frozenset()
        a = n.get("a", ())
        for k, rest in self.life.kept(n["f"], d):
            if k < len(a):
                pt = g.r["p"][k].get("t", "")
                x = a[k]
                y = self.path(x) if isref(pt) else self.val(x)
                out |= {z + rest for z in y if len(z) < 7}
        return frozenset(out)

    def val(self, i, d=0):
        """what the pointer, iterator or view that an expression is refers to"""
        f, n = self.f, self.f.n[i]
        k = n["k"]
        t = n.get("t", "")
        if d > 25:
            return frozenset()
        if k in ("ref", "mem") and "[" in t and not ITER.search(t):
            return self.path(i, d + 1)
        if k == "ref":
            if n["vk"] in ("global", "smember", "slocal"):
                return frozenset()
            if n["v"] in self.params and not n.get("isref") and n["v"] not in self.state:
                return frozenset([(("pp", n["v"]),)])
            if n.get("isref"):
                return frozenset()
            return frozenset(o for o, ok in self.vars(n))
        if k == "this":
            return frozenset([(("this",),)])
        if k == "un" and n["op"] == "&":
            return self.path(n["a"][0], d + 1)
        if k == "un" and n["op"] in ("++", "--"):
            return self.val(n["a"][0], d + 1)
        if k in ("cast", "narrow", "definit") and n.get("a"):
            return self.val(n["a"][0], d + 1)
        if k == "cond":
            return self.val(n["a"][1], d + 1) | self.val(n["a"][2], d + 1)
        if k == "assign":
            return self.val(n["a"][1] if n["op"] == "=" else n["a"][0], d + 1)
        if k == "bin":
            if n["op"] == ",":
                return self.val(n["a"][1], d + 1)
            out = frozenset()
            if n["op"] in ("+", "-") and pointery(t):
                for a in n["a"]:
                    if pointery(f.n[a].get("t", "")) or "[" in f.n[a].get("t", ""):
                        out |= self.val(a, d + 1)
            return out
        if k == "ctor":
            out = frozenset()
            if pointery(t):
                for a in n.get("a", ()):
                    ta = f.n[a].get("t", "")
                    if pointery(ta) or "[" in ta:
                        out |= self.val(a, d + 1)
            elif t.startswith(("std::function<", "const std::function<")):
                for a in n.get("a", ()):
                    out |= self.val(a, d + 1)
            return out
        if k == "new":
            a = [x for x in n.get("a", ())]
            return self.held(a[0]) if len(a) == 1 and f.n[a[0]]["k"] == "ctor" else frozenset()
        if k == "lambda":
            out = frozenset()
            for c in n.get("caps", ()):
                if c.get("br") and c.get("v") is not None and not isref(self.ty.get(c["v"], "&")) :
                    out |= frozenset([(("l", c["v"]),)])
            return out
        if k == "call":
            if n.get("gl"):
                return frozenset()     # a pointer that is stored somewhere
            return self.called(i, n, d)
        return frozenset()

    def called(self, i, n, d):
        """what a call's result refers to"""
        f = self.f
        q = n.get("q", "")
        m = last(n)
        t = n.get("t", "")
        o = n.get("o") if isinstance(n.get("o"), int) and n["o"] >= 0 else None
        a = n.get("a", ())
        if not n.get("gl") and not pointery(t) and not n.get("mt"):
            return frozenset()
        if q.startswith(("std::", "__gnu_cxx::")):
            if o is not None and n.get("cls"):
                ot = n["cls"]
                if m in ("operator++", "operator--", "operator+", "operator-", "operator+=", "operator-=", "base") or ITER.search(ot) and not SEQ.match(ot) and not NODE.match(ot):
                    if m in ("operator*", "operator->", "operator[]", "base", "operator++", "operator--", "operator+", "operator-", "operator+=", "operator-=", "data", "begin", "end"):
                        return self.both(o, d)
                    return frozenset()
                if re.match(r"(const )?std::(shared_ptr|weak_ptr|__shared_ptr)", ot):
                    return frozenset()
                if m in ("operator=", "append", "assign", "operator+="):
                    return self.path(o, d + 1)
                if m in LEND or m in ("insert", "emplace", "erase", "emplace_back") or m.startswith("operator std::basic_string_view") or m == "operator basic_string_view":
                    base = self.val(o, d + 1) if n.get("arrow") else self.path(o, d + 1)
                    return frozenset(x + ("*",) for x in base if len(x) < 7)
                return frozenset()
            if q in PASS or m in ("operator+", "operator-") and a and pointery(t):
                out = frozenset()
                for x in a:
                    xt = f.n[x].get("t", "")
                    if n.get("gl") and not pointery(t):
                        if q not in ("std::min", "std::max") or True:
                            out |= self.path(x, d + 1)
                    elif pointery(xt) or "[" in xt:
                        out |= self.val(x, d + 1)
                    elif q in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::data"):
                        out |= frozenset(y + ("*",) for y in self.path(x, d + 1))
                if q == "std::get" and not n.get("gl"):
                    return frozenset()
                return out
            return frozenset()
        # by its body
        out = set()
        tg = self.P.targets(n) if n.get("f") else []
        if len(tg) > 8:
            return frozenset()
        for u in tg:
            u = getattr(u, "u", u)
            g = self.P.fns.get(u)
            if g is None:
                continue
            for r in self.life.ret(u):
                root = r[0]
                if root[0] == "this":
                    if o is None:
                        base = frozenset([(("this",),)])
                    else:
                        base = self.val(o, d + 1) if n.get("arrow") else self.path(o, d + 1)
                    out |= {x + r[1:] for x in base if len(x) + len(r) < 9}
                else:
                    ps = [p["v"] for p in g.r.get("p", ())]
                    if root[1] in ps and ps.index(root[1]) < len(a):
                        x = a[ps.index(root[1])]
                        pt = g.r["p"][ps.index(root[1])].get("t", "")
                        base = self.path(x, d + 1) if isref(pt) else self.val(x, d + 1)
                        out |= {y + r[1:] for y in base if len(y) + len(r) < 9}
        return frozenset(out)

    def both(self, i, d):
        n = self.f.n[i]
        return self.val(i, d + 1) if not n.get("mt") or n["k"] == "call" else self.val(i, d + 1)

    # ---- what ends places

    def mutated(self, i, n, depth=0):
        """paths of the containers whose elements a call may remove or move"""
        q, m = n.get("q", ""), last(n)
        o = n.get("o") if isinstance(n.get("o"), int) and n["o"] >= 0 else None
        out = set()
        if q.startswith("std::"):
            cls = n.get("cls", "")
            if o is None or n.get("mc"):
                return out
            if SEQ.match(cls) and m in MUT_SEQ or NODE.match(cls) and m in MUT_NODE:
                if NODE.match(cls) and m == "erase" and self.erasedvar(n) is not None:
                    return out
                base = self.val(o) if n.get("arrow") else self.path(o)
                out |= {b + ("*",) for b in base}
            return out
        if not n.get("f") or n.get("mc"):
            return out
        g = self.P.fns.get(n["f"])
        if g is None or n.get("v") and self.P.overriders(n["f"]):
            return out
        for r in self.life.mut(n["f"], depth + 1):
            root = r[0]
            if root[0] == "this":
                if g.kind == "lambda":
                    base = ()
                elif o is None:
                    base = [(("this",),)]
                else:
                    base = self.val(o) if n.get("arrow") else self.path(o)
                out |= {b + r[1:] for b in base}
            elif root[0] == "g":
                out.add(r)
            else:
                ps = [p["v"] for p in g.r.get("p", ())]
                a = n.get("a", ())
                if root[1] in ps and ps.index(root[1]) < len(a):
                    pt = g.r["p"][ps.index(root[1])].get("t", "")
                    x = a[ps.index(root[1])]
                    out |= {b + r[1:] for b in (self.path(x) if isref(pt) else self.val(x))}
        return out

    def before(self, n):
        """v.erase(j + 1) leaves j where it is"""
        f = self.f
        if last(n) != "erase" or not n.get("a") or not re.match(r"(const )?std::(__cxx11::)?(vector|basic_string)<", n.get("cls", "")):
            return None
        i = n["a"][0]
        for _ in range(6):
            x = f.n[i]
            if x["k"] in ("cast", "narrow", "definit") or x["k"] == "ctor" and len(x.get("a", ())) == 1:
                i = x["a"][0]
            else:
                break
        x = f.n[i]
        if x["k"] == "call" and (last(x) == "operator+" or x.get("q") == "std::next"):
            a = ([x["o"]] if isinstance(x.get("o"), int) and x["o"] >= 0 else []) + list(x.get("a", ()))
            if f.n[a[0]]["k"] == "ref" and (len(a) < 2 or str(f.n[a[1]].get("c", "0")).isdigit() and str(f.n[a[1]].get("c", "0")) != "0" or f.n[a[1]]["k"] == "defarg"):
                return f.n[a[0]]["v"]
        return None

    def erasedvar(self, n):
        """the variable an iterator that is erased is held in, -1 for an iterator that is in none, None for a key"""
        f = self.f
        a = n.get("a", ())
        if not a:
            return None
        i = a[0]
        for _ in range(6):
            x = f.n[i]
            if x["k"] in ("cast", "narrow", "definit") or x["k"] == "ctor" and len(x.get("a", ())) == 1 and pointery(x.get("t", "")):
                i = x["a"][0]
            else:
                break
        x = f.n[i]
        if not ITER.search(x.get("t", "")):
            return None
        return x["v"] if x["k"] == "ref" else -1

    # ---- the flow

    def tracked(self, v):
        t = self.ty.get(v)
        return t is not None and v not in self.params and (pointery(t) or t.startswith(("std::function<", "const std::function<")))

    def kill(self, pred, why, e):
        for v, s in list(self.state.items()):
            if any(ok and pred(o) for o, ok in s):
                self.state[v] = frozenset((o, (False if pred(o) else ok)) for o, ok in s)
                for o, ok in s:
                    if ok and pred(o):
                        self.why.setdefault((v, o), (why, e))

    def reseated(self, v):
        for w, s in list(self.state.items()):
            if isinstance(w, tuple) and w[0] == "via" and any(y == v for y, ok in s):
                self.state[w] = frozenset((y, ok) for y, ok in s if y != v)

    def set(self, v, origins, e, i=None):
        self.reseated(v)
        self.state[v] = frozenset((o, True) for o in origins)
        for o in origins:
            self.why.pop((v, o), None)
            # a temporary with nothing to destroy ends with the declaration
            if o[0][0] == "t" and o[0][1] not in self.tempdtor and v in self.ty:
                self.state[v] = frozenset((x, ok and x != o) for x, ok in self.state[v])
                self.why[(v, o)] = ("temp", e)

    def element(self, e, n):
        f = self.f
        k = n["k"]
        if k == "decl":
            for d in n["d"]:
                v = d["v"]
                self.state.pop(("moved", v), None)
                if not self.tracked(v):
                    i = d.get("i")
                    if isinstance(i, int) and i >= 0 and f.n[i]["k"] == "ctor" and not f.n[i].get("copy"):
                        o = self.held(i)
                        self.state.pop(v, None)
                        if o:
                            self.set(v, o, e)
                    continue
                if isinstance(d.get("i"), int) and d["i"] >= 0:
                    o = self.path(d["i"]) if isref(d.get("t", "")) else self.val(d["i"])
                    if f.n[d["i"]].get("mt") in ("auto", "static"):
                        o = frozenset() if f.n[d["i"]]["k"] != "call" else frozenset([(("l", "extended"),)])
                    self.set(v, o, e)
                    if isref(d.get("t", "")) or d.get("t", "").endswith("*"):
                        self.state[("via", v)] = frozenset((f.n[j]["v"], True) for j in subtree(f, d["i"])
                                                           if f.n[j]["k"] == "ref" and ITER.search(f.n[j].get("t", "")) and f.n[j]["v"] in self.ty)
                else:
                    self.state[v] = frozenset()
        elif k == "ref":
            self.use(e, n)
        elif k == "assign":
            t = f.n[n["a"][0]]
            if t["k"] == "ref" and t.get("v") in self.ty and not t.get("isref") and (self.tracked(t["v"]) or t["v"] in self.params and pointery(self.ty[t["v"]])):
                if n["op"] == "=":
                    self.set(t["v"], self.val(n["a"][1]), e)
            elif t["k"] in ("mem", "ref"):
                self.keep(e, t, n["a"][1])
        elif k == "call":
            o = n.get("o") if isinstance(n.get("o"), int) and n["o"] >= 0 else None
            if last(n) == "operator=" and o is not None and n.get("a"):
                t = f.n[o]
                if t["k"] == "ref" and self.tracked(t.get("v")) and not t.get("isref"):
                    self.set(t["v"], self.val(n["a"][0]), e)
                    return
                if t["k"] in ("mem", "ref") and (pointery(t.get("t", "")) or "std::function<" in t.get("t", "")[:22]):
                    self.keep(e, t, n["a"][0])
            self.moves(e, n, o)
            if last(n) in ("operator++", "operator--", "operator+=", "operator-=") and o is not None and f.n[o]["k"] == "ref":
                self.reseated(f.n[o]["v"])
            before = self.before(n)
            stays = self.state.get(before)
            for p in self.mutated(e, n):
                self.kill(lambda x, p=p: x[:len(p)] == p, "changed", e)
            if stays is not None:
                self.state[before] = stays
            if last(n) == "erase" and n.get("q", "").startswith("std::") and NODE.match(n.get("cls", "")):
                v = self.erasedvar(n)
                if v is not None and v != -1 and v in self.state and len(n.get("a", ())) == 1:
                    s = self.state[v]
                    self.state[v] = frozenset((x, False) for x, ok in s)
                    for x, ok in s:
                        self.why[(v, x)] = ("erased", e)
                    # and what was reached through it
                    for w in [w[1] for w in self.state if isinstance(w, tuple) and w[0] == "via" and any(y == v for y, ok in self.state[w])]:
                        for x, ok in self.state.get(w, ()):
                            self.why.setdefault((w, x), ("erased", e))
                        self.state[w] = frozenset((x, False) for x, ok in self.state.get(w, ()))
        elif k == "dtor":
            if n.get("w") == "temp" and n.get("a"):
                r = ("t", n["a"][0])
                self.kill(lambda x: x[0] == r, "temp", e)
            elif n.get("w") == "auto" and n.get("v"):
                r = ("l", n["v"])
                self.kill(lambda x: x[0] == r, "scope", e)
        elif k == "ret":
            if n.get("a") and pointery(f.r.get("rt", "")):
                i = n["a"][0]
                o = self.path(i) if isref(f.r["rt"]) else self.val(i)
                self.checks += 1
                for x in o:
                    self.returned.add(x)
                    if x[0][0] in ("l", "t") and not self.quiet:
                        self.found.setdefault(("returned", self.name(x)), (e, "returns a reference to %s, which ends with the call" % self.name(x)))
            elif n.get("a") and f.n[n["a"][0]]["k"] == "ctor" and not f.r.get("rt", "").startswith("std::"):
                for x in self.held(n["a"][0]):
                    if x[0][0] in ("l", "t") and not self.quiet:
                        self.found.setdefault(("returned", self.name(x)), (e, "returns an object that refers to %s, which ends with the call" % self.name(x)))
            elif n.get("a") and f.r.get("rt", "").startswith("std::function<"):
                for x in self.val(n["a"][0]):
                    if x[0][0] == "l" and not self.quiet:
                        self.found.setdefault(("returned", self.name(x)), (e, "returns a function that refers to %s, which ends with the call" % self.name(x)))

    def moves(self, e, n, o):
        f = self.f
        if n.get("q") == "std::move" and len(n.get("a", ())) == 1:
            i = n["a"][0]
            # what it holds goes with what it holds it in
            for p in self.path(i):
                self.leave(p)
            x = f.n[i]
            if x["k"] == "ref" and x["vk"] in ("local", "param") and x["v"] in self.ty and "b" not in x:
                t = self.ty[x["v"]]
                if not t.endswith(("*", "]")) and (not isref(t) or t.endswith("&&")) and MOVED.match(t.replace("const ", "").rstrip("&")) and not t.startswith("const "):
                    if self.consumed(e):
                        self.state[("moved", x["v"])] = frozenset([((("moved",),), True)])
                        self.movedat[x["v"]] = e
                        self.targets.add(i)
        elif last(n) == "release" and o is not None:
            for p in (self.val(o) if n.get("arrow") else self.path(o)):
                self.leave(p)
        if o is not None and f.n[o]["k"] == "ref" and ("moved", f.n[o].get("v")) in self.state and last(n) in ("operator=", "clear", "reset", "assign", "swap", "resize"):
            self.state[("moved", f.n[o]["v"])] = frozenset()

    def consumed(self, e):
        """std::move(x) is handed to what takes it over"""
        ps = self.f.parents()
        p = ps.get(e) if isinstance(ps, dict) else ps[e]
        for x in (p if isinstance(p, (list, tuple, set)) else [p]):
            if x is None or not isinstance(x, int) or x < 0:
                continue
            n = self.f.n[x]
            if n["k"] == "ctor" and n.get("move") or n["k"] in ("ctor", "call") and last(n) != "move":
                pm = n.get("pm", ())
                a = n.get("a", ())
                # the part of it that its base class has
                if n["k"] == "ctor" or last(n) == "operator=":
                    t = self.f.n[e].get("t", "").replace("const ", "").rstrip("& ")
                    if n.get("cls", t).replace("const ", "") != t and any(r["t"] == t for r in self.recs_below(n.get("cls"))):
                        return False
                if n["k"] == "ctor" and n.get("move") or e in a and a.index(e) < len(pm) and pm[a.index(e)] in ("rr", "v"):
                    return True
        return False

    def recs_below(self, t):
        rs = [r for r in self.P.recs.values() if r.get("t") == t]
        return [x for r in rs for x in self.P.subclasses(r["q"]) for x in ([x] if isinstance(x, dict) else [self.P.recs.get(x)]) if x]

    def leave(self, p):
        for v, s in list(self.state.items()):
            if isinstance(v, tuple):
                continue
            new = frozenset((x, ok) for x, ok in s if x[:len(p) + 1] != p + ("*",))
            if new != s:
                self.state[v] = new

    def keep(self, e, t, val):
        """a member or a static variable is set to refer to something"""
        if not (pointery(t.get("t", "")) or "std::function<" in t.get("t", "")[:22]):
            return
        if t["k"] == "ref" and t.get("vk") in ("local", "param"):
            return
        if t["k"] == "mem":
            b = self.val(t["b"]) if t.get("arrow") else self.path(t["b"])
            if not b or any(x[0][0] in ("l", "t") for x in b):
                return
        key = ("kept", t.get("v"))
        o = {x for x in self.val(val) if x[0][0] in ("l", "t")}
        self.state[key] = frozenset((x, True) for x in o)
        self.keptat = getattr(self, "keptat", {})
        self.keptat[key] = (e, t.get("n"))

    def use(self, e, n):
        v = n.get("v")
        if self.quiet:
            return
        if self.state.get(("moved", v)):
            ps = self.f.parents()
            if e not in self.targets and not self.renewed(e):
                self.found.setdefault(("moved", v), (e, "uses %s after it was moved from (line %s)" % (n.get("n"), self.f.n[self.movedat[v]].get("l"))))
        if v not in self.state:
            return
        if e in self.targets:
            return
        self.checks += 1
        for o, ok in self.state[v]:
            if not ok:
                why, at = self.why.get((v, o), ("changed", e))
                if (why, v) not in self.found:
                    self.found[(why, v)] = (e, "uses %s after %s" % (n.get("n"), self.describe(why, o, at)))

    def renewed(self, e):
        """the reference is the object of a call that gives the variable a new value"""
        for i, n in self.f.nodes_of("call"):
            if n.get("o") == e and last(n) in ("operator=", "clear", "reset", "assign", "swap", "resize"):
                return True
        return False

    def describe(self, why, o, at):
        l = self.f.n[at].get("l")
        if why == "temp":
            return "the temporary it refers to has ended (line %s)" % l
        if why == "scope":
            return "the variable it refers to has ended (line %s)" % l
        if why == "erased":
            return "the element it refers to was erased (line %s)" % l
        return "the container it refers into has changed (line %s)" % l

    def name(self, x):
        r = x[0]
        if r[0] == "t":
            return "a temporary"
        if r[1] == "extended":
            return "a temporary"
        for _, n in self.f.nodes_of("decl"):
            for d in n["d"]:
                if d["v"] == r[1]:
                    return d["n"]
        p = self.params.get(r[1])
        return p["n"] if p else "a local variable"

    def interesting(self):
        return pointery(self.f.r.get("rt", "")) or self.f.r.get("rt", "").startswith("std::function<") or any(self.tracked(v) for v in self.ty) or any(True for _ in self.f.nodes_of("ctor")) \
            or any(self.f.n[n["a"][0]]["k"] in ("mem", "ref") and pointery(self.f.n[n["a"][0]].get("t", "")) for _, n in self.f.nodes_of("assign"))

    def run(self):
        f = self.f
        self.why = {}
        self.movedat = {}
        self.targets = set()
        for _, n in f.nodes_of("assign"):
            if n["op"] == "=":
                self.targets.add(n["a"][0])
        for _, n in f.nodes_of("call"):
            if last(n) == "operator=" and isinstance(n.get("o"), int):
                self.targets.add(n["o"])
        ins = {f.entry: {}}
        todo = [f.entry]
        rounds = 0
        exits = {}
        while todo and rounds < 4000:
            rounds += 1
            b = todo.pop(0)
            self.state = dict(ins[b])
            for e in f.blocks[b]["e"]:
                self.element(e, f.n[e])
            for s in f.blocks[b]["s"]:
                if s < 0:
                    continue
                old = ins.get(s)
                if old is None:
                    ins[s] = dict(self.state)
                    todo.append(s)
                    continue
                new = dict(old)
                ch = False
                for v, x in self.state.items():
                    y = new.get(v)
                    z = x if y is None else y | x
                    if z != y:
                        new[v] = z
                        ch = True
                if ch:
                    ins[s] = new
                    if s not in todo:
                        todo.append(s)
        end = ins.get(f.exit, {})
        if not self.quiet:
            for key, s in end.items():
                if isinstance(key, tuple) and key[0] == "kept" and s:
                    e, nm = self.keptat[key]
                    for x, ok in s:
                        self.found.setdefault(("kept", nm), (e, "leaves %s referring to %s, which ends with the call" % (nm, self.name(x))))
        return self


def run(P, ctx):
    ctx.rule("returned", "no function returns a reference, pointer, iterator or view of a local variable or of a temporary")
    ctx.rule("used", "no reference, pointer, iterator or view is used after what it refers to has ended, or after its container may have moved or removed it")
    ctx.rule("moved", "nothing is used after it was moved from, unless it was given a new value")
    ctx.rule("kept", "nothing that outlives a call is left referring to what ends with it")
    ctx.rule("binds", "no object goes on referring to a string, container or path that it was given by reference to const: a temporary would do")
    life = Life(P, ctx)
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.u)):
        if f.kind == "ctor" and f.file.startswith("src/") and f.cls and "(anon)" not in f.cls:
            kept = {k for k, rest in life.kept(f.u)}
            for k, p in enumerate(f.r.get("p", ())):
                if not TEMP.match(p.get("t", "")):
                    continue
                if k in kept and f.cls.split("<")[0] not in BINDS:
                    ctx.bad("binds", "%s:%s" % (f.cls, p.get("n")), "%s:%d" % (f.file, f.line), "%s goes on referring to %s, which may be a temporary" % (f.q, p.get("n")))
                else:
                    ctx.ok("binds")
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.u)):
        if not f.blocks or not f.file.startswith("src/"):
            continue
        w = Flow(life, f)
        if not w.interesting():
            continue
        w.run()
        ctx.ok("used", max(0, w.checks - len(w.found)))
        if pointery(f.r.get("rt", "")):
            ctx.ok("returned")
        ctx.ok("moved", len(w.movedat))
        for (kind, x), (e, msg) in sorted(w.found.items(), key=lambda z: (z[1][0], z[1][1])):
            rule = kind if kind in ("returned", "kept", "moved") else "used"
            ctx.bad(rule, "%s:%s" % (f.q, msg.split(" (line")[0]), f.loc(e), "%s %s" % (f.q, msg))
