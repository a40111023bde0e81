"""What is written to a Stream is what is read back: the wire language of each encoder against that of its decoder.

The items a function moves through its Stream parameter, calls inlined, form a regular language over primitive items (tag
numbers, 32-bit words, characters, byte runs); loops and branches give the automaton its loops and branches, paths that end in
an exception are left out. The languages of the two sides of a pair must be equal, and an item labelled with a field on both
sides must carry the same field."""
from collections import defaultdict, deque

S = "eckit::Stream"
PRIM = {S + "::writeTag": "tag", S + "::readTag": "tag", S + "::putLong": "u32", S + "::getLong": "u32", S + "::putChar": "u8",
        S + "::getChar": "u8", S + "::putBytes": "bytes", S + "::getBytes": "bytes", S + "::nextTag": "tag?"}
WRITES = {S + "::writeTag", S + "::putLong", S + "::putChar", S + "::putBytes"}
SKIP = {S + "::badTag", S + "::skipEndObject", S + "::lock", S + "::unlock", S + "::name", S + "::print", S + "::bytesWritten", S + "::resetBytesWritten",
        S + "::~Stream", S + "::Stream"}
FLIP = {"W": "R", "R": "W"}


def is_stream(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t == S


class Langs:
    def __init__(self, P):
        self.P = P
        self.streams = {S} | {r["q"] for r in P.subclasses(S)}
        self.memo = {}
        self.incomplete = set()

    def target(self, n):
        return self.P.fns.get(n.get("f"))

    def root(self, f, i, depth=0):
        """the variable a chain s << a << b starts from"""
        while i is not None and i >= 0 and depth < 60:
            depth += 1
            n = f.n[i]
            k = n["k"]
            if k in ("ref",):
                return n.get("v")
            if k == "this":
                return "this"
            if k in ("cast", "definit", "defarg", "narrow"):
                i = n["a"][0]
            elif k == "un" and n.get("op") == "*":
                i = n["a"][0]
            elif k == "call":
                if n.get("o") is not None and n["o"] >= 0:
                    i = n["o"]
                elif n.get("a"):
                    i = n["a"][0]
                else:
                    return None
            elif k == "mem":
                return ("mem", n.get("v"))
            else:
                return None
        return None

    # -- labels
    def field(self, f, i, depth=0, op=None):
        """the field of the function's object an expression stands for"""
        while i is not None and i >= 0 and depth < 12:
            depth += 1
            n = f.n[i]
            k = n["k"]
            if k == "mem":
                b = f.n[n["b"]] if n.get("b") is not None and n["b"] >= 0 else None
                if b and b["k"] == "mem":
                    i = n["b"]
                    continue
                return n.get("v")
            if k in ("cast", "narrow", "definit") and n.get("a"):
                i = n["a"][0]
                continue
            if k == "un" and n.get("op") in ("*", "&"):
                i = n["a"][0]
                continue
            if k == "ctor" and len(n.get("a", ())) == 1:
                i = n["a"][0]
                continue
            if k == "call" and n.get("o") is not None and not n.get("a"):
                return self.getter(self.target(n))
            if k == "ref" and n.get("vk") == "local":
                return self.flows(f, n["v"], op)
            return None
        return None

    def getter(self, g):
        """the field a function without arguments returns"""
        if g is None or g.cls is None:
            return None
        rets = [m for _, m in g.nodes_of("ret")]
        if len(rets) == 1 and rets[0].get("a"):
            i = rets[0]["a"][0]
            while g.n[i]["k"] in ("cast", "narrow") or g.n[i]["k"] == "ctor" and len(g.n[i].get("a", ())) == 1:
                i = g.n[i]["a"][0]
            if g.n[i]["k"] == "mem":
                return g.n[i].get("v")
        return None

    def setter(self, g):
        """the field a function of one argument sets"""
        if g is None or len(g.r.get("p", ())) != 1:
            return None
        return self.flows(g, g.r["p"][0]["v"], None)

    def flows(self, f, v, op):
        """the one field a local variable is copied to (after the operation that filled it, before it is filled again)"""
        pos = f.elpos()
        span = None
        if op is not None and op in pos:
            b, i = pos[op]
            es = f.blocks[b]["e"]
            refills = [x for x in range(i + 1, len(es)) if f.n[es[x]]["k"] == "call" and f.n[es[x]].get("op") in ("<<", ">>")
                       and any(self.plain(f, a, v) for a in f.n[es[x]].get("a", ()))]
            span = (b, i, refills[0] if refills else None)
        got = set()
        for i, n in enumerate(f.n):
            if span and span[2] is not None and not (i in pos and pos[i][0] == span[0] and span[1] < pos[i][1] < span[2]):
                continue
            if span and i in pos and pos[i][0] == span[0] and pos[i][1] < span[1]:
                continue
            if n["k"] == "assign" and n.get("op") == "=" and f.n[n["a"][0]]["k"] == "mem" and self.plain(f, n["a"][1], v):
                got.add(f.n[n["a"][0]]["v"])
            elif n["k"] == "call" and n.get("op") == "=" and n.get("o") is not None and f.n[n["o"]]["k"] == "mem" and n.get("a") \
                    and self.plain(f, n["a"][0], v):
                got.add(f.n[n["o"]]["v"])
            elif op is not None and n["k"] == "call" and n.get("o") is not None and len(n.get("a", ())) == 1 and self.plain(f, n["a"][0], v):
                got.add(self.setter(self.target(n)))
        return got.pop() if len(got) == 1 else None

    def plain(self, f, i, v):
        while i >= 0:
            n = f.n[i]
            if n["k"] == "ref":
                return n.get("v") == v
            if n["k"] in ("cast", "narrow") or n["k"] == "ctor" and len(n.get("a", ())) == 1:
                i = n["a"][0]
                continue
            return False
        return False

    def label(self, f, i, n):
        """label of a stream operation: its data argument's field, else the field it initialises"""
        q = n.get("q", "")
        args = [a for a in n.get("a", ())]
        if n["k"] == "call" and n.get("o") is None and args and is_stream(f.n[args[0]].get("t", "")):
            args = args[1:]
        if args:
            x = self.field(f, args[0], 0, i)
            if x:
                return x
        if n["k"] == "call" and n.get("o") is not None and f.n[n["o"]]["k"] == "mem":
            return f.n[n["o"]].get("v")        # member_.encode(s)
        cur = i
        for _ in range(6):
            ps = f.parents().get(cur, ())
            if not ps:
                return None
            p = f.n[ps[0]]
            if p["k"] == "init":
                return p.get("v")
            if p["k"] == "assign":
                return self.field(f, p["a"][0])
            if p["k"] not in ("cast", "narrow", "ctor", "new", "un"):
                return None
            cur = ps[0]
        return None

    def lab(self, f, e, n, label):
        if label is not None or f.cls == S:
            return label or None
        return self.label(f, e, n)

    def half(self, f, i, n):
        """which half of a 64-bit value an item carries"""
        def sh(x, d=0):
            m = f.n[x]
            if m["k"] == "bin" and m["op"] == ">>" and f.n[m["a"][1]].get("c") == "32":
                return "hi"
            if m["k"] == "bin" and m["op"] == "&":
                return "lo"
            if m["k"] == "mem" and m.get("n") in ("hi", "lo"):
                return m["n"]
            if m["k"] in ("cast", "narrow") and d < 6:
                return sh(m["a"][0], d + 1)
            return None
        for a in n.get("a", ()):
            r = sh(a)
            if r:
                return r
        cur = i
        for _ in range(5):
            ps = f.parents().get(cur, ())
            if not ps:
                return None
            p = f.n[ps[0]]
            if p["k"] == "assign":
                t = f.n[p["a"][0]]
                return t["n"] if t["k"] == "mem" and t.get("n") in ("hi", "lo") else None
            if p["k"] == "decl":
                for d in p["d"]:
                    if d.get("i") == cur:
                        return self.shifted(f, d["v"])
                return None
            if p["k"] == "bin":
                if p["op"] == "<<" and f.n[p["a"][1]].get("c") == "32":
                    return "hi"
                return None
            cur = ps[0]
        return None

    def shifted(self, f, v):
        used, up = False, False
        for i, n in enumerate(f.n):
            if n["k"] == "bin" and n["op"] in ("<<", "|", "+"):
                for x in n["a"]:
                    while f.n[x]["k"] in ("cast", "narrow"):
                        x = f.n[x]["a"][0]
                    if f.n[x]["k"] == "ref" and f.n[x].get("v") == v:
                        used = True
                        if n["op"] == "<<":
                            up = True
        return ("hi" if up else "lo") if used else None

    def own(self, f, n):
        """the call works on the same object: a base class, a helper function"""
        if n["k"] == "ctor":
            return any(f.n[p]["k"] == "init" and (f.n[p].get("base") or f.n[p].get("deleg")) for p in f.parents().get(f.n.index(n), ()))
        if n.get("o") is not None and f.n[n["o"]]["k"] == "this":
            return True
        ps = {p["v"] for p in f.r.get("p", ())}
        return any(f.n[a]["k"] == "ref" and f.n[a].get("v") in ps for a in [n["o"]] if a is not None) if n.get("o") is not None and not is_stream(f.n[n["o"]].get("t", "")) \
            else any(f.n[a]["k"] == "ref" and f.n[a].get("v") in ps and not is_stream(f.n[a].get("t", "")) for a in n.get("a", ()))

    # -- automata: {state: [(item or None, state)]}, start, end;  item = (direction, kind, detail, label, half)
    def build(self, f, var, A, stack, label=None):
        """adds f's automaton to A; returns (start, end)"""
        start, end = A.new(), A.new()
        entry = {}
        for b in f.blocks:
            entry[b] = A.new()
        A.edge(start, None, entry[f.entry])
        A.edge(entry[f.exit], None, end)
        for b in f.blocks.values():
            if b["i"] == f.exit:
                continue
            cur = entry[b["i"]]
            dead = bool(b.get("nr"))
            for e in b["e"]:
                n = f.n[e]
                if n["k"] == "throw" or n.get("q") in ("eckit::Assert", "eckit::Panic", "eckit::Stream::badTag"):
                    dead = True
                    break
                if n["k"] not in ("call", "ctor"):
                    continue
                r = self.step(f, e, n, var, A, cur, stack, label)
                if r == "dead":
                    dead = True
                    break
                cur = r
            if dead:
                continue
            for s in f.succs(b["i"]):
                A.edge(cur, None, entry[s])
        return start, end

    def step(self, f, e, n, var, A, cur, stack, label):
        q = n.get("q", "")
        if n.get("nr"):
            return "dead"
        if q in PRIM:
            if self.root(f, n.get("o")) != var:
                return cur
            kind, detail = PRIM[q], None
            if kind == "tag":
                c = f.n[n["a"][0]] if n.get("a") else {}
                detail = c.get("c") or c.get("n")
                if detail is None:
                    while c.get("k") in ("cast", "defarg") and c.get("a"):
                        c = f.n[c["a"][0]]
                    detail = c.get("c") or c.get("n")
            if kind == "bytes":
                c = f.n[n["a"][1]].get("c")
                detail = c
            nx = A.new()
            A.edge(cur, ("W" if q in WRITES else "R", kind, detail, self.lab(f, e, n, label), self.half(f, e, n), f.loc(e)), nx)
            return nx
        if q in SKIP:
            return "dead" if q.endswith("badTag") else cur
        # does the operation touch our stream?
        sub = None
        if n["k"] == "call" and n.get("o") is not None and n["o"] >= 0 and f.n[n["o"]].get("t", "").replace("const ", "").rstrip(" *&") in self.streams:
            if self.root(f, n["o"]) == var:
                sub = "this"
        if sub is None:
            for x, a in enumerate(n.get("a", ())):
                t = f.n[a].get("t", "").replace("const ", "").rstrip(" *&")
                if t in self.streams and (n.get("pm") or [None] * 9)[x:x + 1] != ["v"] and self.root(f, a) == var:
                    sub = x
                    break
        if sub is None:
            return cur
        lab = label
        if label is None and f.cls != S and not self.own(f, n):
            lab = self.label(f, e, n) or False      # False: not known, and the labels inside it are not ours
        if n["k"] == "call" and any("std::exception" in t for t in (p["t"] for p in (self.target(n).r["p"] if self.target(n) else ()))):
            return "dead"       # readers accept an exception anywhere
        # whole objects go through Streamable / Reanimator
        if q == "eckit::operator<<" and len(n.get("a", ())) == 2 and n.get("f", "").endswith("S@Streamable#"):
            nx = A.new()
            A.edge(cur, ("W", "object", None, lab or None, None, f.loc(e)), nx)
            return nx
        if q in ("eckit::operator<<", "eckit::Params::decode") and n.get("t", "") in (S, "eckit::Params") and (q == "eckit::Params::decode" or n.get("f", "").endswith("S@Params#")):
            nx = A.new()
            A.edge(cur, ("R" if q.endswith("decode") else "W", "parameters", None, lab or None, None, f.loc(e)), nx)
            return nx
        if q.startswith("eckit::Reanimator") and q.endswith("::reanimate"):
            nx = A.new()
            A.edge(cur, ("R", "object", None, lab or None, None, f.loc(e)), nx)
            return nx
        g = self.target(n)
        base = q.rsplit("::", 1)[-1]
        if q == "eckit::Params::Concept::encode_":
            nx = A.new()
            A.edge(cur, ("W", "parameters", None, lab or None, None, f.loc(e)), nx)
            return nx
        if n.get("v") and base in ("encode", "encode_", "send", "receive") and f.n[n["o"]]["k"] != "this" and g is not None and self.P.overriders(g.u):
            nx = A.new()
            A.edge(cur, ("W" if base != "receive" else "R", "virtual " + q, None, lab or None, None, f.loc(e)), nx)
            return nx
        if g is None or g.u in stack or len(stack) > 14:
            nx = A.new()
            A.edge(cur, ("W" if "<<" in q or "write" in q or "encode" in q else "R", "call " + q.replace("<<", "").replace(">>", ""), None, lab or None, None, f.loc(e)), nx)
            if g is None:
                self.incomplete.add(q)
            return nx
        v2 = "this" if sub == "this" else g.r["p"][sub]["v"]
        s, t = self.build(g, v2, A, stack | {g.u}, lab)
        A.edge(cur, None, s)
        if not A.reaches(s, t):
            return "dead"
        return t

    def lang(self, f, var):
        A = Auto()
        s, t = self.build(f, var, A, frozenset([f.u]))
        return A.trim(s, t)


class Auto:
    def __init__(self):
        self.n = 0
        self.e = defaultdict(list)

    def new(self):
        self.n += 1
        return self.n

    def edge(self, a, x, b):
        self.e[a].append((x, b))

    def reaches(self, s, t):
        seen, todo = set(), [s]
        while todo:
            x = todo.pop()
            if x == t:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo += [b for _, b in self.e[x]]
        return False

    def trim(self, s, t):
        back = defaultdict(set)
        for a, es in self.e.items():
            for _, b in es:
                back[b].add(a)
        live, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x in live:
                continue
            live.add(x)
            todo += back[x]
        return Dfa(self, s, t, live)


class Dfa:
    """the automaton made deterministic on the fly; symbols are (direction, kind, detail)"""

    def __init__(self, A, s, t, live):
        self.A, self.s, self.t, self.live = A, s, t, live

    def close(self, xs):
        out, todo = set(), list(xs)
        while todo:
            x = todo.pop()
            if x in out or x not in self.live:
                continue
            out.add(x)
            todo += [b for a, b in self.A.e[x] if a is None]
        return frozenset(out)

    def start(self):
        return self.close([self.s])

    def out(self, X):
        """symbol -> (next, labels, halves, where)"""
        d = defaultdict(lambda: [set(), set(), set(), None])
        for x in X:
            for a, b in self.A.e[x]:
                if a is not None and b in self.live:
                    r = d[a[:3]]
                    r[0].add(b)
                    r[1].add(a[3])
                    r[2].add(a[4])
                    r[3] = a[5]
        return {k: (self.close(v[0]), v[1], v[2], v[3]) for k, v in d.items()}

    def final(self, X):
        return self.t in X

    def empty(self):
        X = self.start()
        return not self.out(X)


def flip(k):
    return (FLIP[k[0]],) + k[1:]


def show(k):
    return k[1] + (":" + str(k[2]) if k[2] else "")


def compare(a, b, tagmap, skipfirst=False):
    """None, or (message, where)"""
    todo = deque([(a.start(), b.start(), ())])
    seen = set()
    while todo:
        X, Y, w = todo.popleft()
        if (X, Y) in seen:
            continue
        seen.add((X, Y))
        if a.final(X) != b.final(Y):
            return ("after [%s] %s may end and the other does not" % (" ".join(w[-6:]), "the writer" if a.final(X) else "the reader"), None)
        ox, oy = a.out(X), b.out(Y)
        if len(seen) == 1 and skipfirst:
            pass
        for k, (nx, lx, hx, wx) in ox.items():
            k2 = flip(k)
            if k2 not in oy:
                alt = [j for j in oy if j[0] == k2[0] and j[1] == "tag?" and k[1] == "tag"]
                if alt:
                    k2 = alt[0]
                else:
                    return ("after [%s] one side has %s, the other %s" % (" ".join(w[-6:]), show(k), ", ".join(sorted(show(j) for j in oy)) or "nothing"), wx)
            ny, ly, hy, wy = oy[k2]
            if None not in lx and None not in ly and not (lx & ly):
                return ("after [%s] one side has field %s where the other has %s" % (" ".join(w[-6:]), "/".join(sorted(short(x) for x in lx)), "/".join(sorted(short(x) for x in ly))), wx)
            if None not in hx and None not in hy and hx != hy:
                return ("the halves of a 64-bit value are exchanged", wx)
            todo.append((nx, ny, w + (show(k),)))
        for k in oy:
            if flip(k) not in ox and not (k[1] == "tag?" and any(j[1] == "tag" for j in ox)):
                return ("after [%s] one side has %s, the other %s" % (" ".join(w[-6:]), show(k), ", ".join(sorted(show(j) for j in ox)) or "nothing"), oy[k][3])
    return None


def short(x):
    return str(x).rsplit("@", 1)[-1]


def run(P, ctx):
    ctx.rule("same-language", "the items a writer puts into a stream are, on every path, the items its reader takes out, in the same "
             "order, of the same types, for the same fields")
    ctx.rule("class-name", "each class that is sent by name has a name of its own and the object that builds it on arrival")
    L = Langs(P)
    pairs = []
    pairs += prims(P)
    pairs += classes(P)
    pairs += operators(P)
    for key, w, wv, r, rv in pairs:
        A, B = L.lang(w, wv), L.lang(r, rv)
        if A.empty() and B.empty():
            continue
        res = compare(A, B, None)
        if res is None:
            ctx.ok("same-language", 1, "%s: %s and %s agree" % (key, w.q, r.q))
        elif key in EXC:
            ctx.ok("same-language")
            ctx.note("%s: %s" % (key, EXC[key]))
        else:
            ctx.bad("same-language", key, res[1] or "%s:%s" % (w.file, w.line), "%s (%s:%d) and %s (%s:%d) disagree: %s" %
                    (w.q, w.file, w.line, r.q, r.file, r.line, res[0]))
    ctx.floor("same-language", 60)
    names(P, ctx)
    if L.incomplete:
        ctx.note("calls with a stream whose body is not in the program: " + ", ".join(sorted(L.incomplete)))


def sparam(f):
    for p in f.r.get("p", []):
        if is_stream(p["t"]):
            return p["v"]
    return None


def prims(P):
    """Stream's own operators"""
    out = []
    ops = defaultdict(dict)
    for f in P.fns.values():
        if f.cls != S:
            continue
        if f.name in ("operator<<", "operator>>") and len(f.r["p"]) == 1:
            t = f.r["p"][0]["t"].replace("const ", "").replace("&", "").strip()
            ops[t][f.name] = f
        elif f.name in ("writeBlob", "readBlob", "writeLargeBlob", "readLargeBlob"):
            ops[f.name.replace("write", "").replace("read", "")]["operator<<" if f.name.startswith("write") else "operator>>"] = f
        elif f.name == "next" and len(f.r["p"]) == 1:
            t = f.r["p"][0]["t"].replace("const ", "").replace("&", "").strip()
            ops["next " + t]["operator>>"] = f
    ops["char *"]["operator>>"] = ops.get("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", {}).get("operator>>")
    for t, d in sorted(ops.items()):
        if t.startswith("next "):
            continue        # may also end: not the same language
        if d.get("operator<<") and d.get("operator>>"):
            out.append(("Stream " + t.split("<")[0], d["operator<<"], "this", d["operator>>"], "this"))
    return out


def classes(P):
    out = []
    for r in P.recs.values():
        if "clsu" in r:
            continue
        w = rd = None
        for f in by_class(P).get(r["u"], ()):
            ps = f.r.get("p", [])
            st = len(ps) == 1 and is_stream(ps[0]["t"])
            if f.kind == "method" and st:
                if f.name == "encode":
                    w = f
                elif f.name == "decode" and not rd:
                    rd = f
            elif f.kind in ("ctor",) and st:
                rd = f
        if w and rd:
            out.append((r["t"], w, sparam(w), rd, sparam(rd)))
        m = {f.name: f for f in by_class(P).get(r["u"], ()) if f.kind == "method" and sparam(f)}
        for a, b in (("send", "receive"), ("sendLogin", "acceptLogin")):
            if a in m and b in m:
                out.append((r["t"] + " " + a, m[a], sparam(m[a]), m[b], sparam(m[b])))
    # free encode(const X&, Stream&)
    for f in P.byq("eckit::encode"):
        ps = f.r["p"]
        if len(ps) == 2 and is_stream(ps[1]["t"]):
            t = ps[0]["t"].replace("const ", "").replace("&", "").strip()
            rec = P.rec_by_t.get(t)
            for g in by_class(P).get(rec["u"], ()) if rec else ():
                if g.kind == "ctor" and len(g.r["p"]) == 1 and is_stream(g.r["p"][0]["t"]):
                    out.append((t + " encode()", f, sparam(f), g, sparam(g)))
    return out


def by_class(P):
    if not hasattr(P, "_bycls"):
        P._bycls = defaultdict(list)
        for f in P.fns.values():
            if f.r.get("clsu"):
                P._bycls[f.r["clsu"]].append(f)
    return P._bycls


def operators(P):
    ops = defaultdict(dict)
    out = []
    for f in P.fns.values():
        ps = f.r.get("p", [])
        if f.kind == "fn" and f.name in ("operator<<", "operator>>") and len(ps) == 2 and is_stream(ps[0]["t"]):
            ops[ps[1]["t"].replace("const ", "").replace("&", "").strip()][f.name] = f
    for f in P.fns.values():
        if f.cls == S and f.name == "operator>>" and len(f.r["p"]) == 1:
            t = f.r["p"][0]["t"].replace("const ", "").replace("&", "").strip()
            if t in ops:
                ops[t].setdefault("operator>>", f)
    for t, d in sorted(ops.items()):
        w, r = d.get("operator<<"), d.get("operator>>")
        if w and r:
            out.append((t.split("<")[0] + ("<" + t.split("<", 1)[1][:40] if "<" in t else ""), w, sparam(w), r, sparam(r) or "this"))
        elif w and t != "eckit::Streamable":
            rec = P.rec_by_t.get(t)
            for g in by_class(P).get(rec["u"], ()) if rec else ():
                if g.kind == "ctor" and len(g.r["p"]) == 1 and is_stream(g.r["p"][0]["t"]):
                    out.append((t + " <<", w, sparam(w), g, sparam(g)))
    return out


EXC = {}


def names(P, ctx):
    """the names classes are sent by; who builds them on arrival"""
    seen = {}
    specs = {}
    for v in P.vars.values():
        if not v["q"].endswith("::classSpec_") or not v["file"].startswith("src/"):
            continue
        cls = v["q"].rsplit("::", 1)[0]
        strs = [n["s"] for n in v.get("n", ()) if n["k"] == "str"]
        if len(strs) != 1:
            continue
        specs[cls] = v
        where = "%s:%s" % (v["file"], v["l"])
        if strs[0] in seen:
            ctx.bad("class-name", cls, where, "%s and %s are both sent as \"%s\"" % (cls, seen[strs[0]], strs[0]))
            continue
        seen[strs[0]] = cls
        if strs[0] != cls.rsplit("::", 1)[-1]:
            ctx.bad("class-name", cls, where, "%s is sent as \"%s\": what was stored under its own name cannot be read" % (cls, strs[0]))
        else:
            ctx.ok("class-name", 1, "%s is sent as %s" % (cls, strs[0]))
    for rec in P.subclasses("eckit::Streamable"):
        own = {m["n"]: m for m in rec["methods"]}
        if "encode" not in own or rec["file"].startswith("tool/"):
            continue
        enc = P.fns.get(own["encode"]["u"])
        if enc is not None and Langs(P).lang(enc, sparam(enc)).empty():
            continue        # not meant to be sent
        where = "%s:%s" % (rec["file"], rec["l"])
        g = P.fns.get(own["reanimator"]["u"]) if "reanimator" in own else None
        if g is None:
            ctx.bad("class-name", rec["q"] + ":reanimator", where, "%s has an encoding of its own but is sent under its base class's name" % rec["q"])
            continue
        refs = [n for n in g.n if n["k"] in ("ref", "mem") and n.get("n", "").endswith("reanimator_")]
        if refs and all(n["t"] == "eckit::Reanimator<%s>" % rec["t"] for n in refs):
            ctx.ok("class-name")
        else:
            ctx.bad("class-name", rec["q"] + ":reanimator", where, "%s::reanimator() is not its own" % rec["q"])
    ctx.floor("class-name", 30)
