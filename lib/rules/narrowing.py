"""Byte counts, lengths and offsets keep their 64 bits."""
import re
from prog import kids
import engine

SCOPE = tuple("src/eckit/" + d + "/" for d in
              "io filesystem net serialisation container memory utils message codec transaction distributed os".split())
W = {"long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "unsigned __int128": 128,
     "int": 32, "unsigned int": 32, "short": 16, "unsigned short": 16, "char": 8, "unsigned char": 8, "signed char": 8}

# results that are small whatever the size of the data
SMALL_CALLS = re.compile(r"^(std::(vector|deque|list|map|set|multimap|unordered_map|unordered_set|array|initializer_list|tuple|bitset)::(size|count|capacity)"
                         r"|eckit::Stream::getLong|eckit::mpi::Comm::(rank|size)|getpid|::getpid|getppid|eckit::Resource::operator .*|std::thread::hardware_concurrency"
                         r"|std::distance|sysconf|eckit::Resource::.*|std::ios_base::.*|.*::precision|.*::width)$")
LIMITED = {  # call -> index of the argument that bounds its result
    "read": 2, "write": 2, "pread": 2, "pwrite": 2, "recv": 2, "send": 2, "fread": 2, "fwrite": 2,
    "eckit::DataHandle::read": 1, "eckit::DataHandle::write": 1, "eckit::PooledFileDescriptor::read": 1,
    "eckit::PooledFileDescriptor::write": 1, "eckit::net::TCPSocket::read": 1, "eckit::net::TCPSocket::write": 1,
    "eckit::Stream::read": 1, "eckit::Stream::write": 1, "snprintf": 1}


class Bounds:
    def __init__(self, P):
        self.P = P

    def strip(self, f, i):
        while f.n[i]["k"] in ("cast", "narrow", "defarg", "definit") and f.n[i].get("a"):
            i = f.n[i]["a"][0]
        return i

    def bounded(self, f, i, depth=0, seen=frozenset()):
        """reason why the value fits (None: no reason found)"""
        if i is None or i < 0 or depth > 12:
            return None
        n = f.n[i]
        k = n["k"]
        if "c" in n:
            return "constant"
        t = n.get("t", "").replace("const ", "")
        if W.get(t, 64) <= 32:
            return "32 bits wide"
        if k in ("int", "sizeof", "null"):
            return "constant"
        if k in ("cast", "narrow", "defarg", "definit"):
            return self.bounded(f, n["a"][0], depth + 1, seen) if n.get("a") else None
        if k == "bin":
            op, (a, b) = n["op"], n["a"]
            if op in ("&",):
                return self.bounded(f, a, depth + 1, seen) or self.bounded(f, b, depth + 1, seen)
            if op == "%":
                return self.bounded(f, b, depth + 1, seen) or self.bounded(f, a, depth + 1, seen)
            if op in ("<", ">", "==", "!=", "<=", ">=", "&&", "||"):
                return "truth value"
            if op in ("+", "-", "|", "^", "*"):
                if op == "-" and self.same_object(f, a, b):
                    return "distance in one object of bounded size"
                x, y = self.bounded(f, a, depth + 1, seen), self.bounded(f, b, depth + 1, seen)
                return x if x and y else None
            if op in ("/", ">>"):
                if op == ">>" and f.n[self.strip(f, b)].get("c") and int(f.n[self.strip(f, b)]["c"]) >= 32:
                    return "upper half"
                return self.bounded(f, a, depth + 1, seen)
            if op == ",":
                return self.bounded(f, b, depth + 1, seen)
        if k == "un":
            if n.get("op") in ("-", "+", "~", "++", "--") and n.get("a"):
                return self.bounded(f, n["a"][0], depth + 1, seen)
            if n.get("op") == "!":
                return "truth value"
        if k == "cond":
            xs = [self.bounded(f, a, depth + 1, seen) for a in n["a"][1:]]
            return xs[0] if all(xs) else None
        if k == "assign":
            return self.bounded(f, n["a"][-1], depth + 1, seen)
        if k == "call":
            q = n.get("q", "")
            if SMALL_CALLS.match(q):
                if n.get("o") is not None and n["o"] >= 0 and re.match(r"(const )?std::\w+<(unsigned char|char|signed char|std::byte)[,>]", f.n[n["o"]].get("t", "")):
                    return "range checked" if self.checked_call(f, i) else None
                return "small: " + q
            if self.checked_call(f, i):
                return "range checked"
            base = q.rsplit("::", 1)[-1]
            if q in ("std::min",) and n.get("a"):
                for a in n["a"]:
                    x = self.bounded(f, a, depth + 1, seen)
                    if x:
                        return x
            if q in ("std::max", "std::abs", "htonl", "ntohl"):
                xs = [self.bounded(f, a, depth + 1, seen) for a in n["a"]]
                return xs[0] if xs and all(xs) else None
            li = LIMITED.get(q, 1 if base in ("read", "write") and q.startswith("eckit::") and len(n.get("a", ())) == 2 else None)
            if li is not None and li < len(n.get("a", ())):
                return self.bounded(f, n["a"][li], depth + 1, seen)
            g = self.P.fns.get(n.get("f"))
            if g is not None and not n.get("v") and g.u not in seen:
                rets = [m for _, m in g.nodes_of("ret")]
                if rets and all(m.get("a") and self.bounded(g, m["a"][0], depth + 4, seen | {g.u}) for m in rets):
                    return "returned by " + g.q
            return None
        if k in ("ref",) and n.get("vk") in ("local", "param"):
            v = n["v"]
            if self.checked(f, i, v):
                return "range checked"
            if v in seen:
                return "induction"
            if n["vk"] == "param":
                # all callers of a source-private function
                return self.param(f, v, depth, seen)
            defs = []
            for j, m in enumerate(f.n):
                if m["k"] == "decl":
                    for d in m["d"]:
                        if d.get("v") == v:
                            if "i" in d:
                                defs.append(d["i"])
                elif m["k"] == "assign" and f.n[m["a"][0]]["k"] == "ref" and f.n[m["a"][0]].get("v") == v:
                    defs.append(m["a"][-1])
                elif m["k"] in ("call",) and any(f.n[a]["k"] in ("ref", "un") and self.takes(f, a, v) and
                                                 (m.get("pm") or ["v"] * 99)[x] in ("r", "p") for x, a in enumerate(m.get("a", ()))):
                    return None
            if not defs:
                return None
            xs = [self.bounded(f, d, depth + 1, seen | {v}) for d in defs]
            return xs[0] if all(xs) else None
        if k == "ref" and n.get("vk") in ("global", "slocal", "smember"):
            g = self.P.vars.get(n["v"])
            if g and (g.get("const") or g.get("constexpr")):
                return "constant"
        return None

    def takes(self, f, a, v):
        n = f.n[a]
        if n["k"] == "un" and n.get("op") == "&":
            n = f.n[n["a"][0]]
        return n["k"] == "ref" and n.get("v") == v and not n.get("r")

    def param(self, f, v, depth, seen):
        if not (f.r.get("internal") or f.r.get("acc") == 2):
            return None
        idx = [p["v"] for p in f.r.get("p", [])].index(v) if v in [p["v"] for p in f.r.get("p", [])] else None
        cs = [(g, i) for g, i in self.P.callers().get(f.u, ())]
        if idx is None or not cs or depth > 6:
            return None
        for g, i in cs:
            a = g.n[i].get("a", ())
            if idx >= len(a) or not self.bounded(g, a[idx], depth + 3, seen | {v}):
                return None
        return "bounded at every call"

    def same_object(self, f, a, b):
        """difference of the ends of a fixed array or of streambuf pointers"""
        def leaf(i):
            n = f.n[self.strip(f, i)]
            return n
        x, y = leaf(a), leaf(b)
        for n in (x, y):
            if n["k"] == "call" and n.get("q", "").rsplit("::", 1)[-1] in ("pptr", "pbase", "gptr", "egptr", "eback", "epptr"):
                return True
            if n["k"] in ("ref", "mem") and re.search(r"\[\d+\]$", n.get("t", "")):
                return True
        return False

    def checked(self, f, i, v):
        """an upper bound on v is established by a dominating test"""
        return self.tested(f, i, lambda n: n["k"] == "ref" and n.get("v") == v)

    def checked_call(self, f, i):
        """the same for the result of a const function of the same object"""
        n = f.n[i]
        if not n.get("mc") or n.get("a"):
            return False
        L = engine.locks()
        o = L.pf.path(f, n.get("o"))
        return o is not None and self.tested(f, i, lambda m: m["k"] == "call" and m.get("f") == n.get("f")
                                             and L.pf.path(f, m.get("o")) == o)

    def tested(self, f, i, same):
        pos = f.elpos()
        at = self.element(f, i)
        for j, n in enumerate(f.n):
            if n["k"] != "bin" or n.get("op") not in ("<", "<=", ">", ">=", "=="):
                continue
            a, b = self.strip(f, n["a"][0]), self.strip(f, n["a"][1])
            for x, y in ((a, b), (b, a)):
                if not same(f.n[x]):
                    continue
                c = f.n[y].get("c", f.n[n["a"][0 if y == a else 1]].get("c"))
                big = c is not None and 255 < int(c) <= 0xffffffff
                if not (big or self.const_like(f, y)):
                    continue
                ej = self.element(f, j)
                if ej in pos and at in pos and self.on_side(f, ej, at, j):
                    return True
        return False

    def element(self, f, i):
        """the element of the flow graph node i is evaluated at"""
        pos, par, cur = f.elpos(), f.parents(), i
        for _ in range(40):
            if cur in pos:
                return cur
            ps = par.get(cur, ())
            if not ps:
                return cur
            cur = ps[0]
        return cur

    def on_side(self, f, ej, at, j):
        """the narrowing happens only where the test at ej had the outcome that bounds the value"""
        if not f.dominates(ej, at):
            return False
        # one of the outcomes does not lead to the narrowing at all
        pos = f.elpos()
        bj, ba = pos[ej][0], pos[at][0]
        if bj == ba:
            return False
        out = [s for s in f.blocks[bj]["s"]]
        reach = []
        for s in out:
            seen, todo = set(), [s]
            while todo:
                b = todo.pop()
                if b in seen or b < 0 or b not in f.blocks or b == bj:
                    continue
                seen.add(b)
                if any(f.n[e]["k"] == "throw" or f.n[e].get("nr") or f.n[e].get("q") in ("eckit::Assert", "eckit::Panic")
                       for e in f.blocks[b]["e"]):
                    continue
                todo += f.succs(b)
            reach.append(ba in seen)
        return not all(reach)

    def roundtrip(self, f, i):
        """the narrow copy is compared with the original: ASSERT(narrow == x)"""
        n = f.n[self.strip(f, i)]
        if n["k"] != "ref":
            return None
        for m in f.n:
            if m["k"] == "bin" and m.get("op") in ("==", "!="):
                a, b = (self.strip(f, x) for x in m["a"])
                for x, y in ((a, b), (b, a)):
                    if f.n[x]["k"] == "ref" and f.n[x].get("v") == n["v"] and f.n[y]["k"] in ("mem", "ref") and \
                            W.get(f.n[y].get("t", "").replace("const ", ""), 64) <= 32:
                        return "compared with its narrow copy"
        return None

    def const_like(self, f, y):
        n = f.n[y]
        if n["k"] == "call" and n.get("q", "").startswith("std::numeric_limits"):
            return True
        return n["k"] == "ref" and n.get("vk") in ("global", "slocal", "smember", "local") and bool(
            self.P.vars.get(n["v"], {}).get("const") or self.P.vars.get(n["v"], {}).get("constexpr"))


def run(P, ctx):
    ctx.rule("no-narrowing", "a 64-bit integer is converted to 32 bits or fewer only if its value is bounded: a constant, "
             "a remainder or mask, a range checked before, a count of elements, or data read into a buffer of such a size")
    ctx.rule("wide-counter", "a counter that is incremented up to a 64-bit bound is as wide as the bound")
    B = Bounds(P)
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.file.startswith(SCOPE):
            continue
        reach = f.reachable_nodes()
        for i, m in enumerate(f.n):
            if m["k"] == "narrow":
                src = m["a"][0]
                ft, t = m.get("ft", "").replace("const ", ""), m.get("t", "").replace("const ", "")
            elif m["k"] == "assign" and m.get("op") in ("+=", "-=", "*=", "|="):
                src = m["a"][-1]
                ft, t = f.n[src].get("t", "").replace("const ", ""), f.n[m["a"][0]].get("t", "").replace("const ", "")
            elif m["k"] == "bin" and m.get("op") in ("<", "<=", "!=", ">", ">="):
                counter(P, B, ctx, f, i, m)
                continue
            else:
                continue
            if W.get(ft, 0) < 64 or W.get(t, 64) > 32:
                continue
            n += 1
            if B.element(f, i) not in reach:
                continue
            why = B.bounded(f, src) or B.roundtrip(f, src)
            if why:
                ctx.ok("no-narrowing", 1, "%s in %s: %s" % (f.loc(i), f.q, why))
                continue
            if EXC.get(f.q) is not None:
                ctx.ok("no-narrowing")
                ctx.note("%s: %s" % (f.q, EXC[f.q]))
                continue
            ctx.bad("no-narrowing", "%s:%s" % (f.q, B.name(f, src)), f.loc(i),
                    "%s cuts %s from %s to %s" % (f.q, B.name(f, src), ft, t))
    ctx.floor("no-narrowing", 60)


def counter(P, B, ctx, f, i, m):
    for x, y in ((0, 1), (1, 0)):
        a, b = B.strip(f, m["a"][x]), B.strip(f, m["a"][y])
        if f.n[a]["k"] != "ref" or f.n[a].get("vk") != "local":
            continue
        wa, wb = W.get(f.n[a].get("t", "").replace("const ", "")), W.get(f.n[b].get("t", "").replace("const ", ""))
        if not wb or wb < 64 or not wa or wa > 32:
            continue
        v = f.n[a]["v"]
        if not any(n["k"] == "un" and n.get("op") == "++" and f.n[n["a"][0]].get("v") == v or
                   n["k"] == "assign" and n.get("op") == "+=" and f.n[n["a"][0]].get("v") == v for n in f.n):
            continue
        why = B.bounded(f, b)
        if why:
            ctx.ok("wide-counter", 1, "%s in %s: %s" % (f.loc(i), f.q, why))
        elif (f.q, f.n[a]["n"]) in EXC:
            ctx.ok("wide-counter")
        else:
            ctx.bad("wide-counter", "%s:%s" % (f.q, f.n[a]["n"]), f.loc(i), "%s counts in the %d-bit %s up to %s, which may be more" %
                    (f.q, wa, f.n[a]["n"], B.name(f, b)))


def name(self, f, i):
    n = f.n[self.strip(f, i)]
    if n["k"] in ("ref", "mem"):
        return n.get("n", "?")
    if n["k"] == "call":
        return n.get("q", "?") + "()"
    if n["k"] == "bin":
        return self.name(f, n["a"][0]) + n["op"] + self.name(f, n["a"][1])
    return n.get("c", n["k"])


Bounds.name = name
EXC = {
    "eckit::codec::TablePrinter::print": "widths of printed columns",
    "eckit::BTree::insert": "entries of one page",
    "eckit::sorter::sorter": "an axis of a tree",
    "eckit::distributed::MPITransport::sendToWriter": "a rank", "eckit::distributed::TCPTransport::TCPTransport": "a port",
    "eckit::distributed::TCPTransport::getNextWorkMessage": "a rank and a tag",
    "eckit::distributed::TCPTransport::sendShutDownMessage": "a rank",
    "eckit::PathName::metricsTag": "position in a path", "eckit::URI::parse": "position in a URI", "eckit::URI::decode": "a byte of a URI",
    ("eckit::URI::parse", "i"): "position in a URI", ("eckit::URI::decode", "i"): "position in a URI",
    ("eckit::DblBuffer::copy", "j"): "number of buffers", ("eckit::Regex::Regex", "j"): "position in an expression",
    "eckit::EasyCURLResponse::code": "an HTTP status", "eckit::HttpHeader::checkForStatus": "an HTTP status",
    "eckit::MultiSocketHandle::openForRead": "the kernel takes socket buffer sizes as int",
    "eckit::MultiSocketHandle::openForWrite": "the kernel takes socket buffer sizes as int",
    "eckit::(anon)::stringToPerm": "permission bits", "eckit::Factory::print": "length of a name",
    "eckit::Stream::getLong": "branch for platforms whose long has 32 bits",
    "eckit::addLoop": "an extent of a hypercube of parameters", "eckit::Translator::operator()": "numbers read from text, not lengths",
}
