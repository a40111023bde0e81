"""Errors are passed on: handlers act on every path, what is thrown can be caught, workers and callbacks contain what they run."""
from collections import Counter, defaultdict
from prog import kids
from rules.lockuse import subtree
from rules.oscall import peval
from rules.resources import May

# where an error may be dropped: file -> (how many handlers, why)
SHELL = "the command shell shows the error and takes the next command"
DROPS = {
    "src/eckit/cmd/CmdApplication.cc": (2, SHELL), "src/eckit/cmd/CmdParser.cc": (2, SHELL), "src/eckit/cmd/CmdResource.cc": (2, SHELL),
    "src/eckit/cmd/RemoteCmd.cc": (1, "the remote side has ended"),
    "src/eckit/runtime/PipeHandler.cc": (2, "the request is told, and asked whether to try again; the next one is taken"),
    "src/eckit/container/CacheManager.h": (2, "the next cache directory is tried, and none left is an error"),
    "src/eckit/distributed/Consumer.cc": (1, "the consumer's failure() is told, the next message is taken"),
    "src/eckit/filesystem/FileSpace.cc": (1, "a directory that cannot be made is left out"),
    "src/eckit/filesystem/FileSpaceStrategies.cc": (3, "a file system that cannot be asked is left out"),
    "src/eckit/geo/cache/LatitudeLongitude.cc": (1, "the use of the path reports it"),
    "src/eckit/geo/search/TreeMappedFile.cc": (1, "the next directory is tried, and none left is an error"),
    "src/eckit/io/DataHandle.cc": (1, "AutoClose throws on unless it was told not to fail"),
    "src/eckit/io/FileLock.cc": (1, "a destructor"),
    "src/eckit/io/cluster/ClusterNode.cc": (1, "the heart beat connects again"),
    "src/eckit/io/fam/FamObjectName.cc": (1, "exists() answers false"), "src/eckit/io/fam/FamRegionName.cc": (1, "exists() answers false"),
    "src/eckit/io/fam/FamSession.cc": (3, "the object is created, or replaced, next"),
    "src/eckit/net/Connector.cc": (2, "the connection is closed and made again by the next use"),
    "src/eckit/net/NetService.cc": (1, "the service of one client"),
    "src/eckit/runtime/Application.cc": (1, "the process is being ended"),
    "src/eckit/runtime/Dispatcher.h": (1, "the dispatcher is woken, the next requests are taken"),
    "src/eckit/thread/ThreadControler.cc": (1, "the last resort of a thread"),
    "src/eckit/thread/ThreadPool.cc": (1, "a destructor"),
    "src/eckit/transaction/TxnLog.cc": (3, "a transaction log that cannot be read is left out, the user's own Abort is passed on"),
    "src/eckit/types/DateTime.cc": (1, "the classic locale is used instead"),
    "src/tools/eckit-codec-list.cc": (2, "the tool returns failure after the handler"),
    "src/tools/eckit-hash.cc": (1, "Stop ends the tool"),
}
SYNC = ("eckit::Mutex", "eckit::AutoLock", "eckit::StaticMutex", "eckit::Monitor", "eckit::Log::", "eckit::Channel")
STREAMS = ("std::cout", "std::cerr", "std::clog")
ALL = ("...", "std::exception", "const std::exception")


def base_type(t):
    return (t or "").replace("const ", "").replace("&", "").replace("*", "").strip()


class Handler:
    def __init__(self, P, f, b):
        self.P, self.f, self.b = P, f, b
        self.hid = b.get("hid")
        self.var = b.get("cv")
        self.nodes = {i for i, n in enumerate(f.n) if n.get("h") == self.hid} if self.hid is not None else set()
        self.locals = {d["v"] for i in self.nodes for d in f.n[i].get("d", ()) if f.n[i]["k"] == "decl"}

    def root(self, i):
        """the object an assignment or insertion goes to"""
        f = self.f
        for _ in range(40):
            n = f.n[i]
            if n["k"] == "call" and (n.get("op") == "<<" or n.get("q", "").endswith("operator<<")):
                i = n["o"] if n.get("o") is not None else n["a"][0]
            elif n["k"] in ("cast", "narrow", "other", "un", "idx") and n.get("a"):
                i = n["a"][0]
            elif n["k"] == "mem" and f.n[n["b"]]["k"] != "this" and not n.get("arrow"):
                i = n["b"]
            else:
                return n
        return f.n[i]

    def tells(self, n):
        """the node passes the error, or what it says, to someone other than the log"""
        f = self.f
        if n["k"] not in ("call", "ctor"):
            return False
        q = n.get("q", "")
        if q in ("std::current_exception", "std::rethrow_exception"):
            return True
        if n["k"] == "ctor" or q.startswith(("std::basic_string", "std::operator+", "std::basic_ostringstream")):
            return False
        if n.get("op") == "<<" or q.endswith("operator<<"):
            r = self.root(n["o"] if n.get("o") is not None else n["a"][0])
            if not self.mentions(n):
                return False
            if r["k"] == "call":
                return False                      # Log::error() and the like
            if r["k"] == "ref" and (r.get("v") in self.locals or r.get("vk") == "global" or r.get("q", r.get("n", "")) in STREAMS
                                    or r.get("n") in ("cout", "cerr")):
                return False
            return True
        if q.startswith(SYNC) or n.get("cls") == "what":
            return False
        return any(a is not None and self.mentions(f.n[a]) for a in n.get("a", ())) and not q.endswith("::what")

    def mentions(self, n):
        f = self.f
        if self.var is None:
            return False
        todo = [n]
        while todo:
            m = todo.pop()
            if m["k"] == "ref" and m.get("v") == self.var:
                return True
            todo += [f.n[k] for k in kids(m)]
        return False

    def acts(self, i):
        f, n = self.f, self.f.n[i]
        if n["k"] == "throw":
            return True
        if n["k"] == "call" and (n.get("u", n.get("f")) in self.P.noreturn() or n.get("f") in self.P.noreturn()):
            return True
        if n["k"] == "ret":
            return bool(n.get("a")) or n.get("e") is not None
        if n["k"] in ("assign",) or n["k"] == "un" and n.get("op") in ("++", "--") or n["k"] == "call" and n.get("op") in ("=", "+=") and n.get("o") is not None:
            r = self.root(n["o"] if n["k"] == "call" else n["a"][0])
            return r["k"] in ("mem", "this", "call") or r["k"] == "ref" and r.get("v") not in self.locals
        return self.tells(n)

    def drops(self):
        """a path through the handler on which the error has no consequence"""
        f = self.f
        if self.hid is None:
            return False
        pos, seen, todo = f.elpos(), set(), [self.b["i"]]
        while todo:
            bi = todo.pop()
            if bi in seen:
                continue
            seen.add(bi)
            b = f.blocks[bi]
            done = False
            for e in b["e"]:
                n = f.n[e]
                if n.get("h") != self.hid and n["k"] not in ("dtor", "other") and bi != self.b["i"]:
                    return True
                if self.acts(e):
                    done = True
                    break
            if done or b.get("nr"):
                continue
            if bi == f.exit:
                return True
            nx = [s for s in f.succs(bi) if s >= 0]
            if not nx and bi != f.exit:
                continue
            todo += nx
        return False


def c_callbacks(P, fs):
    """functions of the library that C code calls: (function, who takes it)"""
    out = {}
    for f in fs:
        def add(i, who):
            n = f.n[i]
            while n["k"] in ("cast", "narrow", "un") and n.get("a"):
                n = f.n[n["a"][0]]
            if n["k"] == "fref" and n.get("f") in P.fns:
                g = P.fns[n["f"]]
                if g.file.startswith("src/"):
                    out.setdefault(g.u, (g, who, f))
            elif n["k"] == "lambda" and n.get("f") in P.fns:
                out.setdefault(n["f"], (P.fns[n["f"]], who, f))
        for n in f.n:
            if n["k"] == "call" and n.get("f") and "::" not in n.get("q", "::").lstrip(":") and n["f"] not in P.fns:
                for a in n.get("a", ()):
                    if a is not None:
                        add(a, n["q"])
            elif n["k"] == "initlist" and not n.get("t", "").startswith(("eckit::", "std::", "const eckit::", "const std::")):
                for a in n.get("a", ()):
                    add(a, n["t"])
            elif n["k"] == "ctor" and n.get("cls") == "std::thread":
                for a in n.get("a", ()):
                    add(a, "std::thread")
            elif n["k"] == "assign" and f.n[n["a"][0]]["k"] == "mem" and str(f.n[n["a"][0]].get("q", "")).split("::")[0] not in ("eckit", "multio", "std") :
                add(n["a"][1], f.n[n["a"][0]].get("n", "field"))
    return out


def run(P, ctx):
    fs = [f for f in P.fns.values() if f.file.startswith("src/") and "/contrib/" not in f.file]
    may = May(P)

    R = "caught-acts"
    ctx.rule(R, "on every path through an exception handler the error is thrown on, recorded in a field or a variable of the function, returned, "
                "or handed to a function or to the user's stream; destructors, which may throw nothing, apart; handlers that only write to the log are listed, by file")
    where = defaultdict(list)
    n = 0
    done = set()
    for f in fs:
        for b in blocks(f):
            if b.get("catch") is None:
                continue
            h = Handler(P, f, b)
            first = min([f.n[i].get("l") or 10**9 for i in h.nodes] + [10**9])
            k = (f.file, first if first < 10**9 else f.q, b["catch"])
            if k in done:
                continue
            done.add(k)
            n += 1
            if f.kind == "dtor":            # has nobody to tell
                ctx.ok(R)
            elif h.drops():
                where[f.file].append((f, b, first))
            else:
                ctx.ok(R, 1, "%s: %s" % (f.q, b["catch"]))
    for file, hs in sorted(where.items()):
        allowed = DROPS.get(file, (0, ""))[0]
        if len(hs) > allowed:
            for f, b, l in hs:
                ctx.bad(R, "%s:%s" % (f.q, base_type(b["catch"])), "%s:%s" % (file, l if l < 10**9 else f.line),
                        "%s: a path through the handler of %s goes on as if there had been no error (%d such handlers in this file, %d accounted for)"
                        % (f.q, b["catch"], len(hs), allowed))
        else:
            ctx.ok(R, len(hs))
            ctx.note("%s: %d handlers only log: %s" % (file, len(hs), DROPS[file][1]))

    R = "throws-standard"
    ctx.rule(R, "everything thrown derives from std::exception, so that the outermost handlers catch it, and is caught by reference")
    rec = {r["q"]: r for r in P.recs.values()}
    for f in fs:
        for i, n in enumerate(f.n):
            if n["k"] == "throw" and n.get("tt"):
                t = base_type(n["tt"])
                if t.startswith("std::") or t in rec and (P.is_subclass(rec[t], "std::exception") or t in OUTSIDE):
                    ctx.ok(R)
                else:
                    ctx.bad(R, "%s:%s" % (f.q, t), f.loc(i), "%s throws a %s, which is no std::exception: no handler of the library's threads and "
                            "applications catches it" % (f.q, n["tt"]))
        for b in blocks(f):
            c = b.get("catch")
            if c and c != "..." and "&" not in c and "*" not in c:
                ctx.bad(R, "%s:catch %s" % (f.q, c), "%s:%s" % (f.file, f.line), "%s catches %s by value: what derives from it is cut" % (f.q, c))

    R = "callback-contained"
    ctx.rule(R, "no exception of eckit's leaves a function that C code or the system calls (thread entry points, cookie and transfer callbacks, fork and "
                "signal handlers), nor one declared noexcept")
    for u, (g, who, f) in sorted(c_callbacks(P, fs).items()):
        if who in ("pthread_once",) or g.q in CALLBACKS:
            continue
        esc = escapes(P, may, g)
        d = deleted(P, may, g, 3)
        if d:
            ctx.bad(R, "%s:%s" % (g.q, d.q), "%s:%s" % (g.file, g.line), "%s is called by %s and deletes an object whose destructor lets an exception out (%s), "
                    "which ends the program: no handler sees it" % (g.q, who, callee(d.n[[i for i in escapes(P, may, d) if d.n[i].get("v")][0]])))
        elif esc:
            ctx.bad(R, g.q, g.loc(esc[0]), "%s is called by %s and may throw: %s" % (g.q, who, callee(g.n[esc[0]])))
        else:
            ctx.ok(R, 1, "%s given to %s" % (g.q, who))
    for f in fs:
        if f.r.get("ne") and f.kind != "dtor" and not f.r.get("implicit"):
            esc = escapes(P, may, f)
            if esc:
                ctx.bad(R, f.q, f.loc(esc[0]), "%s is noexcept and may throw: %s" % (f.q, callee(f.n[esc[0]])))
            else:
                ctx.ok(R)

    R2 = "worker-reports"
    ctx.rule(R2, "the handler of a worker thread that reports errors sets, on every path, a flag or a stored exception that some function tests and throws on")
    tested = tested_fields(P, fs)
    R = "worker-contained"
    ctx.rule(R, "a worker thread that reports errors to its user runs everything that is not its own (tasks, handles, consumers: virtual calls) "
                "where all exceptions are caught")
    for f in fs:
        entry = f.q == "eckit::ThreadControler::execute"
        if not entry and (f.name != "run" or f.kind != "method" or not any(P.is_subclass(r, "eckit::Thread") for r in [P.recs.get(f.r.get("clsu"))] if r)):
            continue
        if not entry and not any(not Handler(P, f, b).drops() for b in blocks(f) if b.get("catch") is not None):
            continue
        for i, n in enumerate(f.n):
            if n["k"] == "call" and (n.get("v") or n.get("fp")) and may.node(f, n) and not n.get("q", "").startswith(SYNC):
                if caught_all(f, n):
                    ctx.ok(R, 1, "%s calls %s" % (f.q, callee(n)))
                else:
                    ctx.bad(R, "%s:%s" % (f.q, callee(n)), f.loc(i), "%s calls %s where not every exception is caught: the thread would end, and whoever "
                            "waits for it never learns why" % (f.q, callee(n)))
        if not entry:
            for b in blocks(f):
                if b.get("catch") is not None and not base_type(b["catch"]).endswith(OWN):
                    h = Handler(P, f, b)
                    h.acts = lambda i, h=h: f.n[i]["k"] == "throw" or bool(sets(P, f, i, 3) & tested)
                    if h.drops():
                        ctx.bad(R2, "%s:%s" % (f.q, b["catch"]), "%s:%s" % (f.file, f.line), "%s: the handler of %s sets nothing that the user's side "
                                "tests before it throws" % (f.q, b["catch"]))
                    else:
                        ctx.ok(R2, 1, "%s: %s" % (f.q, b["catch"]))
    ctx.floor("caught-acts", 70)
    ctx.floor("throws-standard", 500)
    ctx.floor("callback-contained", 20)
    ctx.floor("worker-contained", 2)
    ctx.floor("worker-reports", 4)


def blocks(f):
    return [b if isinstance(b, dict) else f.blocks[b] for b in f.blocks]


def deleted(P, may, f, depth):
    """a destructor that f runs by delete, out of which an exception of another object escapes"""
    for n in f.n:
        if n["k"] == "delete" and n.get("dt"):
            for g in P.byq("%s::~%s" % (n["dt"], n["dt"].split("::")[-1])):
                if any(g.n[i].get("v") for i in escapes(P, may, g)):
                    return g
        elif n["k"] == "call" and depth and n.get("f") in P.fns and P.fns[n["f"]].file.startswith("src/"):
            g = deleted(P, may, P.fns[n["f"]], depth - 1)
            if g:
                return g
    return None


def sets(P, f, i, depth):
    """flags set to true and exceptions stored by node i, through calls"""
    n, out = f.n[i], set()
    if n["k"] == "assign" and f.n[n["a"][0]]["k"] == "mem":
        if n.get("t", "").endswith("bool") or f.n[n["a"][0]].get("t", "").endswith("bool"):
            if peval(f, n["a"][1], {}) != 0:
                out.add(f.n[n["a"][0]]["v"])
    elif n["k"] == "call" and n.get("op") == "=" and n.get("o") is not None and f.n[n["o"]]["k"] == "mem":
        if "exception_ptr" in n.get("q", ""):
            out.add(f.n[n["o"]]["v"])
    elif n["k"] == "call" and depth and n.get("f"):
        for t in P.targets(n):
            g = P.fns.get(t)
            if g and g.file.startswith("src/"):
                for k in range(len(g.n)):
                    if g.n[k]["k"] in ("assign", "call"):
                        out |= sets(P, g, k, depth - 1)
    return out


def tested_fields(P, fs):
    """fields that a branch tests with a throw on one side only"""
    out, nr = set(), P.noreturn()
    getter = {}
    for f in fs:
        r = [n for n in f.n if n["k"] == "ret" and n.get("a")]
        if len(r) == 1:
            m = f.n[r[0]["a"][0]]
            while m["k"] in ("cast", "narrow") and m.get("a"):
                m = f.n[m["a"][0]]
            if m["k"] == "mem":
                getter[f.u] = m["v"]
    for f in fs:
        throws = {b["i"] for b in blocks(f) if any(f.n[e]["k"] == "throw" or f.n[e].get("f") in nr or f.n[e].get("q") == "std::rethrow_exception"
                                                   for e in b["e"])}
        if not throws:
            continue
        for b in blocks(f):
            c = (b.get("t") or {}).get("c")
            if c is None:
                continue
            v = set()
            for m in subtree(f, c):
                m = f.n[m]
                if m["k"] == "mem":
                    v.add(m["v"])
                elif m["k"] == "call" and m.get("f") in getter:
                    v.add(getter[m["f"]])
            if not v:
                continue
            ss = [s for s in f.succs(b["i"]) if s >= 0]
            if len(ss) == 2 and any(s in throws or any(f.dominates(s, t) for t in throws) for s in ss):
                out |= v
    return out


def callee(n):
    return n.get("q") or n.get("cls") or n["k"]


def escapes(P, may, f):
    return [i for i, n in enumerate(f.n) if n["k"] in ("call", "ctor", "throw") and may.node(f, n) and not may.caught(f, n)
            and not n.get("q", "").startswith(SYNC) and not str(n.get("cls", "")).startswith(SYNC) and n.get("q") not in NEVER]


def caught_all(f, n):
    x = n.get("x")
    while x is not None:
        d = f.dispatch_blocks().get(x)
        if d is None:
            return False
        return any(base_type(f.blocks[s].get("catch")) in ALL for s in f.succs(d) if s >= 0 and f.blocks[s].get("catch"))
    return False


OWN = ("eckit::RestartTransfer",)
OUTSIDE = ("eckit::RestartTransfer",)     # caught by the transfer that it restarts
CALLBACKS = {"eckit::AutoAlarm::sigAlarm": "throws TimeOut out of the system call that it interrupts: what the class is for",
             "eckit::ThreadControler::startThread": "what the thread runs is in ThreadControler::execute, see worker-contained",
             "eckit::maths::(anon)::custom_signal_handler": "the process is being ended"}
NEVER = ()
