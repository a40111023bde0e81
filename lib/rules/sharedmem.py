"""What processes share -- mapped tables, B-tree files, recycling files, cache indexes, memory set up once -- is touched only under
the lock the processes share, and that lock is taken so that it excludes."""
import re
from collections import defaultdict
import engine

WRLCK, RDLCK, UNLCK = "1", "0", "2"
SETLK, SETLKW = "6", "7"
UNDO, NOWAIT = 0x1000, 0x800
PAGES = {"loadPage", "savePage", "newPage", "_loadPage", "_newPage", "_savePage"}
CHANGES = {"savePage", "newPage", "_savePage", "_newPage"}
TABLES = ("eckit::MappedArray", "eckit::SharedMemArray")
# read without the lock: a table of tasks is shown, or its entry is its own task's
WITHOUT = {
    "eckit::Monitor::task": "hands out a task's own entry; each entry is written by its own task only",
    "eckit::Monitor::statusTree": "reports on other tasks",
    "eckit::Monitor::start": "the task's own entry", "eckit::Monitor::kill": "reads pids to signal",
    "eckit::TaskInfo::json": "reports", "eckit::get": "reports (PsCmd.cc)", "eckit::isChild": "reports", "eckit::isParent": "reports",
    "eckit::RecoverThread::recover": "asserts that a number read from the log is below the next one, which only grows",
}
SHOWS = re.compile(r"^src/eckit/cmd/")


def run(P, ctx):
    L = engine.locks()
    ctx.rule("tables", "an entry of a table that processes share is looked at and changed only while the table is locked")
    ctx.rule("files", "pages of a B-tree and entries of a recycling file are read and written only while the file is locked")
    ctx.rule("exclusive", "what changes a shared file runs under its exclusive lock, not under the one readers share")
    ctx.rule("once", "a lock on a file, which one release gives up entirely, is not taken again while it is held")
    ctx.rule("set-up", "shared memory is sized, cleared, checked and built only while it is locked")
    ctx.rule("index", "the index of a cache is changed, and a missing entry made, only under the cache's lock and after looking again")
    ctx.rule("how", "the lock is the kind that waits, excludes, covers the whole, and is undone when its holder dies")
    tables(P, L, ctx)
    files(P, L, ctx)
    setup(P, L, ctx)
    index(P, L, ctx)
    how(P, ctx)


def bare(t):
    return t.replace("const ", "").replace("class ", "").rstrip(" *&")


def shared_types(P):
    out = set()
    for r in P.recs.values():
        if any(P.is_subclass(r, b) for b in TABLES) or r["q"] in TABLES:
            out.add(r["t"])
    for r in list(P.recs.values()):       # what wraps one, and the interface it is used through
        if r["file"].startswith("src/eckit") and any(bare(fl["t"]) in out for fl in r["fields"]) and {"lock", "unlock"} <= {m["n"] for m in r["methods"]}:
            for q in [r] + [P.recs[b["u"]] for b in r["bases"] if b.get("u") in P.recs]:
                out.add(q["t"])
    return out


def tables(P, L, ctx):
    types = shared_types(P)
    seen = set()
    for f in P.fns.values():
        if not f.file.startswith("src/") or f.r.get("clsu") and P.recs.get(f.r["clsu"], {}).get("t") in types:
            continue
        reach = None
        for i, n in f.nodes_of("call"):
            if n.get("o") is None or n["o"] < 0:
                continue
            m = n.get("q", "").rsplit("::", 1)[-1]
            if m in ("lock", "unlock", "size") and m != "size" or m.startswith("~"):
                continue
            if bare(f.n[n["o"]].get("t", "")) not in types:
                continue
            if reach is None:
                reach = f.reachable_nodes()
            if i not in reach:
                continue
            if m == "size" or f.q in WITHOUT or SHOWS.match(f.file):
                continue
            held = L.held(f, i)
            if held is None:
                continue
            p = L.pf.path(f, n["o"])
            key = (f.file, n.get("l"), m)
            if p in held:
                ctx.ok("tables", 1, "%s: %s" % (f.q, m))
            elif key not in seen:
                seen.add(key)
                ctx.bad("tables", "%s:%s" % (f.q, m), f.loc(i), "%s uses %s() of a table other processes change, without the table's lock" % (f.q, m))
    ctx.floor("tables", 60)


def cls(P, f):
    r = P.recs.get(f.r.get("clsu"))
    return r


def files(P, L, ctx):
    mine = defaultdict(list)
    for f in P.fns.values():
        r = cls(P, f)
        if r is None or r["q"] not in ("eckit::BTree", "eckit::Recycler"):
            continue
        mine[r["u"]].append(f)
    seen = set()

    def bad(rule, f, i, msg):
        k = (rule, f.file, f.n[i].get("l"), msg)
        if k not in seen:
            seen.add(k)
            ctx.bad(rule, "%s:%s" % (f.q, f.n[i].get("q", "").rsplit("::", 1)[-1]), f.loc(i), msg)

    for u, fs in mine.items():
        q = P.recs[u]["q"]
        nolock = "BTreeNoLock" in P.recs[u]["t"]
        takes = {f.u for f in fs if may_take(P, L, f, fs)}
        for f in fs:
            if f.kind == "dtor":
                continue
            reach = f.reachable_nodes()
            for i, n in f.nodes_of("call"):
                if i not in reach:
                    continue
                m = n.get("q", "").rsplit("::", 1)[-1]
                op = m in PAGES if q == "eckit::BTree" else n.get("q") in ("lseek", "read", "write", "ftruncate", "pread", "pwrite", "lseek64", "ftruncate64")
                held = L.held(f, i)
                if held is None:
                    continue
                if op:
                    if ("this",) in held:
                        ctx.ok("files", 1, "%s: %s" % (f.q, m))
                    else:
                        bad("files", f, i, "%s does %s() without the file's lock" % (f.q, m))
                if ("this",) in held and n.get("f") in takes:
                    if nolock:
                        continue
                    bad("once", f, i, "%s holds the file's lock and calls %s(), which takes it again and releases it: what follows runs without it" % (f.q, m))
                elif n.get("f") in {g.u for g in fs}:
                    ctx.ok("once")
        # what is reached under the shared lock
        if q == "eckit::BTree":
            byu = {f.u: f for f in fs}
            for f in fs:
                if not shared_guard(f):
                    continue
                todo, got = [f], {f.u: None}
                clean = True
                while todo:
                    g = todo.pop()
                    for i, n in g.nodes_of("call"):
                        m = n.get("q", "").rsplit("::", 1)[-1]
                        if m in CHANGES:
                            clean = False
                            bad("exclusive", g, i, "%s takes the lock that readers share and reaches %s() in %s" % (f.q, m, g.q))
                        h = byu.get(n.get("f"))
                        if h is not None and h.u not in got:
                            got[h.u] = g
                            todo.append(h)
                if clean:
                    ctx.ok("exclusive", 1, f.q)
    ctx.floor("files", 30)
    ctx.floor("exclusive", 4)


def shared_guard(f):
    for i, n in f.nodes_of("ctor"):
        if "AutoSharedLock<" in n.get("t", ""):
            return True
    return any(n.get("q", "").endswith("::lockShared") for _, n in f.nodes_of("call"))


def may_take(P, L, f, fs):
    """the function, or one of its class that it calls, takes and gives up this object's lock"""
    byu = {g.u: g for g in fs}
    todo, seen = [f], {f.u}
    while todo:
        g = todo.pop()
        for i, n in g.nodes_of("ctor"):
            if re.search(r"Auto(Shared)?Lock<", n.get("t", "")) and n.get("a") and L.pf.path(g, n["a"][0]) in (("this",), None):
                return True
            if re.search(r"Auto(Shared)?Lock<", n.get("t", "")) and ("this",) == L.pf.path(g, n["a"][0] if n.get("a") else -1):
                return True
        for i, n in g.nodes_of("call"):
            h = byu.get(n.get("f"))
            if h is not None and h.u not in seen:
                seen.add(h.u)
                todo.append(h)
    return False


def under(P, L, f, i, depth=0):
    """some lock is held here, or wherever the function is called"""
    held = L.held(f, i)
    if held is None:
        return None
    if held:
        return True
    sites = [(g, j) for g, j in P.callers().get(f.u, ()) if g.file.startswith("src/")]
    if depth > 2 or not sites:
        return False
    got = [under(P, L, g, j, depth + 1) for g, j in sites]
    return all(x for x in got if x is not None) and any(got)


def setup(P, L, ctx):
    ops = ("ftruncate", "ftruncate64", "write", "memset", "mmap", "stat", "fstat")
    seen = set()
    for f in P.fns.values():
        r = cls(P, f)
        if r is None:
            continue
        if r["q"] in TABLES and f.kind == "ctor":
            reach = f.reachable_nodes()
            for i, n in list(f.nodes_of("call")) + list(f.nodes_of("new")):
                m = n.get("q", "").rsplit("::", 1)[-1] if n["k"] == "call" else "new"
                if i not in reach or m not in ops + ("validate", "new"):
                    continue
                if m == "memset" and not tomap(f, n):
                    continue
                held = L.held(f, i)
                if held is None:
                    continue
                if any(p and p[0] == "this" and len(p) > 1 for p in held):
                    ctx.ok("set-up", 1, "%s: %s" % (f.q, m))
                else:
                    k = (f.file, n.get("l"))
                    if k not in seen:
                        seen.add(k)
                        ctx.bad("set-up", "%s:%s" % (f.q, m), f.loc(i), "%s does %s on memory that processes share, without the lock that serialises setting it up" % (f.q, m))
        if r["q"] == "eckit::geo::Search":
            reach = f.reachable_nodes()
            for i, n in f.nodes_of("call"):
                if i not in reach or not n.get("q", "").startswith("eckit::geo::search::Tree::"):
                    continue
                m = n["q"].rsplit("::", 1)[-1]
                if m not in ("ready", "commit", "build", "insert"):
                    continue
                held = under(P, L, f, i)
                if held:
                    ctx.ok("set-up", 1, "%s: %s" % (f.q, m))
                elif held is not None:
                    ctx.bad("set-up", "%s:%s" % (f.q, m), f.loc(i), "%s calls %s() of a tree that may lie in shared memory, without the tree's lock" % (f.q, m))
    ctx.floor("set-up", 20)


def tomap(f, n):
    if not n.get("a"):
        return False
    from rules.lockuse import subtree
    return any(f.n[j]["k"] == "mem" and f.n[j].get("n") == "map_" for j in subtree(f, n["a"][0]))


def index(P, L, ctx):
    seen = set()
    for f in P.fns.values():
        r = cls(P, f)
        if r is None or r["q"] not in ("eckit::CacheManagerBase", "eckit::CacheManager"):
            continue
        reach = f.reachable_nodes()
        for i, n in enumerate(f.n):
            if n["k"] not in ("call", "ctor") or i not in reach:
                continue
            m = n.get("q", "").rsplit("::", 1)[-1]
            what = None
            if n["k"] == "ctor" and ("basic_ofstream" in n.get("t", "") or "basic_ifstream" in n.get("t", "")) and n.get("a"):
                what = "opens a file of the index"
            elif n["k"] == "call" and m in ("unlink", "touch") and n.get("q", "").startswith("eckit::PathName::"):
                what = "does %s()" % m
            elif n["k"] == "call" and m == "rescanCache":
                what = "rebuilds the index"
            elif r["q"] == "eckit::CacheManager" and n["k"] == "call" and m in ("create", "save", "commit"):
                what = "does %s()" % m
            if not what:
                continue
            held = under(P, L, f, i)
            if held is None:
                continue
            key = (f.file, n.get("l"), what)
            if not held:
                if key not in seen:
                    seen.add(key)
                    ctx.bad("index", "%s:%s" % (f.q, m), f.loc(i), "%s %s without the lock processes share for it" % (f.q, what))
                continue
            ctx.ok("index", 1, "%s %s" % (f.q, what))
            if m == "create":
                again = [j for j, c in f.nodes_of("call") if c.get("q", "").rsplit("::", 1)[-1] == "get" and L.held(f, j)
                         and any(f.dominates(a, b) for a in [x for x in els(f, j)] for b in els(f, i))]
                if again:
                    ctx.ok("index", 1, "%s looks again before it creates" % f.q)
                elif (f.file, n.get("l"), "again") not in seen:
                    seen.add((f.file, n.get("l"), "again"))
                    ctx.bad("index", "%s:again" % f.q, f.loc(i), "%s makes the entry without having looked for it since it got the lock: another process may have made it" % f.q)
    ctx.floor("index", 6)


def els(f, i):
    pos = f.elpos()
    par = f.parents()
    j = i
    while j is not None and j not in pos:
        j = par.get(j) if isinstance(par, dict) else par[j]
        if j is not None and j < 0:
            j = None
    return [j] if j is not None else []


# -- how the locks are taken

def vals(f, i, env, depth=0):
    """possible constants of an expression: {(value, side)} where side tells the branch of a condition on a read-only flag"""
    if i is None or i < 0 or depth > 8:
        return {None}
    n = f.n[i]
    if n["k"] == "cond":
        out = set()
        neg, ro = polarity(f, n["a"][0])
        for k, b in ((1, not neg), (2, neg)):
            for v in vals(f, n["a"][k], env, depth + 1):
                out.add((v, "ro" if b else "rw") if ro and not isinstance(v, tuple) else v)
        return out
    if n.get("c") is not None:
        return {n["c"]}
    if n["k"] in ("cast", "narrow", "defarg", "definit", "ctor") and len(n.get("a", ())) == 1:
        return vals(f, n["a"][0], env, depth + 1)
    if n["k"] == "ref" and n.get("v") in env:
        return env[n["v"]]
    return {None}


def polarity(f, i):
    neg = False
    n = f.n[i]
    for _ in range(8):
        if n["k"] == "un" and n.get("op") == "!":
            neg = not neg
            n = f.n[n["a"][0]]
        elif n["k"] in ("cast", "narrow", "other") and n.get("a"):
            n = f.n[n["a"][0]]
        else:
            break
    return neg, "readonly" in (n.get("n") or "").lower().replace("_", "")


def flocks(P, f, env, depth=0, seen=()):
    """(place, command, type, start, length) of every fcntl lock the function asks for"""
    out = []
    if depth > 4 or f.u in seen:
        return out
    reach = f.reachable_nodes()
    for i, n in f.nodes_of("call"):
        if i not in reach:
            continue
        if n.get("q") in ("fcntl", "fcntl64"):
            cmd = vals(f, n["a"][1], env)
            if len(n["a"]) < 3 or cmd & {"0", "1", "2", "3", "4"}:
                continue
            var = None
            from rules.lockuse import subtree
            for j in subtree(f, n["a"][2]):
                if f.n[j]["k"] == "ref":
                    var = f.n[j]["v"]
            fld = {"l_type": {None}, "l_start": {None}, "l_len": {None}}
            for j, a in f.nodes_of("assign"):
                t = f.n[a["a"][0]]
                if t["k"] == "mem" and t.get("n") in fld and f.n[t["b"]].get("v") == var:
                    src = f.n[a["a"][1]]
                    v = vals(f, a["a"][1], env)
                    if v == {None} and src["k"] == "ref":
                        v = {("param", src.get("n"))}
                    fld[t["n"]] = v if fld[t["n"]] == {None} else fld[t["n"]] | v
            out.append((f.loc(i), cmd, fld["l_type"], fld["l_start"], fld["l_len"]))
        elif n.get("q") == "flock" and len(n["a"]) == 2:
            v = vals(f, n["a"][1], env)
            t = {{"1": RDLCK, "2": WRLCK, "8": UNLCK}.get(x if not isinstance(x, tuple) else x[0]) if not isinstance(x, tuple)
                 else ({"1": RDLCK, "2": WRLCK, "8": UNLCK}.get(x[0]), x[1]) for x in v}
            nb = any((x if not isinstance(x, tuple) else x[0]) not in ("1", "2", "8") for x in v)
            out.append((f.loc(i), {SETLK if nb else SETLKW}, t, {"0"}, {"0"}))
        else:
            g = P.fns.get(n.get("f"))
            if g is not None and ("lock" in g.name.lower()) and g.file.startswith("src/"):
                e = {}
                for p, a in zip(g.r["p"], n["a"]):
                    e[p["v"]] = vals(f, a, env)
                out += flocks(P, g, e, depth + 1, seen + (f.u,))
    return out


def how(P, ctx):
    seen = set()
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.u)):
        nm = f.name.lower()
        if f.kind != "method" or f.name not in ("lock", "unlock", "lockShared", "lockExclusive", "flock", "funlock", "tryLock") or not f.file.startswith("src/"):
            continue
        for loc, cmd, typ, start, ln in flocks(P, f, {}):
            bads = []
            for t in typ:
                v, side = t if isinstance(t, tuple) else (t, None)
                if "unlock" in nm:
                    if v != UNLCK:
                        bads.append("does not ask for the lock to be released")
                elif "shared" in nm:
                    if v not in (RDLCK,):
                        bads.append("does not ask for a lock that readers share")
                elif v == UNLCK or v is None:
                    bads.append("asks for no lock")
                elif v == RDLCK and side != "ro":
                    bads.append("asks for the lock readers share: two writers may hold it at once" if side is None else "asks for the shared lock to write and the exclusive one to read")
            if "unlock" not in nm and "try" not in nm and SETLKW not in cmd:
                bads.append("does not wait for the lock: it fails whenever another process holds it")
            if not start <= {"0", None} and not any(isinstance(x, tuple) for x in start) or not ln <= {"0", None} and not any(isinstance(x, tuple) for x in ln):
                bads.append("locks only part of the file")
            key = (f.q, loc)
            if bads:
                if key not in seen:
                    ctx.bad("how", f.q, loc, "%s %s" % (f.q, "; ".join(sorted(set(bads)))))
                seen.add(key)
            else:
                ctx.ok("how", 1, f.q)
    sems(P, ctx)
    ctx.floor("how", 12)


def numbers(v):
    ns = v.get("n") or []
    out = []
    for n in ns:
        if n["k"] == "initlist" and len(n.get("a", ())) == 3:
            out.append([int(ns[a].get("c") or 0) for a in n["a"]])
    return out


def sems(P, ctx):
    arrays = {v["u"]: (v, numbers(v)) for v in P.vars.values() if "sembuf" in v["t"]}
    seen = set()
    for f in P.fns.values():
        for i, n in f.nodes_of("call"):
            if n.get("q") != "semop":
                continue
            from rules.lockuse import subtree
            v = [f.n[j]["v"] for j in subtree(f, n["a"][1]) if f.n[j]["k"] == "ref" and f.n[j]["v"] in arrays]
            if not v:
                continue
            var, ops = arrays[v[0]]
            if not ops:
                continue
            size = next((f.n[j].get("c") for j in subtree(f, n["a"][2]) if f.n[j].get("c") is not None), None)
            nm = f.name.lower()
            want = "un" if "unlock" in nm or f.kind == "dtor" else "try" if "try" in nm else "lock"
            if f.kind not in ("ctor", "dtor") and "lock" not in nm:
                continue
            bads = []
            if any(not o[2] & UNDO for o in ops):
                bads.append("is not undone when its holder dies: the others wait for ever")
            if want == "un":
                if [o[1] for o in ops] != [-1]:
                    bads.append("does not lower the semaphore by one")
            else:
                if [o[1] for o in ops] != [0, 1]:
                    bads.append("does not wait for zero and then raise: two processes may hold it")
                if want == "lock" and any(o[2] & NOWAIT for o in ops):
                    bads.append("does not wait")
            if size is not None and int(size) != len(ops) and n["a"][2] == next((j for j in [n["a"][2]]), None) and f.n[n["a"][2]].get("c") is not None and int(f.n[n["a"][2]]["c"]) != len(ops):
                bads.append("does only %s of the %d operations" % (f.n[n["a"][2]]["c"], len(ops)))
            key = (f.q, n.get("l"))
            if bads and key not in seen:
                seen.add(key)
                ctx.bad("how", f.q, f.loc(i), "%s: the semaphore operation %s" % (f.q, "; ".join(bads)))
            elif not bads:
                ctx.ok("how", 1, f.q)
