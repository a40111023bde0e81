"""Process-wide mutable state: constant after start-up, per thread, atomic, or locked."""
import re
from collections import defaultdict
import engine, shared
from shared import descr
from rules import guarded

SYNC = {"eckit::Mutex", "eckit::MutexCond", "eckit::StaticMutex", "std::mutex", "std::recursive_mutex", "std::shared_mutex",
        "std::timed_mutex", "std::once_flag", "eckit::(anon)::once_flag", "eckit::once_flag", "eckit::geo::util::once_flag", "pthread_mutex_t", "pthread_cond_t", "pthread_rwlock_t",
        "pthread_key_t", "eckit::Semaphore", "std::condition_variable", "std::shared_timed_mutex",
        "std::recursive_timed_mutex", "eckit::Once"}
SYNCT = ("std::atomic", "eckit::ThreadSingleton<", "std::atomic_flag")

# variables and functions that run before there are threads, in a signal handler, or whose sharing is harmless; each with its reason
VARS = {
    "eckit::maths::(anon)::CUSTOM_EXCEPTS": "the floating-point environment is set up at start-up",
    "eckit::maths::(anon)::CUSTOM_SIGNAL_HANDLERS": "the floating-point environment is set up at start-up",
    "eckit::net::env": "alarm() and its handler serve one connection attempt at a time, by design of alarm()",
    "eckit::AutoAlarm::caught_": "there is one alarm per process", "eckit::AutoAlarm::sec_": "there is one alarm per process",
    "eckit::AutoAlarm::throw_": "there is one alarm per process",
    "eckit::SignalHandler::current_": "signal dispositions are per process; nesting is by scope",
    "eckit::interrupted_": "set by the signal handler",
    "eckit::INSTANCE": "set by the constructor of the tool, in main()", "eckit::instance_": "Main is made in main()",
    "eckit::end::in_end": "termination path", "eckit::reserve_": "new-handler, set in main()",
    "eckit::map_": "persist/Isa: filled by static constructors",
    "eckit::active_": "Monitor::active() is set in main()",
    "eckit::sql::nullBool": "not written: passed as a value slot of a constant table",
    "eckit::mpi::(anon)::WorkaroundSegvAtExit::MPI_Finalize::sigsegv_occured": "end of the process",
    "eckit::(anon)::_lock": "constant argument of semop(2)", "eckit::(anon)::_unlock": "constant argument of semop(2)",
    "eckit::_try_lock": "constant argument of semop(2)", "eckit::_unlock": "constant argument of semop(2)",
    "eckit::ThreadSingleton::once_": "reset by the destructor of a static object, at exit",
    "eckit::_lock": "constant argument of semop(2)",
}
FIELDS = {
    "eckit::EckitTool.options_": "one thread: a command-line tool's start-up",
    "eckit::LibEcKit.abort_handler_": "set in main()", "eckit::Main.taskID_": "set at start-up",
    "eckit::ThreadSingleton.alloc_": "stateless allocator",
    "eckit::MappedArray.sem_": "a lock", "eckit::StaticMutex.exists_": "written while static objects are constructed",
    "eckit::TaskInfo.info": "the slots are in shared memory, one per process; when monitoring is off all share one dummy that nobody reads",
}
SKIPFILE = ("src/eckit/cmd/", "src/tools/", "src/eckit/runtime/ProcessControler")
# classes used by value: one of their objects is shared only if the variable is (judged there)
VALUES = ("eckit::Value", "eckit::Regex", "eckit::PathName", "eckit::Resource", "eckit::Timer", "eckit::Translator",
          "eckit::CmdArg", "eckit::Mutex", "eckit::StaticMutex", "eckit::URI")

FAMILY = {}
for fam, names in {
    "tm": "localtime gmtime", "asctime": "asctime ctime", "passwd": "getpwuid getpwnam getpwent", "group": "getgrgid getgrnam",
    "hostent": "gethostbyname gethostbyaddr gethostbyname2", "servent": "getservbyname getservbyport getprotobyname",
    "strtok": "strtok", "tmpnam": "tmpnam", "locale": "setlocale", "ttyname": "ttyname", "getlogin": "getlogin",
    "convert": "ecvt fcvt gcvt", "mb": "mblen mbtowc wctomb", "environment": "setenv putenv unsetenv", "drand48": "drand48 lrand48 mrand48",
    "strsignal": "strsignal", "crypt": "crypt", "signgam": "lgamma gamma", "hsearch": "hsearch hcreate"}.items():
    for n in names.split():
        FAMILY[n] = FAMILY["std::" + n] = fam


def sync_type(t):
    b = t.replace("const ", "").strip().rstrip("*& ").strip()
    b = re.sub(r"\[\d+\]$", "", b)
    return b in SYNC or b.startswith(SYNCT) or b.startswith("(unnamed")


def recs_by_name(P):
    d = {}
    for r in P.recs.values():
        d[r["q"]] = r
    return d


def streamy(P, r):
    return any(b.get("q", "").startswith(("std::basic_ostream", "std::basic_istream", "std::basic_iostream", "std::basic_streambuf"))
               for b in P.bases(r))


STREAMT = re.compile(r"^std::basic_(o|i|io|of|if|f|ostring|istring|string)?(stream|fstream)\b|^std::basic_(o|i)?stringstream|^std::basic_[oi]?fstream")


def once_more(P, once):
    """also eckit's own call_once"""
    for f in P.fns.values():
        for i, n in enumerate(f.n):
            if n["k"] == "call" and n.get("q", "").endswith("::call_once"):
                for a in n.get("a", ()):
                    todo = [a]
                    while todo:
                        x = todo.pop()
                        m = f.n[x]
                        if m["k"] in ("fref", "lambda", "mfref") and m.get("f"):
                            once.add(m["f"])
                        if m["k"] in ("cast", "un", "narrow", "ctor"):
                            todo += [y for y in m.get("a", ()) if y >= 0]
    return once


def static_init_lambdas(P):
    """lambdas run only as the initialiser of a static variable: once, and before anybody can use it"""
    out = set()
    for f in P.fns.values():
        for i, n in enumerate(f.n):
            if n["k"] == "decl":
                for d in n["d"]:
                    if d.get("vk") == "slocal" and d.get("i") is not None:
                        todo = [d["i"]]
                        while todo:
                            x = todo.pop()
                            m = f.n[x]
                            if m["k"] == "lambda":
                                out.add(m["f"])
                            if m["k"] in ("cast", "call", "ctor"):
                                todo += [y for y in list(m.get("a", ())) + [m.get("o", -1)] if isinstance(y, int) and y >= 0]
    return out


def run(P, ctx, tables):
    L = engine.locks()
    ctx.rule("static-variable", "a variable of static storage that functions write (outside its own initialisation and "
             "pthread_once/call_once) is thread-local, atomic or a lock, or all its accesses hold one common lock")
    ctx.rule("shared-object", "a field of a class that has static instances, written outside constructors and destructors, "
             "is atomic or a lock, or all its accesses hold one common lock")
    ctx.rule("per-thread-stream", "no stream or channel of static storage is used for output without a lock, unless per thread")
    ctx.rule("hidden-static", "C functions that return or keep process-wide storage are not used, or only under one lock")
    acc, fr = shared.collect(P, L)
    once = once_more(P, guarded.once_functions(P)) | static_init_lambdas(P)
    known = set(tables.REGISTRIES) | set(tables.CACHES) | set(tables.THREADS)
    byname = recs_by_name(P)
    callers = P.callers()

    def common_lock(as_):
        common = None
        for a in as_:
            h = L.held(a.f, a.i)
            if h is None:
                continue
            h = {p for p in h if not guarded.local_mutex_root(a.f, P, p)}
            d = set(descr(a, h))
            common = d if common is None else common & d
        return common is None or bool(common)

    def fnskip(f):
        if f.file.startswith(SKIPFILE):
            return True
        if f.u in once:
            return True
        # never called: source-private classes' unused members
        rec = P.recs.get(f.r.get("clsu"))
        if rec and rec["file"].endswith((".cc", ".cpp")) and not f.r.get("virt") and f.kind == "method" and not callers.get(f.u):
            return True
        return False

    def report(rule, nm, as_, ws, what):
        common = None
        good = [a for a in as_]
        # blame the accesses without the lock that most of the others hold
        cnt = defaultdict(int)
        for a in good:
            h = L.held(a.f, a.i) or ()
            for d in descr(a, {p for p in h if not guarded.local_mutex_root(a.f, P, p)}):
                cnt[d] += 1
        best = max(cnt, key=lambda d: (cnt[d], d)) if cnt else None
        for a in (good if best else ws):
            h = L.held(a.f, a.i) or ()
            if best is None or best not in descr(a, h):
                ctx.bad(rule, "%s:%s" % (nm, a.f.q), a.f.loc(a.i), "%s %s in %s: %s shared by all threads, no lock common to its uses" %
                        ("write of" if a.kind == "w" else "use of", nm, a.f.q, what), counted=True)

    # A: variables
    n = 0
    for ent in sorted(acc, key=str):
        if ent[0] != "g":
            continue
        v = P.vars.get(ent[1])
        if not v or v.get("tls") or v.get("constexpr") or not v["file"].startswith("src/") or v["file"].startswith(SKIPFILE):
            continue
        if v.get("const") and not v["t"].endswith("*"):
            continue
        if sync_type(v["t"]) or v["q"] in known:
            continue
        as_ = [a for a in acc[ent] if not fnskip(a.f)]
        if (v["t"].startswith("int") or "once" in v["t"]) and all(once_arg(a) for a in as_):
            continue
        t = v["t"].replace("const ", "").strip()
        isptr = t.endswith("*") and "<" not in t.split("*")[0][-1:]
        base = re.sub(r"\[\d+\]", "", t).rstrip("*& ").strip()
        r = byname.get(base) or byname.get(re.sub("<.*", "", base))
        src = r is not None and r["file"].startswith("src/")
        if src and not t.endswith("&"):
            ws = [a for a in as_ if a.kind == "w" and direct(a)]
        else:
            ws = [a for a in as_ if a.kind == "w"]
        if v["q"] in VARS:
            ctx.note("%s: %s" % (v["q"], VARS[v["q"]]))
            continue
        n += 1
        if src and not isptr and streamy(P, r) or STREAMT.match(base) and not isptr:
            uses = [a for a in as_ if a.kind == "w"]
            if uses and not common_lock(as_):
                report("per-thread-stream", v["q"], as_, uses, "an output stream")
            ctx.ok("per-thread-stream")
            continue
        if ws and not common_lock(as_):
            report("static-variable", v["q"], as_, ws, "a static variable")
        ctx.ok("static-variable", 1, "%s (%s): %d accesses, %d writes" % (v["q"], v["file"], len(as_), len(ws)))
    # B: fields of classes with static instances
    sing = {}
    for u, v in sorted(P.vars.items()):
        if v.get("tls") or not v["file"].startswith("src/") or v.get("constexpr") or v["file"].startswith(SKIPFILE):
            continue
        if v.get("const") and not v["t"].endswith("*"):
            continue
        t = v["t"].replace("const ", "").rstrip("*& ").strip()
        m = re.match(r"std::(?:unique|shared)_ptr<(.*?)(?:, std::default_delete.*)?>$", t)
        if m:
            t = m.group(1)
        if sync_type(t):
            continue
        r = byname.get(t) or byname.get(re.sub("<.*", "", t))
        if r and r["file"].startswith("src/") and r["q"] not in VALUES:
            sing[r["u"]] = (r, v["q"])
    # instances of one template are one class
    seen = set()
    todo = sorted(sing.values(), key=lambda x: x[0]["q"])
    for r, inst in todo:
        for fd in r["fields"]:
            nm = r["q"] + "." + fd["n"]
            if (r["u"], fd["v"]) in seen or nm in known:
                continue
            seen.add((r["u"], fd["v"]))
            if sync_type(fd["t"]):
                continue
            as_ = [a for a in acc.get(("m", fd["v"]), ()) if not fnskip(a.f) and not a.f.r.get("implicit")
                   and not (a.f.kind in guarded.CTORS and (a.path is None or a.path[0] == "this"))
                   and not (a.path and a.path[0] == "this" and a.f.u in L.ctoronly)]
            if nm in FIELDS:
                ctx.note("%s: %s" % (nm, FIELDS[nm]))
                continue
            frec = byname.get(re.sub("<.*", "", fd["t"].rstrip("*& ")))
            ws = [a for a in as_ if a.kind == "w" and (frec is None or direct(a))]
            if ws and not common_lock(as_):
                report("shared-object", nm, as_, ws, "a field of %s," % inst)
            ctx.ok("shared-object", 1, "%s of %s: %d writes" % (nm, inst, len(ws)))
    # C: hidden statics of the C library
    fam = defaultdict(list)
    nc = 0
    for f in P.fns.values():
        if not f.file.startswith("src/") or f.file.startswith(SKIPFILE):
            continue
        reach = f.reachable_nodes()
        for i, m in enumerate(f.n):
            if m["k"] == "call" and i in reach:
                nc += 1
                if m.get("q") in FAMILY:
                    fam[FAMILY[m["q"]]].append((f, i, m["q"]))
    ctx.ok("hidden-static", nc)
    for k, sites in sorted(fam.items()):
        common = None
        for f, i, q in sites:
            h = L.held(f, i) or frozenset()
            h = {p for p in h if p[0].startswith("v:") and p[0][2:] in P.vars}
            common = set(h) if common is None else common & h
        if not common:
            for f, i, q in sites:
                ctx.bad("hidden-static", "%s:%s" % (f.q, q), f.loc(i), "%s calls %s(), whose static storage is shared by all threads, "
                        "without a lock common to all such calls" % (f.q, q))
    ctx.floor("static-variable", 40)
    ctx.floor("shared-object", 15)
    ctx.floor("hidden-static", 5000)


def once_arg(a):
    par = a.f.parents()
    cur = a.i
    for _ in range(4):
        for p in par.get(cur, ()):
            m = a.f.n[p]
            if m["k"] == "call" and m.get("q") in ("pthread_once", "std::call_once", "eckit::call_once",
                                                   "pthread_key_create", "pthread_getspecific", "pthread_setspecific"):
                return True
            cur = p
    return False


def direct(a):
    """the object itself is overwritten (assignment, ++), not merely used through a method of its class"""
    f = a.f
    par = f.parents()
    cur = a.i
    for _ in range(6):
        nxt = None
        for p in par.get(cur, ()):
            m = f.n[p]
            if m["k"] == "assign" and m["a"][0] == cur:
                return True
            if m["k"] == "un" and m.get("op") in ("++", "--"):
                return True
            if m["k"] == "delete":
                return True
            if m["k"] == "call" and m.get("o") == cur:
                return m.get("q", "").rsplit("::", 1)[-1] in ("operator=", "reset", "swap", "operator+=", "clear")
            if m["k"] == "call" and cur in m.get("a", ()) and m.get("q", "") in ("std::swap", "memset", "memcpy", "std::exchange"):
                return True
            if m["k"] in ("cast", "narrow") or (m["k"] == "un" and m.get("op") == "&"):
                nxt = p
        if nxt is None:
            return False
        cur = nxt
    return False
