"""How locks and condition variables are used: release on every path, re-tested waits, signalled changes."""
from collections import defaultdict
import engine
from prog import kids

CV = ("eckit::MutexCond", "std::condition_variable", "std::condition_variable_any")


def natural_loops(f):
    """[(header, body)] for every back edge; loops of one header merged"""
    if "loops" in f._memo:
        return f._memo["loops"]
    dom = f.dom()
    pred = f.predecessors()
    loops = {}
    for b in f.blocks:
        if not dom.get(b):
            continue
        for s in f.succs(b):
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo += pred.get(x, ())
    f._memo["loops"] = list(loops.items())
    return f._memo["loops"]


def subtree(f, i, out=None):
    out = set() if out is None else out
    if i in out:
        return out
    out.add(i)
    for k in kids(f.n[i]):
        subtree(f, k, out)
    return out


def locals_def(f, v):
    """initialiser and assigned values of a local variable"""
    r = []
    for n in f.n:
        if n["k"] == "decl":
            for d in n["d"]:
                if d.get("v") == v and isinstance(d.get("i"), int):
                    r.append(d["i"])
        elif n["k"] == "assign" and f.n[n["a"][0]].get("v") == v and f.n[n["a"][0]]["k"] == "ref":
            r.append(n["a"][1])
    return r


def strip(f, i):
    n = f.n[i]
    while n["k"] in ("cast", "narrow", "ctor", "definit") and len(n.get("a", ())) == 1:
        n = f.n[n["a"][0]]
    return n


class Wait:
    __slots__ = ("f", "i", "kind", "cond", "path", "held", "loop", "tests", "fields", "param", "pred", "body")


def fields_of(P, f, i, pol, out, depth=0, seen=None):
    """fields (and file-level variables) a condition depends on, with the polarity in which they occur:
    +1: larger/true makes the condition true, -1: the other way, 0: unknown"""
    if i < 0 or depth > 40:
        return
    n = f.n[i]
    k = n["k"]

    def put(v, p):
        out[v] = p if v not in out or out[v] == p else 0

    if k == "un" and n.get("op") == "!":
        return fields_of(P, f, n["a"][0], -pol, out, depth + 1, seen)
    if k == "bin" and n.get("op") in ("&&", "||"):
        for a in n["a"]:
            fields_of(P, f, a, pol, out, depth + 1, seen)
        return
    if k == "bin" and n.get("op") in ("<", "<=", ">", ">="):
        s = pol if n["op"][0] == ">" else -pol
        fields_of(P, f, n["a"][0], s, out, depth + 1, seen)
        fields_of(P, f, n["a"][1], -s, out, depth + 1, seen)
        return
    if k == "call" and n.get("op") in ("==", "!="):
        # find(...) compared with end(): is it in the container?
        both = [x for x in n.get("a", ())] + ([n["o"]] if n.get("o") is not None else [])
        nodes = [strip(f, x) for x in both]
        names = [x.get("q", "").rsplit("::", 1)[-1] for x in nodes]
        if "find" in names and "end" in names:
            x = nodes[names.index("find")]
            if x.get("o") is not None:
                fields_of(P, f, x["o"], pol if n["op"] == "!=" else -pol, out, depth + 1, seen)
                for a in x.get("a", ()):
                    fields_of(P, f, a, 0, out, depth + 1, seen)
                return
    if k == "bin" and n.get("op") in ("+",):
        for a in n["a"]:
            fields_of(P, f, a, pol, out, depth + 1, seen)
        return
    if k == "mem":
        put(n["v"], pol)
        return
    if k == "ref":
        if n["v"] in P.vars:
            put(n["v"], pol)
        elif n.get("vk") == "param":
            put(("p", n["v"]), pol)
        else:
            if seen is None:
                seen = set()
            if n["v"] not in seen:
                seen.add(n["v"])
                for d in locals_def(f, n["v"]):
                    fields_of(P, f, d, 0, out, depth + 1, seen)
        return
    if k == "call" and n.get("f"):
        q = n.get("q", "")
        name = q.rsplit("::", 1)[-1]
        if q.startswith("std::") and n.get("o") is not None:
            p = 0
            if name == "empty":
                p = -pol
            elif name == "size":
                p = pol
            fields_of(P, f, n["o"], p, out, depth + 1, seen)
            for a in n.get("a", ()):
                fields_of(P, f, a, 0, out, depth + 1, seen)
            return
        g = P.fns.get(n["f"])
        args = {}
        if g is not None and depth < 10:
            sub = {}
            rets = [m["a"][0] for m in g.n if m["k"] == "ret" and m["a"]]
            for r in rets:
                fields_of(P, g, r, pol if len(rets) == 1 else 0, sub, depth + 5)
            for b in g.blocks.values():
                t = b.get("t")
                if t and t.get("c") is not None:
                    fields_of(P, g, t["c"], 0, sub, depth + 5)
            ps = [p["v"] for p in g.r.get("p", ())]
            for v, p in sub.items():
                if isinstance(v, tuple):
                    if v[1] in ps:
                        args[ps.index(v[1])] = p
                else:
                    put(v, p)
        for j, a in enumerate(n.get("a", ())):
            fields_of(P, f, a, args.get(j, 0), out, depth + 1, seen)
        if g is None and n.get("o") is not None:
            fields_of(P, f, n["o"], 0, out, depth + 1, seen)
        return
    for c in kids(n):
        fields_of(P, f, c, pol if k in ("cast", "narrow") else 0, out, depth + 1, seen)


def waits(P, L):
    out = []
    for f in P.fns.values():
        if not f.file.startswith("src/") or f.q.startswith(CV):
            continue
        reach = None
        for i, n in enumerate(f.n):
            if n["k"] != "call" or n.get("o") is None:
                continue
            cls, _, name = n.get("q", "").rpartition("::")
            if cls not in CV or name not in ("wait", "wait_for", "wait_until"):
                continue
            if reach is None:
                reach = f.reachable_nodes()
            if i not in reach:
                continue
            w = Wait()
            w.f, w.i, w.kind = f, i, name
            w.path = L.pf.path(f, n["o"])
            w.cond = w.path[-1] if w.path else None
            h = L.held(f, i)
            if cls == "eckit::MutexCond":
                w.held = h is None or (w.path in h)
                pred = None
            else:
                a = n["a"][0] if n["a"] else -1
                m = L.pf.path(f, a)
                w.held = bool(h)
                pred = None
                npre = 1 if name == "wait" else 2
                if len(n["a"]) > npre:
                    pred = n["a"][npre]
            w.pred = pred
            w.fields, w.tests, w.param = {}, [], False
            w.loop = None
            w.body = set()
            if pred is not None:
                w.loop = "predicate"
                m = f.n[pred]
                while m["k"] in ("cast", "ctor", "narrow") and m.get("a"):
                    m = f.n[m["a"][0]]
                if m["k"] == "lambda":
                    g = P.fns.get(m["f"])
                    if g:
                        for x in g.n:
                            if x["k"] == "ret" and x["a"]:
                                fields_of(P, g, x["a"][0], -1, w.fields, 0)
                        for c in m.get("caps", ()):
                            pass
            else:
                pos = f.elpos().get(i)
                best = None
                for h2, body in natural_loops(f):
                    if pos and pos[0] in body and (best is None or len(body) < len(best[1])):
                        best = (h2, body)
                if best:
                    hdr, body = best
                    w.body = body
                    dom = f.dom()
                    for b in body:
                        t = f.blocks[b].get("t")
                        if not t or t.get("c") is None:
                            continue
                        # a branch that can leave the loop, tested before each wait
                        ss = f.succs(b)
                        outs = [s for s in ss if s not in body]
                        if len(ss) >= 2:
                            pol = 0
                            if outs and len(ss) == 2:
                                pol = 1 if ss[0] in body else -1
                            fields_of(P, f, t["c"], pol, w.fields, 0)
                            if outs:
                                w.tests.append((t["c"], pol))
                                if b in dom[pos[0]]:
                                    w.loop = "loop"
            w.param = any(isinstance(v, tuple) for v in w.fields)
            w.fields = {v: p for v, p in w.fields.items() if not isinstance(v, tuple)}
            out.append(w)
    return out


SIG = {"signal", "broadcast", "notify_one", "notify_all"}
GROW = {"push_back", "push_front", "push", "emplace", "emplace_back", "emplace_front", "insert", "splice"}
SHRINK = {"pop_front", "pop_back", "pop", "erase", "clear", "remove"}


def signals(P, L, f):
    """{node: (cond, all?)}"""
    r = {}
    for i, n in enumerate(f.n):
        if n["k"] == "call" and n.get("o") is not None:
            cls, _, name = n.get("q", "").rpartition("::")
            if cls in CV and name in SIG:
                p = L.pf.path(f, n["o"])
                if p:
                    r[i] = (p[-1], name in ("broadcast", "notify_all"))
    return r


def const(f, i):
    n = f.n[i]
    while n["k"] in ("cast", "narrow") and n.get("a") and "c" not in n:
        n = f.n[n["a"][0]]
    return n.get("c")


def direction(f, i):
    """+1: the write makes the datum larger / true / fuller, -1 the opposite, 0 unknown"""
    par = f.parents()
    for p in par.get(i, ()):
        n = f.n[p]
        if n["k"] == "assign":
            if n["a"][0] != i:
                continue
            if n["op"] == "=":
                c = const(f, n["a"][1])
                if c is None:
                    return 0
                return -1 if c == "0" else 1 if f.n[i].get("t") == "bool" else 0
            if n["op"] == "+=":
                return 1
            if n["op"] == "-=":
                return -1
        if n["k"] == "un":
            if n["op"] == "++":
                return 1
            if n["op"] == "--":
                return -1
        if n["k"] == "call" and n.get("o") == i:
            name = n.get("q", "").rsplit("::", 1)[-1]
            if name in GROW:
                return 1
            if name in SHRINK:
                return -1
            if name == "operator[]" and "map" in n.get("q", ""):
                return 1
            if name == "operator=":
                return 0
            return None if n.get("q", "").startswith("std::") and name in ("begin", "end", "front", "back") else 0
    return 0


def followed(P, f, i, good, memo=None):
    """every normal path from element i to the exit passes through one of the nodes in good"""
    pos = f.elpos()
    if i not in pos:
        # not an element of its own: use the element whose subtree contains it
        par = f.parents()
        cur = i
        while cur not in pos and par.get(cur):
            cur = par[cur][0]
        if cur not in pos:
            return True
        i = cur
    b, k = pos[i]
    for e in f.blocks[b]["e"][k + 1:]:
        if e in good:
            return True
    seen, todo = set(), [s for s in f.succs(b)]
    noret = not f.blocks[b]["s"]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        hit = any(e in good for e in f.blocks[x]["e"])
        if hit:
            continue
        if any(f.n[e]["k"] == "throw" or f.n[e].get("nr") for e in f.blocks[x]["e"]):
            continue
        if x == f.exit:
            return False
        todo += f.succs(x)
    # a block that ends in throw leads to the exit block directly
    return True


def stale_classes(P, table):
    """classes of which a table names a member they do not have: it goes by another name now"""
    out = set()
    for key in table:
        cls, m = key.rsplit(".", 1)
        rs = [r for r in P.recs.values() if r["q"].split("<")[0] == cls]
        if rs and not any(x["n"] == m for r in rs for x in r["fields"]):
            out.add(cls)
    return out


# one thread waits, one thread signals: whoever is woken is the right one
ONE_TO_ONE = {
    "eckit::AsyncHandle.cond_": "one client, one writer thread, which never wait at the same time",
    "eckit::OneBuffer.cond_": "one reader and one writer thread per buffer, waiting for opposite states",
    "eckit::OnePayload.cond_": "one producer and one consumer per slot",
    "eckit::ProducedPayload.cond_": "one producer and one consumer per slot",
    "eckit::ThreadControler.cond_": "only the thread that starts the other waits",
    "eckit::ThreadPool.done_": "only the thread that destroys or resizes the pool waits",
}
# sleeping between polls: whoever sleeps re-reads everything afterwards
SLEEPERS = {"eckit::Dispatcher::sleep"}
# the flag lives in a base class that knows no condition: its callers signal
INDIRECT = {"eckit::Thread::stop"}


def field_names(P):
    r = {}
    for rec in P.recs.values():
        for fd in rec["fields"]:
            r[fd["v"]] = rec["q"] + "." + fd["n"]
    for u, v in P.vars.items():
        r.setdefault(u, v["q"])
    return r


def run_waits(P, ctx):
    import shared
    L = engine.locks()
    ctx.rule("wait-locked", "a condition is waited for with its mutex held")
    ctx.rule("wait-retested", "every wait sits in a loop (or has a predicate) whose test of the state is made before the "
             "first wait and again after each one, before the loop is left")
    ctx.rule("change-signalled", "on every normal path, a change of the tested state that can end a wait is followed by a "
             "signal of that condition")
    ctx.rule("change-locked", "the tested state is changed with the mutex of the condition held")
    ctx.rule("wake-all", "a condition for which threads wait for different things, or whose state they do not consume, is "
             "broadcast")
    names = field_names(P)
    W = waits(P, L)
    bycond = defaultdict(list)
    for w in W:
        f = w.f
        where = "%s:%s" % (f.file, f.n[w.i].get("l"))
        cn = names.get(w.cond, w.cond or "?")
        bycond[w.cond].append(w)
        if w.held:
            ctx.ok("wait-locked", 1, "%s waits for %s" % (f.q, cn))
        else:
            ctx.bad("wait-locked", "%s:%s" % (cn, f.q), where, "%s waits for %s without holding its mutex" % (f.q, cn))
        if f.q in SLEEPERS:
            continue
        ok = w.loop is not None
        if not ok and w.tests:
            # tested once before the loop, then at its end
            pos = f.elpos().get(w.i)
            dom = f.dom()[pos[0]]
            for b in dom:
                t = f.blocks[b].get("t")
                if t and t.get("c") is not None and b not in w.body:
                    got = {}
                    fields_of(P, f, t["c"], 0, got)
                    if set(got) & set(w.fields):
                        ok = True
        if ok and w.pred is None and w.kind == "wait" and not timed(f, w.i):
            ok = retested(P, f, w)
        if ok:
            ctx.ok("wait-retested", 1, "%s tests %s" % (f.q, ", ".join(sorted(names.get(v, v) for v in w.fields))))
        else:
            ctx.bad("wait-retested", "%s:%s" % (cn, f.q), where,
                    "%s waits for %s but does not test the state in a loop around the wait" % (f.q, cn))
    acc, fr = shared.collect(P, L)
    need = defaultdict(lambda: defaultdict(set))
    for w in W:
        if w.cond:
            for v, p in w.fields.items():
                need[v][w.cond].add(p)
    enabling = defaultdict(set)
    for v, conds in sorted(need.items()):
        for ent in (("m", v), ("g", v)):
            for a in acc.get(ent, ()):
                f = a.f
                if a.kind != "w":
                    continue
                if f.kind in ("ctor", "dtor") and (ent[0] == "g" or (a.path and a.path[0] == "this" and len(a.path) == 2)) \
                        and f.kind == "ctor":
                    continue
                d = direction(f, a.i)
                for c, pols in conds.items():
                    if d is None or (len(pols) == 1 and d * list(pols)[0] > 0):
                        continue
                    key = "%s:%s:%s" % (names.get(c, c), names.get(v, v), f.q)
                    where = "%s:%s" % (f.file, f.n[a.i].get("l"))
                    enabling[c] |= {f.u} | {n["f"] for n in f.n if n["k"] == "call" and n.get("f") in P.fns}
                    enabling[c] |= {g.u for g, _ in P.callers().get(f.u, ()) if f.r.get("acc") == 2 or f.r.get("internal")}
                    if f.q in INDIRECT:
                        indirect(P, L, ctx, f, c, v, names)
                        continue
                    if f.kind == "dtor":
                        continue
                    if signalled(P, L, f, a.i, c, set()):
                        ctx.ok("change-signalled", 1, "%s changes %s" % (f.q, names.get(v, v)))
                    else:
                        ctx.bad("change-signalled", key, where, "%s changes %s, for which threads wait, and a path to its "
                                "end does not signal %s" % (f.q, names.get(v, v), names.get(c, c)))
                    h = L.held(f, a.i)
                    if h is None:
                        continue
                    if any(p[-1] in mutexes(P, L, c) for p in h):
                        ctx.ok("change-locked")
                    else:
                        ctx.bad("change-locked", key, where, "%s changes %s without the mutex of %s: a thread about to wait "
                                "misses the change" % (f.q, names.get(v, v), names.get(c, c)))
    # who is woken
    stale = stale_classes(P, ONE_TO_ONE)
    for c, ws in bycond.items():
        if c is None or names.get(c) in ONE_TO_ONE or (names.get(c) or "").rsplit(".", 1)[0] in stale:
            continue
        ws = [w for w in ws if w.f.q not in SLEEPERS]
        mixed = any(w.param for w in ws)
        pol = defaultdict(set)
        for w in ws:
            for v, p in w.fields.items():
                pol[v].add(p)
        mixed = mixed or any(1 in s and -1 in s for s in pol.values())
        for w in ws:
            mine = {a.ent[1] for v in w.fields for e in (("m", v), ("g", v)) for a in acc.get(e, ()) if a.kind == "w" and a.f.u == w.f.u}
            if not mine and w.fields and not passes_on(P, w):
                mixed = True
        for f in P.fns.values():
            for i, (x, allw) in signals(P, L, f).items():
                if x != c or f.u not in enabling[c]:
                    continue
                if mixed and not allw:
                    ctx.bad("wake-all", "%s:%s" % (names.get(c, c), f.q), "%s:%s" % (f.file, f.n[i].get("l")),
                            "%s wakes a single one of the threads that wait for %s, possibly not the one that can go on" %
                            (f.q, names.get(c, c)))
                else:
                    ctx.ok("wake-all")
    ctx.floor("wait-retested", 16)
    ctx.floor("change-signalled", 18)


def passes_on(P, w):
    """the tested state reaches, by reference, something that consumes it"""
    f = w.f
    for i, n in enumerate(f.n):
        if n["k"] == "call":
            for j, a in enumerate(n.get("a", ())):
                pm = n.get("pm", [])
                if j < len(pm) and pm[j] in ("r", "p") and a >= 0 and f.n[a].get("v") in w.fields:
                    return True
    return False


def timed(f, i):
    return bool(f.n[i].get("a")) and "int" in (f.n[f.n[i]["a"][0]].get("t") or "")


def retested(P, f, w):
    """from the wait, the loop is only left through a branch that tests the state"""
    tb = set()
    for b in w.body:
        t = f.blocks[b].get("t")
        if t and t.get("c") is not None:
            got = {}
            fields_of(P, f, t["c"], 0, got)
            if set(got) & set(w.fields):
                tb.add(b)
    start = f.elpos()[w.i][0]
    seen, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in tb and b != start:
            continue
        if b == start and b in tb and b == start and f.blocks[b].get("t"):
            continue
        if any(f.n[e]["k"] == "throw" or f.n[e].get("nr") for e in f.blocks[b]["e"]):
            continue
        for s in f.succs(b):
            if s not in w.body:
                return False
            todo.append(s)
    return True


def mutexes(P, L, cond):
    """locks that protect a condition: an eckit condition is its own; a std one goes with the mutexes waited with"""
    r = {cond}
    for w in _waits(P, L):
        if w.cond == cond:
            h = L.held(w.f, w.i)
            if h:
                r |= {p[-1] for p in h}
    return r


_W = {}


def _waits(P, L):
    if "w" not in _W:
        _W["w"] = waits(P, L)
    return _W["w"]


def signalled(P, L, f, i, c, seen):
    good = {k for k, (x, _) in signals(P, L, f).items() if x == c}
    # a call to a function that signals on all its paths
    for k, n in enumerate(f.n):
        if n["k"] == "call" and n.get("f") in P.fns and n["f"] != f.u:
            g = P.fns[n["f"]]
            gs = {j for j, (x, _) in signals(P, L, g).items() if x == c}
            if gs and reaches_all(P, g, gs):
                good.add(k)
    if followed(P, f, i, good):
        return True
    # the signal comes first, in the same critical section
    st = L.states.get(f.u, {})
    mine = {x[2] for x in st.get(i, ())}
    for k in good:
        if f.dominates(k, i) and mine & {x[2] for x in st.get(k, ())} - {-1}:
            return True
    # a helper that is only called by functions that signal afterwards
    if f.u in seen or not (f.r.get("internal") or f.r.get("acc") == 2 or f.kind == "lambda"):
        return False
    cs = P.callers().get(f.u, ())
    return bool(cs) and all(signalled(P, L, g, j, c, seen | {f.u}) for g, j in cs)


def reaches_all(P, g, good):
    """every normal path of g passes through good"""
    seen, todo = set(), [g.entry]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if any(e in good for e in g.blocks[b]["e"]):
            continue
        if any(g.n[e]["k"] == "throw" or g.n[e].get("nr") for e in g.blocks[b]["e"]):
            continue
        if b == g.exit:
            return False
        todo += g.succs(b)
    return True


def indirect(P, L, ctx, f, c, v, names):
    """callers of a setter of the flag, in the class that owns the condition"""
    owner = names.get(c, "?").rsplit(".", 1)[0]
    setters = {f.u}
    callers = P.callers()
    for u in list(setters):
        for g, i in callers.get(u, ()):
            if g.cls and not g.cls.endswith(owner.rsplit("::", 1)[-1]):
                setters.add(g.u)
    for u in setters:
        for g, i in callers.get(u, ()):
            if not g.q.startswith(owner + "::"):
                continue
            key = "%s:%s:%s" % (names.get(c, c), names.get(v, v), g.q)
            where = "%s:%s" % (g.file, g.n[i].get("l"))
            if signalled(P, L, g, i, c, set()):
                ctx.ok("change-signalled", 1, "%s stops the thread that waits for %s" % (g.q, names.get(c, c)))
            else:
                ctx.bad("change-signalled", key, where, "%s stops the thread that waits for %s without signalling it" %
                        (g.q, names.get(c, c)))
            h = L.held(g, i)
            if h is not None:
                if any(p[-1] == c for p in h):
                    ctx.ok("change-locked")
                else:
                    ctx.bad("change-locked", key, where, "%s stops the thread that waits for %s without its mutex: the "
                            "signal can fall between the thread's test and its wait" % (g.q, names.get(c, c)))


# ------------------------------------------------------------------------------------------------- release
LOCKM = {"lock", "lock_shared", "lockExclusive", "lockShared", "tryLock", "try_lock", "lockRange"}
UNLOCKM = {"unlock", "unlock_shared"}
# keeps what it takes, on purpose
KEEPERS = {
    "eckit::Application::unique": "the semaphore is held for the life of the process: it makes it unique",
    "eckit::get_locks": "fork handler: released by release_locks_parent / release_locks_child",
    "eckit::release_locks_parent": "fork handler: releases what get_locks took",
}


def reaches_exit(f, i, good):
    """a path from element i to the normal exit that avoids the nodes in good"""
    b, k = f.elpos()[i]
    els = f.blocks[b]["e"][k + 1:]
    if any(e in good for e in els):
        return None
    if any(f.n[e]["k"] == "throw" or f.n[e].get("nr") for e in els):
        return None
    seen, todo = set(), [s for s in f.succs(b)]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == f.exit:
            return x
        if any(e in good for e in f.blocks[x]["e"]):
            continue
        if any(f.n[e]["k"] == "throw" or f.n[e].get("nr") for e in f.blocks[x]["e"]):
            continue
        todo += f.succs(x)
    return None


def nothrow_calls(f, n):
    """calls that do not throw, or only when memory is exhausted"""
    if n.get("ne"):
        return True
    q = n.get("q", "")
    return q.startswith(("std::", "__builtin", "__errno", "pthread_", "eckit::CodeLocation::", "eckit::PanicNoLog",
                         "eckit::Panic")) or "::" not in q


def run_release(P, ctx):
    L = engine.locks()
    ctx.rule("guard-kept", "a scoped lock is a named object: a temporary would release at the end of the statement")
    ctx.rule("guard-releases", "the destructor of a scoped lock releases what its constructor takes")
    ctx.rule("pair-balanced", "an unlock method releases exactly what the lock method of its class takes")
    ctx.rule("raw-released", "a lock taken without a scoped lock is released on every path, exceptions included, unless "
             "the function is itself the lock method of a pair")
    for f in P.fns.values():
        if not f.file.startswith("src/"):
            continue
        par = None
        for i, n in enumerate(f.n):
            if n["k"] != "ctor" or n.get("copy") or n.get("move"):
                continue
            cls = n.get("q", "").rsplit("::", 1)[0]
            g = L.guard_acquires(f, i)
            if g is None:
                continue
            if par is None:
                par = f.parents()
            cur, kept = i, None
            for _ in range(6):
                ps = par.get(cur, ())
                if not ps:
                    break
                p = ps[0]
                m = f.n[p]
                if m["k"] in ("decl", "init", "ret", "new", "initlist", "lambda"):
                    kept = m["k"]
                    break
                if m["k"] in ("call", "ctor") and m["k"] == "ctor" and m.get("q", "").startswith("std::"):
                    kept = "ctor"
                    break
                if m["k"] in ("cast", "narrow", "definit"):
                    cur = p
                    continue
                if m["k"] == "call":
                    kept = "call"   # passed on: lives as long as the call
                break
            where = "%s:%s" % (f.file, n.get("l"))
            if kept:
                ctx.ok("guard-kept", 1, "%s in %s" % (cls, f.q))
            else:
                ctx.bad("guard-kept", "%s:%s" % (cls, f.q), where,
                        "%s takes a lock with a temporary %s, which releases it at once" % (f.q, cls))
    # classes
    for r in P.recs.values():
        ms = defaultdict(list)
        for m in r["methods"]:
            if m["n"] in LOCKM | UNLOCKM or m.get("dtor") or m.get("ctor"):
                ms[m["n"] if not (m.get("ctor") or m.get("dtor")) else "ctor" if m.get("ctor") else "dtor"].append(m)
        un = [P.fns[m["u"]] for k in UNLOCKM for m in ms.get(k, ()) if m["u"] in P.fns]
        for k in ("lock", "lock_shared", "lockShared", "lockExclusive"):
            for m in ms.get(k, ()):
                f = P.fns.get(m["u"])
                if f is None:
                    continue
                a = L.analyse(f)[1]
                for u in un:
                    rel = L.analyse(u)[2]
                    if a == rel:
                        ctx.ok("pair-balanced", 1, f.q)
                    else:
                        ctx.bad("pair-balanced", "%s:%s" % (r["q"], k), "%s:%d" % (u.file, u.line),
                                "%s and %s are not a pair: taken %s, released %s" %
                                (f.q, u.q, show(P, a - rel) or "-", show(P, rel - a) or "-"))
        ct = [P.fns[m["u"]] for m in ms.get("ctor", ()) if m["u"] in P.fns]
        takes = set()
        for c in ct:
            b, acq, rel = L.analyse(c)
            raw = raw_exit(L, c)
            if raw:
                takes.add(c.u)
        if takes:
            dt = [P.fns[m["u"]] for m in ms.get("dtor", ()) if m["u"] in P.fns]
            ok = dt and all(L.analyse(d)[2] and reaches_all(P, d, rel_nodes(L, d)) for d in dt)
            if ok:
                ctx.ok("guard-releases", len(takes), r["q"])
            else:
                ctx.bad("guard-releases", r["q"], "%s:%d" % (r["file"], r["l"]),
                        "the destructor of %s does not release, on every path, the lock its constructor takes" % r["q"])
    # raw use
    for f in P.fns.values():
        if not f.file.startswith("src/") or f.u not in L.states or f.q in KEEPERS:
            continue
        if f.name in LOCKM | UNLOCKM or f.kind in ("ctor", "dtor"):
            continue
        for i, n in enumerate(f.n):
            if n["k"] != "call" or i not in f.elpos():
                continue
            for what, ps in L.effect(f, i, n):
                if what != "acq":
                    continue
                for p in ps:
                    good = {j for j, m in enumerate(f.n) if m["k"] == "call" and
                            any(w == "rel" and p in q for w, q in L.effect(f, j, m))}
                    where = "%s:%s" % (f.file, n.get("l"))
                    key = "%s:%s" % (show(P, {p}), f.q)
                    if reaches_exit(f, i, good) is not None:
                        ctx.bad("raw-released", key, where, "%s takes %s and a path to its end does not release it" %
                                (f.q, show(P, {p})))
                        continue
                    # exceptions: calls made while it is held
                    leak = None
                    disp = f.dispatch_blocks()
                    for j, m in enumerate(f.n):
                        if m["k"] not in ("call", "ctor", "throw") or j not in f.elpos():
                            continue
                        if j == i or j in good or not any(x[0] == p and x[1] == "raw" for x in L.states[f.u].get(j, ())):
                            continue
                        if m["k"] != "throw" and nothrow_calls(f, m):
                            continue
                        x = m.get("x")
                        if x is not None and x in disp and handler_releases(f, disp[x], good):
                            continue
                        leak = j
                        break
                    if leak is not None:
                        ctx.bad("raw-released", key, "%s:%s" % (f.file, f.n[leak].get("l")),
                                "%s holds %s without a scoped lock while %s can throw" %
                                (f.q, show(P, {p}), f.n[leak].get("q", "this")))
                    else:
                        ctx.ok("raw-released", 1, f.q)
    ctx.floor("guard-kept", 250)
    ctx.floor("pair-balanced", 15)
    ctx.floor("guard-releases", 8)


def handler_releases(f, b, good):
    """all handlers of a try release before they leave"""
    seen, todo = set(), list(f.succs(b))
    if not todo:
        return False
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        els = f.blocks[x]["e"]
        if any(e in good for e in els):
            continue
        if x == f.exit or any(f.n[e]["k"] == "throw" for e in els):
            return False
        todo += f.succs(x)
    return True


def raw_exit(L, c):
    out = set()
    for i, n in enumerate(c.n):
        if n["k"] == "call":
            for what, ps in L.effect(c, i, n):
                if what == "acq":
                    out |= set(ps)
    return out & set(L.analyse(c)[1])


def rel_nodes(L, d):
    return {i for i, n in enumerate(d.n) if n["k"] == "call" and any(w == "rel" for w, _ in L.effect(d, i, n))}


def show(P, paths):
    nm = field_names(P)
    r = []
    for p in sorted(paths):
        r.append(".".join(nm.get(x[2:] if x.startswith("v:") else x, x.split("@")[-1]).rsplit("::", 1)[-1] for x in p))
    return ", ".join(r)
