"""Shared state is only touched with its lock held, and check-then-act happens in one critical section."""
from collections import defaultdict
import engine, shared
from shared import descr

CTORS = ("ctor", "dtor", "copyctor", "movector")


def entity_name(P, fr, ent):
    if ent[0] == "g":
        v = P.vars.get(ent[1])
        return v["q"] if v else None
    r, fd = fr[ent[1]]
    return r["q"] + "." + fd["n"]


def local_mutex_root(f, P, p):
    """a lock that lives on the stack of the function excludes nobody"""
    return p[0].startswith("v:") and len(p) == 1 and p[0][2:] not in P.vars and \
        any(n["k"] == "decl" and any(d.get("v") == p[0][2:] and not d.get("t", "").endswith(("&", "*")) for d in n["d"])
            for n in f.n)


def once_functions(P):
    """functions run through pthread_once / std::call_once, and what only they call"""
    once = set()
    for f in P.fns.values():
        for i, n in enumerate(f.n):
            if n["k"] == "call" and n.get("q") in ("pthread_once", "std::call_once"):
                for a in n.get("a", ()):
                    todo = [a]
                    while todo:
                        x = todo.pop()
                        m = f.n[x]
                        if m["k"] in ("fref", "lambda", "mfref") and m.get("f"):
                            once.add(m["f"])
                        if m["k"] in ("cast", "un", "narrow", "ctor"):
                            todo += [y for y in m.get("a", ()) if y >= 0]
    callers = P.callers()
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.u in once or not (f.r.get("internal") or f.r.get("acc") == 2):
                continue
            cs = callers.get(f.u, ())
            if cs and all(g.u in once for g, _ in cs):
                once.add(f.u)
                ch = True
    return once


def exempt_closure(P, base):
    """functions named, plus private/internal helpers only they call"""
    ex = {f.u for f in P.fns.values() if f.q in base}
    callers = P.callers()
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.u in ex or not (f.r.get("internal") or f.r.get("acc") == 2 or f.kind == "lambda"):
                continue
            cs = callers.get(f.u, ())
            if cs and all(g.u in ex for g, _ in cs):
                ex.add(f.u)
                ch = True
    return ex


def returned(f, i):
    """the access is itself (part of) a returned reference/pointer"""
    par = f.parents()
    rt = f.r.get("rt", "")
    if not rt.endswith(("&", "*")):
        return False
    cur = i
    if f.n[i].get("r"):
        return False
    for _ in range(6):
        ps = par.get(cur, ())
        nxt = None
        for p in ps:
            k = f.n[p]["k"]
            if k == "ret":
                return True
            if k in ("cast", "narrow", "cond") or (k == "un" and f.n[p].get("op") == "&"):
                nxt = p
        if nxt is None:
            return False
        cur = nxt
    return False


INTO = {"find", "begin", "end", "cbegin", "cend", "rbegin", "rend", "lower_bound", "upper_bound", "erase"}


def derived(a):
    """later uses of local variables that point into the datum accessed: references bound to it, iterators from it"""
    f = a.f
    par = f.parents()
    out = []
    todo = [(a.i, frozenset())]
    while todo:
        i, seen = todo.pop()
        got = set()
        cur, via = i, None
        for _ in range(8):
            nxt = None
            for p in par.get(cur, ()):
                m = f.n[p]
                k = m["k"]
                if k == "call" and m.get("o") == cur and via is None and \
                        m.get("q", "").rsplit("::", 1)[-1] in INTO and m.get("q", "").startswith("std::"):
                    via, nxt = "iter", p
                elif k == "call" and m.get("o") == cur and via == "iter" and m.get("q", "").endswith("::operator->"):
                    pass
                elif k in ("cast", "narrow") or (k == "ctor" and (m.get("copy") or m.get("move") or via == "iter")):
                    nxt = p
                elif k == "assign" and via == "iter" and m["a"][-1] == cur and f.n[m["a"][0]]["k"] == "ref":
                    got.add(f.n[m["a"][0]]["v"])
                elif k == "call" and via == "iter" and m.get("q", "").endswith("::operator=") and cur in m.get("a", ()) \
                        and m.get("o") is not None and m.get("o") >= 0 and f.n[m["o"]]["k"] == "ref":
                    got.add(f.n[m["o"]]["v"])
                elif k == "decl":
                    for d in m["d"]:
                        if d.get("i") == cur and (via == "iter" or d.get("t", "").endswith("&")) and d.get("vk") == "local":
                            got.add(d["v"])
            if nxt is None:
                break
            cur = nxt
        for v in got - seen:
            for j, n in enumerate(f.n):
                if n["k"] == "ref" and n.get("v") == v and j in f.reachable_nodes():
                    ps = [f.n[p] for p in par.get(j, ())]
                    if any(p["k"] == "assign" and p["a"][0] == j for p in ps) or \
                            any(p["k"] == "call" and p.get("o") == j and p.get("q", "").endswith("::operator=") for p in ps):
                        continue
                    out.append(j)
                    todo.append((j, seen | {v}))
    return set(out)


def run(P, ctx, table):
    L = engine.locks()
    ctx.rule("locked-access", "every access to the shared datum, outside the constructors and destructor of the object "
             "holding it, happens with one and the same lock certainly held (must-hold dataflow over all paths, "
             "interprocedural entry locksets for private functions)")
    ctx.rule("no-escape", "no accessible function returns a reference or pointer to the locked datum itself")
    ctx.rule("one-section", "a write does not rely on a test of the same datum made in an earlier, already closed "
             "critical section")
    acc, fr = shared.collect(P, L)
    once = once_functions(P)
    byname = defaultdict(list)
    for ent in acc:
        nm = entity_name(P, fr, ent)
        if nm in table:
            byname[nm].append(ent)
    found = 0
    for nm, opt in sorted(table.items()):
        ex = exempt_closure(P, set(opt.get("except", ())))
        exq = set(opt.get("except", ()))
        if nm not in byname:
            ctx.note("not present in this tree: " + nm)
        for ent in byname.get(nm, ()):
            live = []
            seen = set()
            for a in acc[ent]:
                f = a.f
                if f.u in once or f.u in ex or f.q in exq:
                    continue
                if ent[0] == "m":
                    if f.kind in CTORS and (a.path is None or a.path[0] == "this"):
                        continue
                    if a.path and a.path[0] == "this" and f.u in L.ctoronly and len(a.path) == 2:
                        continue
                    if f.kind in CTORS + ("method",) and f.r.get("implicit"):
                        continue
                    # an object still local to this function
                    if a.path and len(a.path) == 2 and local_object(P, f, a.path[0]):
                        continue
                h = L.held(f, a.i)
                if h is None:
                    continue
                h = {p for p in h if not local_mutex_root(f, P, p)}
                a.held = descr(a, h)
                live.append(a)
                for j in derived(a):
                    hj = L.held(f, j)
                    if hj is None or (f.u, j) in seen:
                        continue
                    seen.add((f.u, j))
                    b = shared.Access()
                    b.f, b.i, b.ent, b.path, b.kind = f, j, a.ent, a.path, "into"
                    b.held = descr(b, {p for p in hj if not local_mutex_root(f, P, p)})
                    live.append(b)
            if not live:
                continue
            found += 1
            cnt = defaultdict(int)
            for a in live:
                for d in a.held:
                    cnt[d] += 1
            best = max(cnt, key=lambda d: (cnt[d], d[0] != "any", d)) if cnt else None
            common = {d for d in cnt if cnt[d] == len(live)}
            ctx.ok("locked-access", len(live), "%s: %d accesses, lock %s" %
                   (nm, len(live), ".".join(x.split("@")[-1] for x in best[1:]) if best else "-"))
            if not common:
                for a in live:
                    if best is None or best not in a.held:
                        ctx.bad("locked-access", "%s:%s" % (nm, fq(P, a.f)), "%s:%s" % (a.f.file, a.f.n[a.i].get("l")),
                                "%s %s in %s without the lock its other accesses hold" %
                                ({"w": "write of", "r": "read of", "into": "use of a reference or iterator into"}.get(a.kind, "use of"), nm, a.f.q), counted=True)
            live = [a for a in live if a.kind != "into"]
            for a in live:
                if returned(a.f, a.i) and a.f.kind != "lambda":
                    if a.f.r.get("acc") == 2 or a.f.r.get("internal") or "(anon)" in a.f.q:
                        continue
                    if nm + ":" + a.f.q in opt.get("hands-out", ()):
                        continue
                    ctx.bad("no-escape", "%s:%s" % (nm, fq(P, a.f)), "%s:%s" % (a.f.file, a.f.n[a.i].get("l")),
                            "%s returns a reference to %s, which outlives the lock" % (a.f.q, nm))
                else:
                    ctx.ok("no-escape", 1)
            sections(P, L, ctx, nm, ent, live, opt)
    ctx.floor("locked-access", max(1, sum(o.get("n", 2) for o in table.values()) // 2))
    return found


def fq(P, f):
    """function name; a lambda is named after the function it is written in"""
    return f.q


def local_object(P, f, root):
    if not root.startswith("v:"):
        return False
    v = root[2:]
    for n in f.n:
        if n["k"] == "decl":
            for d in n["d"]:
                if d.get("v") == v:
                    return d.get("vk") == "local" and not d.get("t", "").endswith(("&", "*"))
    return False


def sections(P, L, ctx, nm, ent, live, opt):
    """check-then-act"""
    # per function: events
    ev = defaultdict(list)
    for a in live:
        st = L.states.get(a.f.u, {}).get(a.i, frozenset())
        sess = frozenset(x[2] for x in st if descr_one(a, x[0]) & a.held and x[2] != -1)
        ent_held = bool(L.entry.get(a.f.u))
        ev[a.f.u].append((a.i, a.kind, "entry" if not sess and ent_held else sess))
    # functions that open a section of their own on this datum
    summary = {}
    for u, es in ev.items():
        own = [e for e in es if e[2] != "entry"]
        if own:
            f = P.fns[u]
            kinds = set()
            for i, k, s in own:
                if k == "w" and any(k2 == "r" and s2 & s and f.dominates(i2, i) for i2, k2, s2 in own if s2 != "entry"):
                    kinds.add("cw")
                elif k == "w":
                    kinds.add("w")
                else:
                    kinds.add("r")
            summary[u] = kinds
    skip = set(opt.get("sections", ()))
    fns = set(ev)
    callers = P.callers()
    for u in summary:
        for g, i in callers.get(u, ()):
            fns.add(g.u)
    for u in fns:
        f = P.fns[u]
        if f.q in skip or f.kind in CTORS:
            continue
        evs = list(ev.get(u, ()))
        for i, n in enumerate(f.n):
            if n["k"] == "call" and n.get("f") in summary and n["f"] != u:
                st = L.states.get(u, {}).get(i, frozenset())
                h = L.held(f, i)
                if h is None:
                    continue
                # does the caller already hold the lock?  then the callee's section is nested in it
                callee = P.fns[n["f"]]
                inner = set()
                for x in L.states.get(callee.u, {}).values():
                    for p, hh, s in x:
                        inner.add(p[-1])
                # any one section of the caller enclosing both calls makes them atomic with respect to each other
                sess = frozenset(x[2] for x in st if x[2] != -1)
                if not sess:
                    if any(p[-1] in inner for p in h):
                        continue
                    sess = frozenset([("call", i)])
                for k in summary[n["f"]]:
                    evs.append((i, k, sess))
        for i, k, s in evs:
            if k != "w" or s == "entry":
                continue
            same = any(k2 in ("r", "cw") and s2 != "entry" and s2 & s and (f.dominates(i2, i) or i2 == i)
                       for i2, k2, s2 in evs)
            if same:
                ctx.ok("one-section", 1, "%s: test and write together in %s" % (nm, f.q))
                continue
            other = [i2 for i2, k2, s2 in evs if k2 == "r" and s2 != "entry" and not (s2 & s) and f.dominates(i2, i)]
            if other:
                ctx.bad("one-section", "%s:%s" % (nm, f.q), "%s:%s" % (f.file, f.n[i].get("l")),
                        "%s writes %s in one critical section after testing it in another (line %s)" %
                        (f.q, nm, f.n[other[0]].get("l")))
            else:
                ctx.ok("one-section", 1)


def descr_one(a, p):
    return descr(a, [p])
