"""No two locks are ever acquired in opposite orders."""
import os
from collections import defaultdict
import engine


def lockname(P, p):
    """a lock's class: the variable or field it is, not the instance"""
    u = p[-1]
    if u == "this":
        return None
    if u.startswith("v:"):
        u = u[2:]
        if u not in P.vars:
            return None
        return u
    if u.startswith("["):
        return lockname(P, p[:-1]) if len(p) > 1 else None
    return u


def acquisitions(P, L, f):
    """[(node, {lock names})] acquired directly by f"""
    out = []
    for i, n in enumerate(f.n):
        ps = []
        if n["k"] == "call":
            if L.summ.get(n.get("f")) and not L.is_prim(n.get("q", "")):
                # what the callee leaves locked (the callee's own body is followed as a call)
                pass
            for what, pp in L.effect(f, i, n):
                if what in ("acq", "gacq"):
                    ps += pp
        elif n["k"] == "decl":
            for d in n["d"]:
                if d.get("i") is not None:
                    g = L.guard_acquires(f, d["i"])
                    if g and g[0] == "held":
                        ps += [p for p in g[1] if p]
        elif n["k"] == "init" and f.kind == "ctor" and n.get("a"):
            g = L.guard_acquires(f, n["a"][0])
            if g and g[0] == "held":
                ps += [p for p in g[1] if p]
        names = {x for x in (lockname(P, p) for p in ps) if x}
        if names:
            out.append((i, names))
    return out


LEAFCLASSES = ("eckit::Exception", "eckit::Log", "eckit::Channel", "eckit::LogTarget", "eckit::ResourceBase",
               "eckit::Monitor", "eckit::CodeLocation", "eckit::Timer", "eckit::Progress", "eckit::Main")


def leaves(P):
    out = set()
    recs = set()
    for r in P.recs.values():
        if any(P.is_subclass(r, b) for b in LEAFCLASSES):
            recs.add(r["u"])
    for f in P.fns.values():
        if f.r.get("clsu") in recs or f.q.startswith("eckit::Assert") or f.q.startswith("eckit::handle_assert"):
            out.add(f.u)
    return out


def follow(P, n, opaque):
    if n["k"] == "call" and n.get("v") and n.get("cls") in opaque:
        return ()
    return P.targets(n)


def graph(P, L):
    acq = {}
    direct = defaultdict(set)
    for f in P.fns.values():
        if f.u in L.states or L.might_lock(f):
            if f.q.startswith(("std::", "eckit::AutoLock::", "eckit::AutoSharedLock::", "eckit::TimedAutoLock::")):
                continue
            a = acquisitions(P, L, f)
            if a:
                acq[f.u] = a
                for _, ns in a:
                    direct[f.u] |= ns
    # transitive acquisitions; reporting, logging and configuration lookup are leaves (their locks are the innermost)
    leaf = leaves(P)
    calls = {}
    opaque = {r["t"] for r in P.recs.values() if any(P.is_subclass(r, b) for b in OPAQUE)}
    for f in P.fns.values():
        s = set()
        for n in f.n:
            if n["k"] in ("call", "ctor", "dtor") and n.get("f"):
                for t in follow(P, n, opaque):
                    if t in P.fns and t not in leaf:
                        s.add(t)
        calls[f.u] = s
    rev = defaultdict(set)
    for u, s in calls.items():
        for t in s:
            rev[t].add(u)
    trans = {u: set(s) for u, s in direct.items()}
    todo = list(trans)
    while todo:
        t = todo.pop()
        for u in rev[t]:
            x = trans.setdefault(u, set())
            if not trans[t] <= x:
                x |= trans[t]
                todo.append(u)
    edges = {}
    for u, st in L.states.items():
        f = P.fns[u]
        if f.q.startswith("std::"):
            continue
        here = {i: ns for i, ns in acq.get(u, ())}
        for i, b in st.items():
            if not b and not L.entry.get(u):
                continue
            held = {lockname(P, x[0]) for x in b} | {lockname(P, p) for p in L.entry.get(u, ())}
            held.discard(None)
            if not held:
                continue
            new = set(here.get(i, ()))
            via = None
            n = f.n[i]
            if n["k"] in ("call", "ctor", "dtor") and n.get("f"):
                for t in follow(P, n, opaque):
                    tt = trans.get(t) if t not in leaf else None
                    if tt:
                        new |= tt
                        via = n.get("q")
            for h in held:
                for x in new:
                    if h != x:
                        edges.setdefault((h, x), []).append((f, i, via))
    return edges, acq


def sccs(nodes, succ):
    idx, low, st, on, out = {}, {}, [], set(), []
    c = [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ.get(r, ())))]
        idx[r] = low[r] = c[0]; c[0] += 1
        st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]; c[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(succ.get(w, ()))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
    return out


# calls on objects handed in by the user run code of the user, not of the library
OPAQUE = ("eckit::Stream", "eckit::DataHandle", "eckit::HttpStream")
# (first, then): cannot block each other
ORDERED = {
    ("eckit::OnePayload<Payload>.cond_", "eckit::Pipe<Payload>.mutex_"): "receive() takes them the other way round on a slot the producer has "
    "already left, with the pipe's own mutex innermost in message()",
    ("eckit::Pipe<Payload>.mutex_", "eckit::OnePayload<Payload>.cond_"): "see above",
}


def names_of(P):
    r = {}
    for rec in P.recs.values():
        for fd in rec["fields"]:
            r[fd["v"]] = rec["t"].replace("efacts_instances::", "") + "." + fd["n"]
    n = defaultdict(set)
    for u, v in P.vars.items():
        n[v["q"]].add(u)
    for u, v in P.vars.items():
        r.setdefault(u, v["q"] if len(n[v["q"]]) == 1 else "%s(%s)" % (v["q"], os.path.basename(v["file"])))
    return r


def run(P, ctx):
    L = engine.locks()
    ctx.rule("lock-order", "the graph 'lock B is acquired, possibly several calls deep, while lock A is held' has no cycle; "
             "calls are resolved through the class hierarchy, a lock is the variable or member it is")
    ctx.rule("no-self-deadlock", "no path re-acquires a non-recursive lock (a condition's mutex, std::mutex) that is held on "
             "the same object")
    edges, acq = graph(P, L)
    nm = names_of(P)
    byname = {}
    for (a, b), sites in edges.items():
        k = (nm.get(a, a), nm.get(b, b))
        byname.setdefault(k, []).extend(sites)
    succ = defaultdict(set)
    for a, b in byname:
        if a != b and (a, b) not in ORDERED:
            succ[a].add(b)
    nodes = sorted({x for k in byname for x in k})
    comp = {}
    for j, c in enumerate(sccs(nodes, succ)):
        for x in c:
            comp[x] = (j, len(c))
    for (a, b), sites in sorted(byname.items(), key=lambda kv: kv[0]):
        if a == b:
            continue
        f, i, via = sites[0]
        if comp[a][0] == comp[b][0] and comp[a][1] > 1 and (a, b) not in ORDERED:
            ctx.bad("lock-order", "%s->%s" % (a, b), "%s:%s" % (f.file, f.n[i].get("l")),
                    "%s acquires %s while holding %s%s, and elsewhere they are acquired the other way round" %
                    (f.q, b, a, " (through %s)" % via if via else ""))
        else:
            ctx.ok("lock-order", 1, "%s before %s (%s)" % (a, b, f.q))
    ctx.note("%d locks, %d ordered pairs" % (len(nodes), len(byname)))
    selfdead(P, L, ctx, acq, nm)
    ctx.floor("lock-order", 60)


def nonrecursive(P):
    r = set()
    for rec in P.recs.values():
        for fd in rec["fields"]:
            if fd["t"] in ("eckit::MutexCond", "std::mutex", "std::shared_mutex", "std::timed_mutex"):
                r.add(fd["v"])
    for u, v in P.vars.items():
        if v["t"] in ("eckit::MutexCond", "std::mutex", "std::shared_mutex", "std::timed_mutex"):
            r.add(u)
    return r


def selfdead(P, L, ctx, acq, nm):
    """direct calls on the same object with its non-recursive lock held"""
    nr = nonrecursive(P)
    own = {}
    for u, l in acq.items():
        f = P.fns[u]
        for i, n in enumerate(f.n):
            pass
        s = set()
        for i, ps in paths(P, L, f):
            for p in ps:
                if p[-1] in nr and (p[0] == "this" or p[0].startswith("v:")):
                    s.add(p)
        if s:
            own[u] = s
    # close over calls on this
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            for i, n in enumerate(f.n):
                if n["k"] == "call" and n.get("f") in own and not n.get("v"):
                    base = L.pf.path(f, n["o"]) if n.get("o") is not None else None
                    for p in own[n["f"]]:
                        q = (base + p[1:]) if p[0] == "this" and base else p if p[0].startswith("v:") and p[0][2:] in P.vars else None
                        if q and (q[0] == "this" or q[0][2:] in P.vars) and len(q) <= 4:
                            if q not in own.setdefault(f.u, set()):
                                own[f.u].add(q)
                                ch = True
    for f in P.fns.values():
        if not f.file.startswith("src/"):
            continue
        here = dict(paths(P, L, f)) if f.u in acq else {}
        for i, n in enumerate(f.n):
            want = set()
            if i in here:
                want |= {p for p in here[i] if p[-1] in nr}
            if n["k"] == "call" and n.get("f") in own and not n.get("v"):
                base = L.pf.path(f, n["o"]) if n.get("o") is not None else None
                for p in own[n["f"]]:
                    if p[0] == "this" and base:
                        want.add(base + p[1:])
                    elif p[0].startswith("v:") and p[0][2:] in P.vars:
                        want.add(p)
            if not want:
                continue
            h = L.held(f, i)
            if h is None:
                continue
            both = {p for p in want if p in h and not any(x.startswith("[") for x in p)}
            # what the site itself acquires is not held before it
            if both:
                p = sorted(both)[0]
                ctx.bad("no-self-deadlock", "%s:%s" % (nm.get(p[-1], p[-1]), f.q), "%s:%s" % (f.file, n.get("l")),
                        "%s acquires %s again, which it already holds and which is not recursive" % (f.q, nm.get(p[-1], p[-1])))
            else:
                ctx.ok("no-self-deadlock", 1)


def paths(P, L, f):
    out = []
    for i, n in enumerate(f.n):
        ps = []
        if n["k"] == "call":
            for what, pp in L.effect(f, i, n):
                if what in ("acq", "gacq"):
                    ps += pp
        elif n["k"] == "decl":
            for d in n["d"]:
                if d.get("i") is not None:
                    g = L.guard_acquires(f, d["i"])
                    if g and g[0] == "held":
                        ps += [p for p in g[1] if p]
        if ps:
            out.append((i, ps))
    return out
