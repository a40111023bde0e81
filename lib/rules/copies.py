"""Copying, moving, assigning, swapping and comparing treat the whole object."""
from collections import defaultdict
from rules.lockuse import subtree
from prog import kids

ALL = "*"


class Walk:
    """fields a function reads of, and certainly writes into, the objects it is given; calls inlined"""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.stack = []

    # -- fields of a class, bases included
    def fields(self, u):
        out = {}
        r = self.P.recs.get(u)
        if not r:
            return out
        for f in r["fields"]:
            out[f["v"]] = f
        for b in self.P.bases(r):
            br = self.P.recs.get(b.get("u"))
            if br:
                for f in br["fields"]:
                    out[f["v"]] = f
        return out

    # -- what an expression denotes: (root, field usr or None) or None
    def path(self, f, i, roots, depth=0):
        if i is None or i < 0 or depth > 25:
            return None
        n = f.n[i]
        k = n["k"]
        if k == "this":
            return (roots["this"], None) if "this" in roots else None
        if k == "ref":
            return (roots[n.get("v")], None) if n.get("v") in roots else None
        if k in ("cast", "narrow", "definit") or k == "un" and n["op"] in ("*", "&") or k == "other" and len(n.get("a", ())) == 1:
            return self.path(f, n["a"][0], roots, depth + 1)
        if k == "ctor" and len(n.get("a", ())) == 1 and (n.get("copy") or n.get("move")):
            return self.path(f, n["a"][0], roots, depth + 1)
        if k == "idx":
            p = self.path(f, n["a"][0], roots, depth + 1)
            return p if p and p[1] else None
        if k == "mem":
            p = self.path(f, n["b"], roots, depth + 1)
            if p is None:
                return None
            return p if p[1] else (p[0], n.get("v"))
        if k == "call":
            if n.get("q") in ("std::move", "std::forward", "std::addressof", "std::as_const") and n.get("a"):
                return self.path(f, n["a"][0], roots, depth + 1)
            if n.get("op") in ("->", "*") or n.get("op") == "[]":
                b = n.get("o", -1)
                if b is None or b < 0:
                    b = n["a"][0] if n.get("a") else -1
                p = self.path(f, b, roots, depth + 1)
                if p and p[1]:
                    return p
            g = self.P.fns.get(n.get("f"))
            if g is not None and not n.get("v") and not n.get("a"):
                r = self.roots_of_call(f, n, roots)
                if r:
                    rets = [x for _, x in g.nodes_of("ret")]
                    if len(rets) == 1 and rets[0].get("a"):
                        return self.path(g, rets[0]["a"][0], r, depth + 3)
        return None

    def roots_of_call(self, f, n, roots):
        """roots inside the callee"""
        r = {}
        o = n.get("o")
        if o is not None and o >= 0:
            p = self.path(f, o, roots)
            if p and p[1] is None:
                r["this"] = p[0]
        elif n["k"] == "ctor" and "ctor_of" in n:
            pass
        g = self.P.fns.get(n.get("f"))
        if g is not None:
            ps = g.r.get("p", ())
            args = n.get("a", ())
            for p, a in zip(ps, args):
                x = self.path(f, a, roots)
                if x and x[1] is None:
                    r[p["v"]] = x[0]
        return r

    # -- everything read in f of the roots: set of (root, field)
    def reads(self, f, roots, depth=0):
        key = (f.u, tuple(sorted(roots.items())))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        out = set()
        roots = self.extend(f, roots)
        for i, n in enumerate(f.n):
            out |= self.node_reads(f, i, n, roots, depth)
        self.memo[key] = out
        return out

    def extend(self, f, roots):
        """locals that are copies or references of a root"""
        roots = dict(roots)
        for _, n in f.nodes_of("decl"):
            for d in n["d"]:
                i = d.get("i")
                if isinstance(i, int) and i >= 0:
                    p = self.path(f, i, roots)
                    if p and p[1] is None and p[0]:
                        roots[d["v"]] = p[0]
        return roots

    def expr_reads(self, f, i, roots, depth=0):
        out = set()
        for x in subtree(f, i):
            out |= self.node_reads(f, x, f.n[x], roots, depth)
        return out

    def node_reads(self, f, i, n, roots, depth):
        out = set()
        k = n["k"]
        if k == "mem":
            p = self.path(f, i, roots)
            if p and p[1]:
                out.add(p)
        elif k in ("call", "ctor"):
            passed = []
            o = n.get("o")
            for j, a in enumerate(([o] if o is not None and o >= 0 else []) + list(n.get("a", ()))):
                p = self.path(f, a, roots)
                if p and p[1] is None:
                    passed.append(p[0])
            if passed:
                ts = self.P.targets(n) if k == "call" else [n.get("f")]
                known = False
                for u in ts:
                    g = self.P.fns.get(u)
                    if g is None:
                        continue
                    r = self.roots_of_call(f, n, roots)
                    if r and depth < 8:
                        out |= self.reads(g, r, depth + 1)
                        known = True
                if not known and n.get("q") not in ("std::move", "std::forward", "std::addressof"):
                    for x in passed:
                        cu = self.callee_class(n)
                        if cu and cu in self.P.recs:
                            for v in self.fields(cu):
                                out.add((x, v))
                        else:
                            out.add((x, ALL))
        elif k == "lambda":
            g = self.P.fns.get(n.get("f"))
            if g is not None and depth < 8:
                out |= self.reads(g, {**{v: r for v, r in roots.items()}}, depth + 1)
        return out

    def callee_class(self, n):
        """class whose (compiler-provided) copy operation this is"""
        cu = n.get("clsu")
        if cu:
            return cu
        r = self.P.rec_by_t.get(n.get("t", "").replace("const ", "").replace("&", "").strip())
        return r["u"] if r else None

    # -- fields of root `a` certainly written at the normal exits of f
    def writes(self, f, roots, a="A", depth=0):
        key = (f.u, tuple(sorted(roots.items())), a, "w")
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        roots = self.extend(f, roots)
        TOP = None
        instate = {f.entry: frozenset()}
        work = [f.entry]
        outexit = TOP
        it = 0
        while work and it < 4000:
            it += 1
            b = work.pop()
            s = set(instate[b])
            blk = f.blocks[b]
            dead = False
            for e in blk["e"]:
                s |= self.gen(f, e, roots, a, depth)
                n = f.n[e]
                if n["k"] == "throw" or n["k"] == "call" and n.get("q") in ("eckit::Assert", "eckit::Panic"):
                    dead = True
            if dead or blk.get("nr"):
                continue
            succ = blk["s"]
            if b == f.exit or not [x for x in succ if x >= 0]:
                outexit = s if outexit is TOP else meet(outexit, s)
                continue
            for idx, t in enumerate(succ):
                if t < 0 or t not in f.blocks:
                    continue
                ns = frozenset(s)
                tt = blk.get("t")
                if tt and len(succ) == 2 and tt.get("c") is not None and tt["c"] >= 0:
                    eq = self.equal_branch(f, tt["c"], roots)
                    if eq and eq[0] == (idx == 0):
                        if eq[1] is None:
                            continue        # the object itself
                        ns = ns | {eq[1]}
                old = instate.get(t)
                new = ns if old is None else meet(old, ns)
                if new != old:
                    instate[t] = new
                    work.append(t)
        self.memo[key] = set(outexit) if outexit is not TOP else {ALL}
        return self.memo[key]

    def equal_branch(self, f, c, roots):
        """(truth value on which both sides are known equal, field or None for the objects themselves)"""
        n = f.n[c]
        pol = True
        while n["k"] in ("cast", "narrow") or n["k"] == "un" and n["op"] == "!":
            if n["k"] == "un":
                pol = not pol
            c = n["a"][0]
            n = f.n[c]
        if n["k"] == "call" and n.get("q", "").endswith("::empty") and f.kind == "copyctor" and n.get("o", -1) >= 0:
            p = self.path(f, n["o"], roots)      # the other object has nothing to copy
            return (pol, ALL) if p and p[0] == "B" and p[1] is None else None
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            x, y = n["a"]
        elif n["k"] == "call" and n.get("op") in ("==", "!="):
            ops = ([n["o"]] if n.get("o", -1) is not None and n.get("o", -1) >= 0 else []) + list(n.get("a", ()))
            if len(ops) != 2:
                return None
            x, y = ops
        else:
            return None
        p, q = self.path(f, x, roots), self.path(f, y, roots)
        if p and q and p[0] != q[0] and p[1] == q[1]:
            op = n.get("op")
            return (pol == (op == "=="), p[1])
        return None

    def gen(self, f, e, roots, a, depth):
        n = f.n[e]
        k = n["k"]
        out = set()
        if k == "init":
            if n.get("base") or n.get("deleg"):
                i = n["a"][0] if n.get("a") else n.get("i", -1)
                if i is not None and i >= 0:
                    c = f.n[i]
                    while c["k"] in ("cast", "definit") or c["k"] == "other" and c.get("a"):
                        i = c["a"][0]
                        c = f.n[i]
                    if c["k"] == "ctor":
                        g = self.P.fns.get(c.get("f"))
                        passed = [self.path(f, x, roots) for x in c.get("a", ())]
                        if g is not None and roots.get("this") == a and depth < 8:
                            r = self.roots_of_call(f, c, roots)
                            r["this"] = a
                            out |= self.writes(g, r, a, depth + 1)
                        elif roots.get("this") == a and any(p and p[1] is None and p[0] != a for p in passed):
                            cu = self.callee_class(c)
                            out |= set(self.fields(cu)) if cu else set()
                        elif roots.get("this") == a and c.get("a"):
                            cu = self.callee_class(c)
                            out |= set(self.fields(cu)) if cu else set()
            elif roots.get("this") == a and (n.get("w") or f.r.get("implicit") or n.get("a") and f.n[n["a"][0]]["k"] == "definit"):
                out.add(n.get("v"))
        elif k == "assign" or k == "un" and n["op"] in ("++", "--"):
            p = self.path(f, n["a"][0], roots)
            if p and p[0] == a and p[1]:
                out.add(p[1])
        elif k == "call":
            o = n.get("o")
            passed = []
            if o is not None and o >= 0:
                p = self.path(f, o, roots)
                if p and p[0] == a and p[1] and not n.get("mc"):
                    out.add(p[1])
                if p and p[1] is None:
                    passed.append(p)
            for j, x in enumerate(n.get("a", ())):
                p = self.path(f, x, roots)
                m = n.get("pm", "")
                mode = m[j] if j < len(m) else "r"
                if p and p[0] == a and p[1] and mode in ("r", "p"):
                    out.add(p[1])
                if p and p[1] is None:
                    passed.append(p)
            if n.get("q") in ("memset", "std::memset") and passed and passed[0][0] == a:
                out.add(ALL)
            if any(p[0] == a for p in passed):
                g = self.P.fns.get(n.get("f"))
                if g is not None and not n.get("v") and depth < 8:
                    r = self.roots_of_call(f, n, roots)
                    if a in r.values():
                        out |= self.writes(g, r, a, depth + 1)
                elif g is None and any(p[0] != a for p in passed):
                    cu = self.callee_class(n)
                    out |= set(self.fields(cu)) if cu in self.P.recs else {ALL}
        return out


class Cmp:
    """evaluates comparison functions over the outcomes (-1, 0, 1) of comparing the two objects field by field"""

    def __init__(self, P, W):
        self.P, self.W = P, W
        self.crossed = {}
        self.used = set()

    def key(self, f, i, roots, env, depth=0):
        """(root, field, derivation) of an operand"""
        if i is None or i < 0 or depth > 25:
            return None
        n = f.n[i]
        k = n["k"]
        p = self.W.path(f, i, roots)
        if p:
            return (p[0], p[1], "")
        if k in ("cast", "narrow", "definit") or k == "other" and len(n.get("a", ())) == 1:
            return self.key(f, n["a"][0], roots, env, depth + 1)
        if k == "un" and n["op"] in ("*", "&", "-", "+"):
            x = self.key(f, n["a"][0], roots, env, depth + 1)
            return x and (x[0], x[1], x[2] + n["op"])
        if k == "ref" and n.get("v") in env:
            return env[n["v"]]
        if k == "call" and n.get("q") in ("std::tie", "std::make_tuple", "std::make_pair", "std::forward_as_tuple") or \
                k == "ctor" and (n.get("cls") or "").startswith(("std::tuple<", "std::pair<")) and len(n.get("a", ())) > 1:
            parts = [self.key(f, a, roots, env, depth + 1) for a in n["a"]]
            if all(x and x[0] in "AB" and len(x) == 3 for x in parts) and len({x[0] for x in parts}) == 1:
                return (parts[0][0], tuple((x[1], x[2]) for x in parts), "tuple")
            return None
        if k in ("call", "ctor", "idx"):
            ops = list(n.get("a", ()))
            o = n.get("o")
            if o is not None and o >= 0:
                ops = [o] + ops
            ks = [self.key(f, a, roots, env, depth + 1) for a in ops]
            rk = [x for x in ks if x]
            rest = [a for a, x in zip(ops, ks) if not x]
            consts = all(f.n[a].get("c") is not None or f.n[a]["k"] in ("defarg", "str") for a in rest)
            if rk and len({x[0] for x in rk}) == 1 and (consts or len(rk) == len(ops)):
                name = n.get("q") or k
                if len(rk) == 1 and rk[0][1] is not None:
                    return (rk[0][0], rk[0][1], rk[0][2] + "." + name)
                if all(isinstance(x[1], str) for x in rk):
                    return (rk[0][0], tuple((x[1], x[2]) for x in rk), "." + name)
                if len(rk) == 1 and rk[0][1] is None:      # a method of the whole object
                    rd = set()
                    for u in self.P.targets(n) if k == "call" else [n.get("f")]:
                        g = self.P.fns.get(u)
                        if g is None:
                            return None
                        rd |= self.W.reads(g, self.W.roots_of_call(f, n, roots))
                    fs = tuple(sorted((x[1], "?") for x in rd if x[0] == rk[0][0]))
                    return (rk[0][0], fs, "." + name)
        return None

    def sign(self, a, b, out):
        """comparison of two keys: -1, 0, 1 or None"""
        if not a or not b or a[0] == b[0] or a[0] not in "AB" or b[0] not in "AB":
            return None
        flip = 1 if a[0] == "A" else -1
        if a[1] is None and b[1] is None:
            return None
        if isinstance(a[1], tuple) and isinstance(b[1], tuple):
            if a[2] != b[2] or a[1] != b[1]:
                if len(a[1]) == len(b[1]) and a[2] == b[2] == "tuple":
                    for x, y in zip(a[1], b[1]):
                        if x[0] != y[0]:
                            self.crossed[(x[0], y[0])] = 1
                return None
            for x, d in a[1]:
                self.used.add(x)
                s = out.get(x, 0)
                if s:
                    return s * flip if a[2] == "tuple" and not d else None
            return 0
        if isinstance(a[1], tuple) or isinstance(b[1], tuple):
            return None
        if a[1] != b[1]:
            if a[1] and b[1] and a[2] == b[2] == "":
                self.crossed[(a[1], b[1])] = 1
            return None
        self.used.add(a[1])
        s = out.get(a[1], 0)
        if a[2] != b[2]:
            return None
        if s == 0:
            return 0
        return s * flip if a[2] == "" else None

    def val(self, f, i, roots, out, env, depth=0):
        """True/False/sign (int)/None"""
        if i is None or i < 0 or depth > 40:
            return None
        n = f.n[i]
        k = n["k"]
        if k in ("cast", "narrow", "definit") or k == "other" and len(n.get("a", ())) == 1:
            return self.val(f, n["a"][0], roots, out, env, depth + 1)
        if n.get("c") is not None and k not in ("ref", "mem"):
            try:
                return int(n["c"])
            except ValueError:
                return None
        if k == "ref":
            return env.get(("val", n.get("v")))
        if k == "un" and n["op"] == "!":
            v = self.val(f, n["a"][0], roots, out, env, depth + 1)
            return None if v is None else int(not v)
        if k == "un" and n["op"] == "-":
            v = self.val(f, n["a"][0], roots, out, env, depth + 1)
            return None if v is None else -v
        if k == "cond":
            c = self.val(f, n["a"][0], roots, out, env, depth + 1)
            if c is None:
                return None
            return self.val(f, n["a"][1 if c else 2], roots, out, env, depth + 1)
        op, x, y = None, None, None
        if k == "bin":
            op = n["op"]
            if op in ("&&", "||"):
                a = self.val(f, n["a"][0], roots, out, env, depth + 1)
                b = self.val(f, n["a"][1], roots, out, env, depth + 1)
                if op == "&&":
                    return 0 if a == 0 or b == 0 else (None if a is None or b is None else 1)
                return 1 if (a is not None and a) or (b is not None and b) else (None if a is None or b is None else 0)
            if op == ",":
                return self.val(f, n["a"][1], roots, out, env, depth + 1)
            x, y = n["a"]
        elif k == "call":
            ops = list(n.get("a", ()))
            o = n.get("o")
            if o is not None and o >= 0:
                ops = [o] + ops
            if n.get("op") in ("==", "!=", "<", ">", "<=", ">=") and len(ops) == 2:
                op = n["op"]
                x, y = ops
            else:
                op = None
        if op in ("==", "!=", "<", ">", "<=", ">="):
            a, b = self.key(f, x, roots, env), self.key(f, y, roots, env)
            if a and b and a[1] is None and b[1] is None and a[0] != b[0]:
                if k == "bin":
                    return {"==": 0, "!=": 1}.get(op)        # addresses of different objects
                return self.call(f, n, roots, out, depth)
            s = self.sign(a, b, out)
            if s is None:
                va, vb = self.val(f, x, roots, out, env, depth + 1), self.val(f, y, roots, out, env, depth + 1)
                if va is None or vb is None:
                    return None
                s = (va > vb) - (va < vb)
            return int({"==": s == 0, "!=": s != 0, "<": s < 0, ">": s > 0, "<=": s <= 0, ">=": s >= 0}[op])
        if k == "bin" and op == "-":
            a, b = self.key(f, x, roots, env), self.key(f, y, roots, env)
            return self.sign(a, b, out)
        if k == "call":
            name = (n.get("q") or "").rsplit("::", 1)[-1]
            ks = [self.key(f, z, roots, env) for z in ops]
            if len(ops) >= 2 and ks[0] and ks[1] and ks[0][1] and ks[1][1]:
                s = self.sign(ks[0], ks[1], out)
                if name in ("compare", "strcmp", "memcmp", "strncmp", "uuid_compare"):
                    return s
                if "equal" in name or "same" in name:
                    return None if s is None else int(s == 0)
                return None
            return self.call(f, n, roots, out, depth)
        return None

    def call(self, f, n, roots, out, depth):
        if depth > 30:
            return None
        ts = self.P.targets(n)
        if len(ts) != 1:
            return None
        g = self.P.fns.get(ts[0])
        if g is None:
            return None
        r = self.W.roots_of_call(f, n, roots)
        if len(set(r.values())) < 2:
            return None
        vs = self.run(g, r, out, depth + 6)
        return vs.pop() if len(vs) == 1 else None

    def run(self, f, roots, out, depth=0):
        """the set of values f may return (None: unknown)"""
        if depth > 30:
            return {None}
        res = set()
        work = [(f.entry, {}, frozenset())]
        steps = 0
        while work:
            b, env, seen = work.pop()
            steps += 1
            if steps > 400:
                return {None}
            blk = f.blocks[b]
            env = dict(env)
            done = False
            for e in blk["e"]:
                n = f.n[e]
                if n["k"] == "decl":
                    for d in n["d"]:
                        if isinstance(d.get("i"), int) and d["i"] >= 0:
                            kk = self.key(f, d["i"], roots, env)
                            if kk:
                                env[d["v"]] = kk
                            v = self.val(f, d["i"], roots, out, env)
                            if v is not None:
                                env[("val", d["v"])] = v
                elif n["k"] == "assign" and f.n[n["a"][0]]["k"] == "ref":
                    v = f.n[n["a"][0]].get("v")
                    env.pop(v, None)
                    env.pop(("val", v), None)
                    x = self.val(f, n["a"][1], roots, out, env) if n["op"] == "=" else None
                    if x is not None:
                        env[("val", v)] = x
                elif n["k"] == "un" and n["op"] in ("++", "--") and f.n[n["a"][0]]["k"] == "ref":
                    env.pop(f.n[n["a"][0]].get("v"), None)
                    env.pop(("val", f.n[n["a"][0]].get("v")), None)
                elif n["k"] == "ret":
                    res.add(self.val(f, n["a"][0], roots, out, env) if n.get("a") else None)
                    done = True
                elif n["k"] == "throw" or n["k"] == "call" and n.get("q") in ("eckit::Assert", "eckit::Panic"):
                    done = True
            if done or blk.get("nr"):
                continue
            succ = [x for x in blk["s"]]
            t = blk.get("t")
            if t and len(succ) == 2 and t.get("c") is not None and t["c"] >= 0:
                c = t["c"]
                while f.n[c]["k"] == "bin" and f.n[c]["op"] in ("&&", "||"):
                    c = f.n[c]["a"][1] if t["k"] != "BinaryOperator" else f.n[c]["a"][1]
                v = self.val(f, c, roots, out, env)
                if v is None and b in seen:
                    res.add(None)
                    continue
                for idx, s in enumerate(succ):
                    if s >= 0 and (v is None or bool(v) == (idx == 0)):
                        work.append((s, env, seen | {b} if v is None else seen))
            else:
                for s in succ:
                    if s >= 0 and s in f.blocks:
                        work.append((s, env, seen))
        return {None if v is None else v for v in res}


# fields that are no part of what is copied: (class, field) or (class, *) -> reason
K = "eckit::"
NOT_VALUE = {}
for _c, _fs, _why in (
        ("KDMapped", "readonly_", "a copy maps the file again, for reading"),
        ("KDMemory", "*", ""), ("KDMapped", "calls_ crossOvers_ depth_ newCandidateMiss_ newCandidateOK_ nodes_", "statistics"),
        ("BufferCache", "updated_", "time of the last change"),
        ("net::MultiSocket", "*", "takes the sockets over, the rest belongs to the listening side"),
        ("net::TCPSocket", "debug_ receiveBufferSize_ sendBufferSize_", "settings, used before connecting"),
        ("sql::SQLColumn", "current_ iterator_ iterators_ last_ noRows_ position_ rows_", "state of an iteration, a copy starts afresh"),
        ("message::Message", "decoder_", "a fresh decoder"),
        ("Regex", "re_", "compiled again"),
        ("Content", "mutex_ count_", "reference counting"), ("DenseSet", "sorted_", "whether the values are in order is seen from them"),
):
    for _f in _fs.split():
        NOT_VALUE[(K + _c, _f)] = _why
# copies own their storage; moves and swaps carry the flag
OWNING = {(K + _c, _f): 1 for _c, _f in (("linalg::Tensor", "own_"), ("linalg::Matrix", "own_"), ("linalg::Vector", "own_"), ("linalg::SparseMatrix", "owner_"))}
# fields computed from others: must be set, need not be read
DERIVED = {}
for _c, _fs in (("linalg::Tensor", "size_ strides_"), ("sql::expression::function::FunctionNOT_IN", "size_"), ("sql::expression::function::FunctionIN", "size_"),
                ("sql::expression::function::FunctionMATCH", "size_")):
    for _f in _fs.split():
        DERIVED[(K + _c, _f)] = 1
# classes compared by a key: the fields outside it
COMPARE_KEY = {}
for _c, _fs, _why in (
        ("BTree::NodeEntry", "page_", "ordered by key"),
        ("FamListIterator", "buffer_", "cursor"), ("FamMapIterator", "list_ map_", "cursor"), ("FamObject", "session_", "the object's descriptor"),
        ("FamSession", "fam_ lastAccess_", "by name"), ("geo::iterator::Reduced", "*", "position"), ("geo::iterator::Regular", "*", "position"),
        ("geo::iterator::Unstructured", "*", "position"), ("linalg::SparseMatrix::const_iterator", "row_", "follows from the index"),
        ("spec::Custom", "*", "case-insensitive map of values, compared by its text"),
):
    for _f in _fs.split():
        COMPARE_KEY[(K + _c, _f)] = _why


def meet(a, b):
    return b | (a if ALL in b else frozenset()) if ALL in a else a if ALL in b else a & b


def own(f):
    return f.file.startswith("src/") and "/contrib/" not in f.file and not f.r.get("implicit")


def excluded(r, fld, table):
    q = r["q"]
    return any((x, y) in table for x in {q, fld["v"].split("@FI@")[0] and owner_of(fld, q)} for y in (fld["n"], ALL))


def owner_of(fld, q):
    """the class a field was declared in, from its usr"""
    u = fld["v"].split("@FI@")[0]
    parts = [x for x in u.replace("c:", "", 1).split("@")]
    names = [parts[i + 1].split(">")[0] for i in range(len(parts) - 1) if parts[i] in ("N", "S", "ST", "SP")]
    return "::".join(names)


def run(P, ctx):
    W = Walk(P)
    ctx.rule("copied", "a copying, moving or assigning function gives every field of the object its value from the field of that name of the other object, on every path")
    ctx.rule("swapped", "a member swap exchanges every field")
    ctx.rule("compared", "equality is decided by all fields, each against its own; orders are strict; the operators agree")
    seen = set()
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if not own(f) or f.kind not in ("copyctor", "movector", "copyassign", "moveassign") and not (f.name == "swap" and f.cls):
            continue
        r = P.recs.get(f.r.get("clsu"))
        ps = f.r.get("p", ())
        if not r or len(ps) < 1:
            continue
        pt = ps[0]["t"].replace("const ", "").replace("&", "").strip()
        if f.name == "swap" and (len(ps) != 1 or P.rec_by_t.get(pt) is not r):
            continue
        roots = {"this": "A", ps[0]["v"]: "B"}
        fields = W.fields(r["u"])
        copy_like(P, ctx, W, f, r, roots, fields)
    compare_like(P, ctx, W)
    variants(P, ctx, W)
    owners(P, ctx, W)
    emptied(P, ctx, W)


def variants(P, ctx, W):
    """constructors that make an object of another one of its class and of something else"""
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if not own(f) or f.kind != "ctor" or len(f.r.get("p", ())) < 2:
            continue
        r = P.recs.get(f.r.get("clsu"))
        mine = [p for p in f.r["p"] if r and p["t"] in ("const %s &" % r["t"], "%s &" % r["t"], "%s &&" % r["t"])]
        if len(mine) != 1:
            continue
        roots = {"this": "A", mine[0]["v"]: "B"}
        fields = {v: fl for v, fl in W.fields(r["u"]).items() if not excluded(r, fl, NOT_VALUE) and not excluded(r, fl, DERIVED)}
        others = {p["v"] for p in f.r["p"]} - {mine[0]["v"]}
        rB = {x[1] for x in W.reads(f, roots) if x[0] == "B"}
        given = {n.get("v") for i, n in enumerate(f.n) if n["k"] == "init" and n.get("a") and any(f.n[j].get("v") in others for j in subtree(f, n["a"][0]))}
        given |= {f.n[n["a"][0]].get("v") for n in f.n if n["k"] == "assign" and any(f.n[j].get("v") in others for j in subtree(f, n["a"][1]))}
        if ALL in rB or 2 * len(rB & set(fields)) < len(fields):
            continue
        for v, fl in sorted(fields.items()):
            if v in rB or v in given:
                ctx.ok("copied", sample="%s: %s" % (f.q, fl["n"]))
            else:
                ctx.bad("copied", "%s(%d):%s" % (f.q, len(f.r["p"]), fl["n"]), "%s:%d" % (f.file, f.line),
                        "%s takes field %s neither from the object it copies nor from its other arguments" % (f.q, fl["n"]))


def label(P, fields, v):
    return fields[v]["n"] if v in fields else v


def copy_like(P, ctx, W, f, r, roots, fields):
    swap = f.name == "swap"
    rule = "swapped" if swap else "copied"
    ws = W.writes(f, roots, "A")
    rd = W.reads(f, roots)
    rB = {x[1] for x in rd if x[0] == "B"}
    wb = W.writes(f, roots, "B") if swap else None
    for v, fld in sorted(fields.items()):
        name = "%s:%s" % (f.q, fld["n"])
        if excluded(r, fld, NOT_VALUE) or f.kind.startswith("copy") and excluded(r, fld, OWNING):
            continue
        if v not in ws and ALL not in ws and not (f.kind == "copyassign" and excluded(r, fld, DERIVED)):
            ctx.bad(rule, name, "%s:%d" % (f.file, f.line), "%s (%s) does not set field %s on every path" % (f.q, f.kind, fld["n"]))
        elif v not in rB and ALL not in rB and not excluded(r, fld, DERIVED):
            ctx.bad(rule, name, "%s:%d" % (f.file, f.line), "%s (%s) does not take field %s from the other object" % (f.q, f.kind, fld["n"]))
        elif swap and v not in wb and ALL not in wb:
            ctx.bad(rule, name, "%s:%d" % (f.file, f.line), "%s does not set field %s of the other object" % (f.q, fld["n"]))
        else:
            ctx.ok(rule, sample="%s: %s" % (f.q, fld["n"]))
    # a field taken from another field
    for i, n in enumerate(f.n):
        tgt = src = None
        if n["k"] == "init" and n.get("v") in fields and (n.get("a") or n.get("i")):
            tgt, src = n["v"], n["a"][0] if n.get("a") else n["i"]
        elif n["k"] == "assign" and n["op"] == "=":
            p = W.path(f, n["a"][0], roots)
            if p and p[0] == "A" and p[1]:
                tgt, src = p[1], n["a"][1]
        elif n["k"] == "call" and n.get("op") == "=" and n.get("o", -1) is not None and n.get("o", -1) >= 0 and n.get("a"):
            p = W.path(f, n["o"], roots)
            if p and p[0] == "A" and p[1]:
                tgt, src = p[1], n["a"][0]
        elif n["k"] == "call" and (n.get("q") or "").rsplit("::", 1)[-1] == "swap":
            ops = ([n["o"]] if n.get("o") is not None and n.get("o", -1) >= 0 else []) + list(n.get("a", ()))
            if len(ops) == 2:
                p = W.path(f, ops[0], roots)
                if p and p[1]:
                    tgt, src = p[1], ops[1]
        if tgt:
            p = W.path(f, src, roots)
            if p and p[1] and p[1] != tgt and tgt in fields and not excluded(r, fields[tgt], NOT_VALUE):
                ctx.bad(rule, "%s:%s<-%s" % (f.q, label(P, fields, tgt), label(P, fields, p[1])), f.loc(i),
                        "%s sets field %s from field %s" % (f.q, label(P, fields, tgt), label(P, fields, p[1])))


# assignments that keep the storage they have
REUSED = {}
RELEASE = {"free": 0, "close": 0, "fclose": 0, "munmap": 0, "closedir": 0, "regfree": 0, "shmdt": 0, "pclose": 0, "dlclose": 0}


def released(P, W, fs):
    """fields the functions fs (calls inlined) delete, free or close: usr -> how"""
    out = {}
    seen = set()

    def walk(g, depth):
        if g.u in seen or depth > 4:
            return
        seen.add(g.u)
        roots = {"this": "A"}
        alias = {}
        for _, n in g.nodes_of("decl"):
            for d in n["d"]:
                if isinstance(d.get("i"), int) and d["i"] >= 0:
                    p = W.path(g, d["i"], roots)
                    if p and p[1]:
                        alias[d["v"]] = p

        def what(i):
            j = i
            while g.n[j]["k"] in ("cast", "narrow", "definit"):
                j = g.n[j]["a"][0]
            return W.path(g, i, roots) or alias.get(g.n[j].get("v") if g.n[j]["k"] == "ref" else None)
        for i, n in enumerate(g.n):
            if n["k"] == "delete":
                p = what(n["a"][0])
                if p and p[1]:
                    out.setdefault(p[1], "delete[]" if n.get("arr") else "delete")
            elif n["k"] == "call":
                q = (n.get("q") or "").lstrip(":")
                if q in RELEASE and n.get("a"):
                    p = what(n["a"][0])
                    if p and p[1]:
                        out.setdefault(p[1], q)
                else:
                    h = P.fns.get(n.get("f"))
                    for a, pr in zip(n.get("a", ()), h.r.get("p", ()) if h else ()):
                        p = what(a)
                        if p and p[1] and frees_param(P, h, pr["v"]):
                            out.setdefault(p[1], q.rsplit("::", 1)[-1])
                if q.endswith("::detach") and n.get("o", -1) >= 0:
                    p = what(n["o"])
                    if p and p[1]:
                        out.setdefault(p[1], "detach")
                o = n.get("o")
                if o is not None and o >= 0 and g.n[o]["k"] in ("this", "cast") and W.path(g, o, roots) == ("A", None):
                    h = P.fns.get(n.get("f"))
                    if h is not None:
                        walk(h, depth + 1)
    for d in fs:
        walk(d, 0)
    return out


def frees_param(P, h, v):
    """the function deletes or frees what its parameter points to"""
    for i, n in enumerate(h.n):
        if n["k"] == "delete" or n["k"] == "call" and (n.get("q") or "") in ("free", "fclose", "munmap"):
            j = n["a"][0]
            while h.n[j]["k"] in ("cast", "narrow", "definit"):
                j = h.n[j]["a"][0]
            if h.n[j]["k"] == "ref" and h.n[j].get("v") == v:
                return True
    return False


def swapped_out(W, f, v, depth=0):
    """the field changes sides in a swap, or the whole object does"""
    for i, n in enumerate(f.n):
        if n["k"] == "call" and (n.get("q") or "").rsplit("::", 1)[-1] in ("swap", "exchange"):
            ops = ([n["o"]] if n.get("o") is not None and n.get("o", -1) >= 0 else []) + list(n.get("a", ()))
            for x in ops:
                p = W.path(f, x, {"this": "A"})
                if p and p[1] in (None, v):
                    return True
        elif n["k"] == "call" and depth < 3 and n.get("o", -1) is not None and n.get("o", -1) >= 0 and W.path(f, n["o"], {"this": "A"}) == ("A", None):
            g = W.P.fns.get(n.get("f"))
            if g is not None and swapped_out(W, g, v, depth + 1):
                return True
    return False


_dt = {}


def by_class_dtor(P):
    if not _dt:
        for f in P.fns.values():
            if f.kind == "dtor":
                _dt.setdefault(f.r.get("clsu"), []).append(f)
    return _dt


def owners(P, ctx, W):
    ctx.rule("owner", "a class whose destructor releases what a field holds is not copied field by field, and what it is moved from lets go of it")
    fns = defaultdict(dict)
    for f in P.fns.values():
        if f.kind in ("copyctor", "copyassign", "movector", "moveassign"):
            fns[f.r.get("clsu")][f.kind] = f
    for r in sorted(P.recs.values(), key=lambda r: r["q"]):
        if not r["file"].startswith("src/") or "/contrib/" in r["file"]:
            continue
        own_fields = {f["v"]: f for f in r["fields"]}
        rel = {v: how for v, how in released(P, W, by_class_dtor(P).get(r["u"], ())).items() if v in own_fields and not own_fields[v]["t"].startswith(("std::unique_ptr", "std::shared_ptr"))}
        if not rel:
            continue
        sp = r["sp"]
        for v, how in sorted(rel.items()):
            name = own_fields[v]["n"]
            for kind, user, deleted in (("copyctor", "copyctor_user", "cc_del"), ("copyassign", "copyassign_user", "ca_del")):
                if sp.get(deleted):
                    ctx.ok("owner")
                    continue
                f = fns[r["u"]].get(kind)
                declared = sp.get(user)
                if not declared and f is None or f is not None and f.r.get("implicit"):
                    if inherited_noncopy(P, r, deleted):
                        ctx.ok("owner")
                        continue
                    ctx.bad("owner", "%s:%s:%s" % (r["q"], kind, name), "%s:%s" % (r["file"], r["l"]),
                            "%s releases %s in its destructor (%s) but its %s is left to the compiler: both objects release it" % (r["q"], name, how, kind))
                elif f is not None:
                    shared(P, ctx, W, r, f, v, name, how)
                else:
                    ctx.ok("owner", sample="%s.%s: %s private or not defined" % (r["q"], name, kind))
            for kind in ("copyassign", "moveassign"):
                f = fns[r["u"]].get(kind)
                if f is None or f.r.get("implicit") or (v not in W.writes(f, {"this": "A", f.r["p"][0]["v"]: "B"}, "A")):
                    continue
                if v in released(P, W, [f]) or swapped_out(W, f, v):
                    ctx.ok("owner", sample="%s releases the %s it had" % (f.q, name))
                elif (r["q"], name) in REUSED:
                    ctx.ok("owner")
                else:
                    ctx.bad("owner", "%s:%s:%s:old" % (r["q"], kind, name), "%s:%d" % (f.file, f.line), "%s overwrites %s without releasing it (%s)" % (f.q, name, how))
            for kind in ("movector", "moveassign"):
                f = fns[r["u"]].get(kind)
                if f is not None and not f.r.get("implicit"):
                    roots = {"this": "A", f.r["p"][0]["v"]: "B"}
                    wb = W.writes(f, roots, "B")
                    if v not in wb and ALL not in wb:
                        ctx.bad("owner", "%s:%s:%s" % (r["q"], kind, name), "%s:%d" % (f.file, f.line),
                                "%s takes %s over but does not make the other object let go of it" % (f.q, name))
                    else:
                        ctx.ok("owner", sample="%s: %s is reset in the object moved from" % (f.q, name))


def emptied(P, ctx, W):
    """what a moving constructor and a moving assignment leave behind is the same"""
    ctx.rule("emptied", "moving from an object by construction and by assignment leaves the same of its fields with a new value")
    fns = defaultdict(dict)
    for f in P.fns.values():
        if f.blocks and not f.r.get("implicit") and f.file.startswith("src/") and "/contrib/" not in f.file:
            nc = len(f.r.get("p", ())) == 1 and f.r["p"][0]["t"].endswith("&") and not f.r["p"][0]["t"].startswith("const ")
            kind = {"copyctor": "movector", "copyassign": "moveassign"}.get(f.kind) if nc else None
            if f.kind in ("movector", "moveassign") or kind:
                fns[f.r.get("clsu")].setdefault(kind or f.kind, f)
    for u, d in sorted(fns.items(), key=lambda x: str(x[0])):
        if len(d) != 2 or u not in P.recs or any(n["k"] == "init" and n.get("deleg") for n in d["movector"].n):
            continue
        fields = {x["v"]: x["n"] for x in P.recs[u]["fields"] if not x["t"].startswith("std::")}
        got = {}
        for kind, f in d.items():
            got[kind] = W.writes(f, {"this": "A", f.r["p"][0]["v"]: "B"}, "B")
        if any(ALL in g for g in got.values()) or any(n["k"] == "call" and n.get("q", "").rsplit("::", 1)[-1] == "swap" for f in d.values() for n in f.n):
            continue
        for v, name in sorted(fields.items(), key=lambda x: x[1]):
            a, b = v in got["movector"], v in got["moveassign"]
            if a == b:
                if a:
                    ctx.ok("emptied", sample="%s.%s" % (P.recs[u]["q"], name))
                continue
            f = d["moveassign"] if a else d["movector"]
            ctx.bad("emptied", "%s:%s" % (P.recs[u]["q"], name), "%s:%d" % (f.file, f.line), "%s leaves %s of the object it moves from as it was, %s does not" %
                    (f.q, name, "construction" if a else "assignment"))


def inherited_noncopy(P, r, deleted):
    return any(b and b["sp"].get(deleted) for b in (P.recs.get(x.get("u")) for x in P.bases(r)))


def shared(P, ctx, W, r, f, v, name, how):
    """a copying function that takes the pointer itself"""
    roots = {"this": "A", f.r["p"][0]["v"]: "B"}
    for i, n in enumerate(f.n):
        src = None
        if n["k"] == "init" and n.get("v") == v and n.get("a"):
            src = n["a"][0]
        elif n["k"] == "assign" and n["op"] == "=" and W.path(f, n["a"][0], roots) == ("A", v):
            src = n["a"][1]
        if src is not None and W.path(f, src, roots) == ("B", v):
            if how == "detach":
                if any(m["k"] == "call" and (m.get("q") or "").endswith("::attach") and m.get("o", -1) >= 0 and W.path(f, m["o"], roots) in (("A", v), ("B", v))
                       for m in f.n):
                    continue
                ctx.bad("owner", "%s:%s:%s" % (r["q"], f.kind, name), f.loc(i), "%s shares %s without attaching to it, the destructor detaches" % (f.q, name))
                return
            if v in W.writes(f, roots, "B"):
                continue        # takes it over
            ctx.bad("owner", "%s:%s:%s" % (r["q"], f.kind, name), f.loc(i), "%s copies %s itself, which both objects then release (%s)" % (f.q, name, how))
            return
    ctx.ok("owner", sample="%s: %s" % (f.q, name))


OPS = ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=")


def compare_like(P, ctx, W):
    byrec = defaultdict(dict)
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if not own(f) or f.name not in OPS:
            continue
        ps = f.r.get("p", ())
        if f.cls:
            r = P.recs.get(f.r.get("clsu"))
            if not r or len(ps) != 1:
                continue
            t = P.rec_by_t.get(ps[0]["t"].replace("const ", "").replace("&", "").strip())
            if t is None or (t is not r and not W_sub(P, r, t)):
                continue
            roots = {"this": "A", ps[0]["v"]: "B"}
        else:
            if len(ps) != 2:
                continue
            ts = [P.rec_by_t.get(p["t"].replace("const ", "").replace("&", "").strip()) for p in ps]
            if ts[0] is None or ts[0] is not ts[1]:
                continue
            r = ts[0]
            roots = {ps[0]["v"]: "A", ps[1]["v"]: "B"}
        byrec[r["u"]].setdefault(f.name, (f, roots))
    for u, ops in sorted(byrec.items()):
        r = P.recs[u]
        if not r["file"].startswith("src/"):
            continue
        fields = W.fields(u)
        C = Cmp(P, W)
        zero = {}

        def ev(name, out):
            f, roots = ops[name]
            vs = C.run(f, roots, out)
            vs = {None if v is None else bool(v) for v in vs}
            return vs.pop() if len(vs) == 1 else None
        for name, (f, roots) in sorted(ops.items()):
            C.crossed = {}
            C.used = set()
            v0 = ev(name, zero)
            where = "%s:%d" % (f.file, f.line)
            want = name in ("operator==", "operator<=", "operator>=")
            ctx.ok("compared", sample="%s on equal objects: %s" % (f.q, v0))
            if v0 is not None and v0 != want:
                ctx.bad("compared", "%s:equal" % f.q, where, "%s of equal objects is %s" % (f.q, str(v0).lower()), counted=True)
            rd = W.reads(f, roots)
            for v, fld in sorted(fields.items()):
                if excluded(r, fld, NOT_VALUE) or excluded(r, fld, COMPARE_KEY):
                    continue
                if name in ("operator==", "operator!="):
                    ra = any(x in rd for x in (("A", v), ("A", ALL)))
                    rb = any(x in rd for x in (("B", v), ("B", ALL)))
                    vs = {ev(name, {v: 1}), ev(name, {v: -1})}
                    if not ra or not rb or (None not in vs and (name == "operator==") in vs):
                        ctx.bad("compared", "%s:%s" % (f.q, fld["n"]), where,
                                "%s does not notice objects that differ in field %s" % (f.q, fld["n"]))
                    else:
                        ctx.ok("compared", sample="%s: %s" % (f.q, fld["n"]))
            for (x, y) in C.crossed:
                if x in fields and y in fields:
                    ctx.bad("compared", "%s:%s/%s" % (f.q, fields[x]["n"], fields[y]["n"]), where,
                            "%s compares field %s with field %s" % (f.q, fields[x]["n"], fields[y]["n"]))
            used = sorted(C.used & set(fields))
            if name in ("operator<", "operator>") and 0 < len(used) <= 4:
                order(P, ctx, f, where, used, fields, lambda out: ev(name, out))
        agree(P, ctx, ops, fields, ev, C)


def W_sub(P, r, t):
    return any(b.get("u") == t["u"] for b in P.bases(r))


def vectors(used):
    vs = [{}]
    for u in used:
        vs = [dict(v, **{u: s}) for v in vs for s in (-1, 0, 1)]
    return vs


def order(P, ctx, f, where, used, fields, ev):
    vs = vectors(used)
    val = {tuple(v[u] for u in used): ev(v) for v in vs}
    n = 0
    for k, x in val.items():
        if x is None:
            continue
        n += 1
        m = tuple(-s for s in k)
        if x and val.get(m):
            ctx.bad("compared", "%s:asymmetric" % f.q, where, "%s holds both ways for objects with %s" % (
                f.q, ", ".join("%s %s" % (fields[u]["n"], {-1: "less", 0: "equal", 1: "greater"}[s]) for u, s in zip(used, k))), counted=True)
            return
    if n < len(val):
        return
    comp = {(-1, -1): (-1,), (-1, 0): (-1,), (0, -1): (-1,), (0, 0): (0,), (0, 1): (1,), (1, 0): (1,), (1, 1): (1,),
            (-1, 1): (-1, 0, 1), (1, -1): (-1, 0, 1)}
    import itertools
    true = [k for k, x in val.items() if x]
    for a in true:
        for b in true:
            for c in itertools.product(*[comp[(x, y)] for x, y in zip(a, b)]):
                if not val[c]:
                    ctx.bad("compared", "%s:transitive" % f.q, where, "%s is not transitive" % f.q, counted=True)
                    return
    ctx.ok("compared", sample="%s is a strict order on %s" % (f.q, ", ".join(fields[u]["n"] for u in used)))


def agree(P, ctx, ops, fields, ev, C):
    C.used = set()
    for name in ops:
        ev(name, {})
    used = sorted(C.used & set(fields))
    if not 0 < len(used) <= 4:
        return
    for v in vectors(used):
        neg = {k: -s for k, s in v.items()}
        for a, b, fn in (("operator==", "operator!=", lambda: (ev("operator==", v), not_(ev("operator!=", v)))),
                         ("operator<", "operator>", lambda: (ev("operator<", v), ev("operator>", neg))),
                         ("operator<", "operator<=", lambda: (ev("operator<", neg), not_(ev("operator<=", v)))),
                         ("operator<", "operator>=", lambda: (ev("operator<", v), not_(ev("operator>=", v)))),
                         ("operator<", "operator==", None)):
            if a not in ops or b not in ops or fn is None:
                continue
            x, y = fn()
            if x is not None and y is not None:
                f = ops[b][0]
                if x != y:
                    ctx.bad("compared", "%s:agrees with %s" % (f.q, a), "%s:%d" % (f.file, f.line), "%s contradicts %s" % (f.q, ops[a][0].q))
                else:
                    ctx.ok("compared")


def not_(v):
    return None if v is None else not v
