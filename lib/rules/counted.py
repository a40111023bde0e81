"""References counted by attach() and detach() are balanced."""
from rules.lockuse import subtree
from rules.oscall import peval
from rules.heap import bare

COUNTED = "eckit::Counted"
TAKEN = {"eckit::YAMLParser:last_": "it takes over the reference that the queue of items had"}


def run(P, ctx):
    ctx.rule("counted", "an object that counts its references gains one in each constructor that keeps it, loses it in the destructor, and an assignment moves one: the new "
                        "object gets its reference before the old one may go, unless the two are known to differ and neither can hold the other")
    last_one(P, ctx)
    owner = {fl["v"]: (rec, fl) for rec in P.recs.values() for fl in rec.get("fields", ())}
    counted = {r["q"]: r for r in P.recs.values() if r["q"] == COUNTED or P.is_subclass(r, COUNTED)}
    uses = {}
    for f in P.fns.values():
        if not f.file.startswith("src/"):
            continue
        for n in f.n:
            if n["k"] == "call" and n.get("q", "").endswith(("::attach", "::detach")) and n.get("o") is not None and n["o"] >= 0:
                m = bare(f, n["o"])
                if m["k"] == "mem" and f.n[m["b"]]["k"] == "this" and m["v"] in owner:
                    uses.setdefault(m["v"], set()).add(f.u)
    for v, us in sorted(uses.items(), key=str):
        rec, fl = owner[v]
        pointee = fl["t"].replace("const ", "").replace("*", "").strip()
        pr = counted.get(pointee)
        nest = nested(P, rec, pr, pointee)
        for f in sorted([f for f in P.fns.values() if f.r.get("clsu") == rec["u"]], key=lambda f: (f.file, f.line)):
            sets = any(writes(f, n, v) for n in f.n)
            if not (f.u in us or sets) and f.kind not in ("ctor", "copyctor", "movector", "dtor"):
                continue
            if any(n["k"] == "init" and n.get("deleg") for n in f.n):
                continue
            name = "%s:%s" % (f.q, fl["n"])
            if "%s:%s" % (rec["q"], fl["n"]) in TAKEN:
                continue
            want = {"ctor": 1, "copyctor": 1, "movector": 1, "dtor": -1}.get(f.kind, 0)
            bad = check(P, f, v, want, nest)
            if bad:
                ctx.bad("counted", name, bad[0], "%s: %s" % (f.q, bad[1] % fl["n"]))
            else:
                ctx.ok("counted", 1, name)


def last_one(P, ctx):
    """detach() deletes the object when, and only when, the last reference goes"""
    for f in P.fns.values():
        if f.q != COUNTED + "::detach" or not f.blocks:
            continue
        fns = [f] + [P.fns[n["f"]] for n in f.n if n["k"] == "call" and P.fns.get(n.get("f")) is not None and P.fns[n["f"]].r.get("clsu") == f.r.get("clsu")]
        ds = [(g, i) for g in fns for i, n in enumerate(g.n) if n["k"] == "delete" and g.n[n["a"][0]]["k"] == "this"]
        if not ds:
            ctx.bad("counted", f.q, "%s:%d" % (f.file, f.line), "detach() never deletes the object")
            continue
        wrong = None
        for b in f.blocks:
            c = (f.blocks[b].get("t") or {}).get("c")
            if c is None or len(f.blocks[b]["s"]) != 2:
                continue
            for count in (1, 2, 3):
                r = left(f, c, count)
                if r is not None:
                    to = f.blocks[b]["s"][0 if r else 1]
                    if deletes_from(f, to, [i for g, i in ds if g is f] + [i for i, n in enumerate(f.n) if n["k"] == "call" and any(n.get("f") == g.u for g, _ in ds if g is not f)]) != (count == 1):
                        wrong = "with %d reference%s left, detach() %s the object" % (count - 1, "" if count == 2 else "s", "keeps" if count == 1 else "deletes")
        if wrong:
            ctx.bad("counted", f.q, "%s:%d" % (f.file, f.line), wrong)
        else:
            ctx.ok("counted", 1, f.q)


def left(f, c, count):
    """truth of condition c, which counts a reference off, when there were so many"""
    env = None
    for j in subtree(f, c):
        n = f.n[j]
        if n["k"] == "un" and n.get("op") == "--":
            env = count if n.get("post") else count - 1
            at = j
    if env is None:
        return None

    def val(i):
        n = f.n[i]
        if i == at:
            return env
        if n["k"] in ("cast", "narrow"):
            return val(n["a"][0])
        if n["k"] == "int":
            return int(n["c"])
        if n["k"] == "un" and n.get("op") == "!":
            v = val(n["a"][0])
            return None if v is None else int(not v)
        if n["k"] == "bin":
            a, b = val(n["a"][0]), val(n["a"][1])
            if a is None or b is None:
                return None
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}.get(n["op"])
        return None
    return val(c)


def deletes_from(f, b, ds):
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x in seen or x is None or x < 0:
            continue
        seen.add(x)
        if any(e in ds for e in f.blocks[x]["e"]):
            return True
        todo += [s for s in f.blocks[x]["s"] if s is not None]
    return False


def nested(P, rec, pr, pointee):
    """a kind of the counted object holds, in a field, another reference of the sort"""
    kinds = [pointee] + ([r["q"] for r in P.subclasses(pointee)] if pr else [])
    recs = {r["q"]: r for r in P.recs.values()}
    for q in kinds:
        for fl in recs.get(q, {}).get("fields", ()):
            t = fl["t"]
            if rec["q"] in t or pointee in t:
                return True
    return False


def writes(f, n, v):
    if n["k"] == "init" and n.get("v") == v:
        return True
    return n["k"] == "assign" and bare(f, n["a"][0]).get("v") == v and bare(f, n["a"][0])["k"] == "mem" and f.n[bare(f, n["a"][0])["b"]]["k"] == "this"


def check(P, f, v, want, nest, depth=0):
    olds, news = set(), set()        # locals that hold what the field held, or comes to hold
    for n in f.n:
        for d in n["d"] if n["k"] == "decl" else ():
            if isinstance(d.get("i"), int) and d["i"] >= 0:
                m = bare(f, d["i"])
                if m["k"] == "mem" and m["v"] == v and f.n[m["b"]]["k"] == "this":
                    olds.add(d["v"])
        if writes(f, n, v):
            m = bare(f, n["a"][-1]) if n.get("a") else {}
            if m.get("k") == "ref" and m["v"] not in olds:
                news.add(m["v"])
    seen = set()
    # references given, references dropped, what the field holds, old one known null, new one known null, guarded against itself, dropped before given
    todo = [(f.entry, (0, 0, "old" if want <= 0 else "none", False, False, False, False))]
    while todo:
        b, st = todo.pop()
        if (b, st) in seen:
            continue
        seen.add((b, st))
        give, drop, fld, onull, nnull, self_, late = st
        blk = f.blocks[b]
        if b == f.exit:
            where = "%s:%d" % (f.file, f.line)
            if fld == "new":
                if give != 1 and not (nnull and give == 0):
                    return (where, "%%s comes to hold an object that it attaches %s on a path" % ("not" if not give else "%d times" % give))
            elif give != (drop if fld == "old" and want == 0 else 0):
                return (where, "%s holds no other object than before and attaches one on a path")
            if want <= 0 and (fld != "old" or want == -1) and drop != 1 and not (onull and drop == 0):
                return (where, "what %%s held is detached %s on a path" % ("not" if not drop else "%d times" % drop))
            if late and nest and fld == "new":
                return (where, "%s is detached before the object it is to hold is attached, which it may be all that holds")
            if late and not self_ and fld == "new" and f.kind == "copyassign":
                return (where, "%s is detached before the object it is to hold is attached, which may be the same")
            continue
        dead = False
        for e in blk["e"]:
            n = f.n[e]
            if n["k"] == "throw":
                dead = True
                break
            if n["k"] == "call" and n.get("q", "").endswith(("::attach", "::detach")) and n.get("o") is not None and n["o"] >= 0:
                m = bare(f, n["o"])
                mine = m["k"] == "mem" and m["v"] == v and f.n[m["b"]]["k"] == "this"
                if mine or m["k"] == "ref" and m["v"] in olds | news:
                    if n["q"].endswith("::attach"):
                        give += 1
                    else:
                        drop += 1
                        late = late or give == 0 and want == 0
            elif n["k"] == "call" and n.get("o") is not None and n["o"] >= 0 and bare(f, n["o"])["k"] == "this" and depth < 2:
                g = P.fns.get(n.get("f"))
                if g is not None and g.blocks and g.u != f.u and want == -1 and any(writes(g, x, v) for x in g.n):
                    drop, fld = drop + 1, "none"            # a method that is balanced itself, and leaves the field nothing
            elif writes(f, n, v):
                fld = "none" if nothing(f, n["a"][-1] if n.get("a") else -1) else "new"
                nnull = fld == "new" and bare(f, n["a"][-1]).get("v") in olds
        if dead or blk.get("nr"):
            continue
        c = (blk.get("t") or {}).get("c")
        ss = f.blocks[b]["s"]
        for x, s in enumerate(ss):
            if s is None or s < 0:
                continue
            on, nn, sf = onull, nnull, self_
            if c is not None and len(ss) == 2:
                m = [f.n[j] for j in subtree(f, c)]
                if any(y["k"] == "mem" and y["v"] == v or y["k"] == "ref" and y.get("v") in news | olds | params(f) for y in m) and truth(f, c, v, news | olds | params(f)) == (x == 1):
                    held = [y for y in m if y["k"] == "mem" and y["v"] == v and f.n[y["b"]]["k"] == "this"]
                    if held and fld == "old" or any(y["k"] == "ref" and y.get("v") in olds for y in m):
                        on = True
                    else:
                        nn = True
                if any(y["k"] == "this" for y in m) and any(y["k"] in ("bin", "call") and (y.get("op") in ("==", "!=")) for y in m):
                    sf = True
            todo.append((s, (min(give, 3), min(drop, 3), fld, on, nn, sf, late)))
    return None


def nothing(f, i):
    if i < 0:
        return True
    n = f.n[i]
    while n["k"] in ("cast", "narrow", "definit", "initlist") and len(n.get("a", ())) <= 1:
        if not n.get("a"):
            return n["k"] == "initlist"
        i = n["a"][0]
        n = f.n[i]
    return n["k"] == "null" or peval(f, i, {}) == 0


def params(f):
    return {p["v"] for p in f.r.get("p", ())}


def truth(f, c, v, refs):
    """the condition is true when the pointer is not null"""
    n = f.n[c]
    while n["k"] in ("cast", "narrow") and n.get("a"):
        c = n["a"][0]
        n = f.n[c]
    if n["k"] == "un" and n.get("op") == "!":
        t = truth(f, n["a"][0], v, refs)
        return None if t is None else not t
    if n["k"] == "mem" and n["v"] == v or n["k"] == "ref" and n.get("v") in refs:
        return True
    if n["k"] == "bin" and n["op"] in ("==", "!=") and any(f.n[a]["k"] == "null" or peval(f, a, {}) == 0 for a in n["a"]):
        return n["op"] == "!="
    return None
