"""One definition per externally visible entity, whatever translation unit it is seen from."""
import os
import facts


def run(P, ctx):
    ctx.rule("one-definition", "every externally visible class, enumeration and function with a body has its definition at "
             "one place only, whichever unit of the libraries it is compiled into (the linker would silently pick one)")
    rel = lambda p: os.path.relpath(p[0], facts.REPO)
    bad = 0
    for k, q, a, b in P.odr:
        if rel(a).startswith("src/tools/") or rel(b).startswith("src/tools/") or q == "main":
            continue
        bad += 1
        ctx.bad("one-definition", q, "%s:%d" % (rel(b), b[1]),
                "%s is also defined at %s:%d: a program holding both uses one of them for both" % (q, rel(a), a[1]))
    n = sum(1 for r in P.recs.values() if "(anon)" not in r["q"]) + \
        sum(1 for f in P.fns.values() if "(anon)" not in f.q and not f.r.get("internal")) + \
        sum(1 for e in P.enums.values() if "(anon)" not in e["q"])
    ctx.ok("one-definition", n - bad)
    ctx.floor("one-definition", 5000)
