"""Names are not judged.  conf/names.json holds what the fields, functions and variables of the code were called when the
rules were written; where a class, a file or a scope has one that it did not have, in the place of (for fields) or with the
signature of (for functions and variables) one that is gone, the new name is read as the old one throughout the program.
Virtual functions are left alone: their names decide what overrides what."""
import os, json, re
from collections import defaultdict

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "conf", "names.json")


def scope(q):
    d, i = 0, len(q)
    while i > 0:
        i -= 1
        c = q[i]
        if c in ">)":
            d += 1
        elif c in "<(":
            d -= 1
        elif c == ":" and not d:
            return q[:i - 1], q[i + 1:]
    return "", q


def mine(f):
    return f.startswith("src/") and "/contrib/" not in f


def current(P):
    recs, fns, vars_ = {}, defaultdict(dict), defaultdict(dict)
    for r in P.recs.values():
        if mine(r["file"]) and r["fields"]:
            key, ns = "%s|%s" % (r["file"], r["q"]), [x["n"] for x in r["fields"]]
            if recs.setdefault(key, ns) != ns:
                recs[key] = []              # instances of a template that are not alike
    virt = {m["u"] for r in P.recs.values() for m in r["methods"] if m.get("virt")}
    for f in P.fns.values():
        if not mine(f.file) or f.kind not in ("fn", "method") or f.u in virt or f.r.get("virt") or not re.match(r"\w+$", f.name):
            continue
        s, n = scope(f.q)
        where = s if f.kind == "method" else "%s|%s" % (f.file, s)
        sig = "%s(%s)%d%d" % (f.r.get("rt"), ",".join(p["t"] for p in f.r.get("p", ())), bool(f.r.get("static")), bool(f.r.get("const")))
        fns[where].setdefault(n, set()).add(sig)
    for v in P.vars.values():
        if mine(v["file"]) and v["vk"] in ("global", "smember", "slocal"):
            s, n = scope(v["q"])
            vars_["%s|%s" % (v["file"], s)].setdefault(n, "%s %s" % (v["vk"], v["t"]))
    return recs, fns, vars_


def save(P):
    recs, fns, vars_ = current(P)
    json.dump({"fields": recs, "functions": {k: {n: sorted(s) for n, s in d.items()} for k, d in fns.items()}, "variables": vars_},
              open(FILE, "w"), sort_keys=True, separators=(",", ":"))


def normalise(P):
    """-> [(scope, new name, old name)]"""
    try:
        base = json.load(open(FILE))
    except OSError:
        return []
    recs, fns, vars_ = current(P)
    out, field, func, var = [], {}, {}, {}
    for r in P.recs.values():
        if not mine(r["file"]):
            continue
        key = "%s|%s" % (r["file"], r["q"])
        old = base["fields"].get(key)
        now = [x["n"] for x in r["fields"]]
        if not old or old == now or len(old) != len(now):
            continue
        gone, new = [x for x in old if x not in now], [x for x in now if x not in old]
        if [old.index(x) for x in gone] != [now.index(x) for x in new]:
            continue
        for a, b in zip(gone, new):
            for x in r["fields"]:
                if x["n"] == b:
                    field[x["v"]] = (b, a)
                    x["n"] = a
            out.append((r["q"], b, a))
    for where, have in fns.items():
        old = base["functions"].get(where)
        if not old:
            continue
        gone, new = {n: set(s) for n, s in old.items() if n not in have}, {n: s for n, s in have.items() if n not in old}
        for a, sig in gone.items():
            like = [b for b in new if new[b] == sig]
            if len(like) == 1 and sum(s == sig for s in gone.values()) == 1:
                func[(where, like[0])] = a
                out.append((where, like[0], a))
    for where, have in vars_.items():
        old = base["variables"].get(where)
        if not old:
            continue
        gone, new = {n: t for n, t in old.items() if n not in have}, {n: t for n, t in have.items() if n not in old}
        for a, t in gone.items():
            like = [b for b in new if new[b] == t]
            if len(like) == 1 and sum(s == t for s in gone.values()) == 1:
                var[(where, like[0])] = a
                out.append((where, like[0], a))
    if not out:
        return out

    qs, fq, vq = {}, {}, {}
    for f in P.fns.values():
        if f.kind in ("fn", "method") and mine(f.file):
            s, n = scope(f.q)
            a = func.get((s if f.kind == "method" else "%s|%s" % (f.file, s), n))
            if a:
                fq[f.u] = (n, a)
                qs[f.q] = s + "::" + a if s else a
    for v in P.vars.values():
        if mine(v["file"]):
            s, n = scope(v["q"])
            a = var.get(("%s|%s" % (v["file"], s), n))
            if a:
                vq[v["u"]] = (n, a)
                v["q"] = s + "::" + a if s else a
    pre = [(k + "::", q + "::") for k, q in qs.items()]

    def fix(x):
        if x in qs:
            return qs[x]
        for k, q in pre:
            if x.startswith(k):
                return q + x[len(k):]
        return x

    def last(x, p):
        return x[:-len(p[0])] + p[1] if x.endswith(p[0]) else x

    for r in P.recs.values():
        for m in r["methods"]:
            if m["u"] in fq:
                m["n"] = last(m["n"], fq[m["u"]])
    for v in P.vars.values():
        v["q"] = fix(v["q"])
    for f in P.fns.values():
        if f.u in fq or pre:
            f.q = f.r["q"] = fix(f.q)
            f.name = f.q.rsplit("::", 1)[-1]
        for n in f.n:
            k = n["k"]
            v = n.get("v")
            p = None
            if type(v) is str:
                p = field.get(v) or vq.get(v)
            if p:
                if n.get("n"):
                    n["n"] = last(n["n"], p)
                if n.get("q"):
                    n["q"] = last(n["q"], p)
            if qs and n.get("q") and (n.get("f") or v):
                n["q"] = fix(n["q"])
            if k == "decl" and vq:
                for d in n["d"]:
                    if d["v"] in vq:
                        d["n"] = last(d["n"], vq[d["v"]])
    return out


if __name__ == "__main__":
    import prog
    save(prog.Program(names=False))
