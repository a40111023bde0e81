"""Accesses to shared data (static-storage variables, members of classes that own a lock) with the locks held."""
from collections import defaultdict
from prog import kids

READM = {"find", "begin", "end", "cbegin", "cend", "rbegin", "rend", "size", "empty", "count", "at", "front", "back",
         "c_str", "str", "length", "data", "lower_bound", "upper_bound", "contains", "get", "operator->", "operator*",
         "operator bool", "substr", "capacity", "top", "operator()", "load", "has_value", "value"}


def usage(f, i):
    """'r', 'w' (direct store, mutating call, non-const reference handed out) or 'x' (only names it)"""
    par = f.parents()
    cur = i
    n = f.n[i]
    if n.get("r"):
        return "r"
    for _ in range(12):
        ps = par.get(cur, ())
        if not ps:
            return "r"
        best = "r"
        nxt = None
        for p in ps:
            m = f.n[p]
            k = m["k"]
            if k == "assign":
                if m["a"][0] == cur:
                    return "w"
                best = "r"
            elif k == "un":
                if m.get("op") in ("++", "--"):
                    return "w"
                if m.get("op") in ("&", "*"):
                    nxt = p
            elif k == "mem":
                if m.get("r"):
                    return "r"
                nxt = p
            elif k == "idx":
                if m["a"][0] == cur:
                    if m.get("r"):
                        return "r"
                    nxt = p
            elif k in ("cast", "narrow"):
                nxt = p
            elif k == "call":
                if m.get("o") == cur:
                    q = m.get("q", "")
                    name = q.rsplit("::", 1)[-1]
                    if m.get("mc") or m.get("ms"):
                        return "r"
                    if q.startswith("std::") and name in READM:
                        if name in ("operator->", "operator*", "get", "at", "front", "back", "value") and m.get("t", "").find("const") < 0:
                            nxt = p
                            continue
                        return "r"
                    if name == "operator[]" and q.startswith(("std::vector", "std::deque", "std::array", "std::basic_string")):
                        if m.get("r"):
                            return "r"
                        nxt = p
                        continue
                    if name in ("operator<<",) :
                        return "r"
                    return "w"
                if cur in m.get("a", ()):
                    j = m["a"].index(cur)
                    pm = m.get("pm", [])
                    md = pm[j] if j < len(pm) else "v"
                    if md in ("r", "rr", "p"):
                        q = m.get("q", "")
                        if q.rsplit("::", 1)[-1] in ("operator==", "operator!=", "operator<"):
                            return "r"
                        return "w"
                    best = "r"
            elif k == "ctor":
                if cur in m.get("a", ()):
                    j = m["a"].index(cur)
                    pm = m.get("pm", [])
                    md = pm[j] if j < len(pm) else "v"
                    if md in ("r", "rr", "p"):
                        best = "w"
            elif k == "delete":
                return "w"
        if nxt is None:
            return best
        cur = nxt
    return "r"


class Access:
    __slots__ = ("f", "i", "path", "ent", "kind", "held", "rel")


def collect(P, L):
    """entity -> [Access]; entity is ('g', usr) or ('m', field usr)"""
    lockrecs = set()
    out = defaultdict(list)
    fieldrec = {}
    for r in P.recs.values():
        for fd in r["fields"]:
            fieldrec[fd["v"]] = (r, fd)
    for f in P.fns.values():
        if not f.file.startswith("src/"):
            if not f.r.get("inst"):
                continue
        reach = f.reachable_nodes()
        for i, n in enumerate(f.n):
            if i not in reach:
                continue
            k = n["k"]
            ent = None
            if k == "ref" and n.get("vk") in ("global", "slocal", "smember", "static"):
                ent = ("g", n["v"])
            elif k == "ref" and n["v"] in P.vars:
                ent = ("g", n["v"])
            elif k == "mem":
                if n["v"] in P.vars:
                    ent = ("g", n["v"])
                elif n["v"] in fieldrec:
                    ent = ("m", n["v"])
            elif k == "init" and n.get("v") in fieldrec:
                continue
            if not ent:
                continue
            a = Access()
            a.f, a.i, a.ent = f, i, ent
            a.path = L.pf.path(f, i)
            a.kind = usage(f, i)
            a.held = None
            out[ent].append(a)
    return out, fieldrec


def descr(a, held):
    """descriptors of the held locks relative to an access"""
    r = set()
    base = a.path[:-1] if a.path and a.ent[0] == "m" else None
    for p in held:
        if len(p) == 1 and p[0].startswith("v:"):
            r.add(("g", p[0][2:]))
        elif p[0].startswith("v:") and p[0][2:].find("@") and p[0][2:] in a.f.prog.vars:
            r.add(("g",) + (p[0][2:],) + p[1:])
        if base is not None and p[:len(base)] == base and len(p) > len(base):
            r.add(("s",) + p[len(base):])
        if base is not None and p == base:
            r.add(("s",))
        r.add(("any", p[-1]))
    return r
