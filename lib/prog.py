"""The loaded program: functions, classes, variables; call resolution and small CFG utilities."""
import os, marshal, zlib, time
from collections import defaultdict, deque
import facts
from facts import REPO, AnalysisError


def _load(path):
    with open(path, "rb") as f:
        return marshal.loads(zlib.decompress(f.read()))


class Fn:
    __slots__ = ("r", "u", "q", "file", "line", "n", "blocks", "entry", "exit", "preds", "_order", "prog", "cls",
                 "kind", "name", "_memo", "_parents")

    def __init__(self, r, prog):
        self.r = r
        self.u = r["u"]
        self.q = r["q"]
        self.file = os.path.relpath(r["f"], REPO)
        self.line = r["l"]
        self.n = r["n"]
        self.blocks = {b["i"]: b for b in r["b"]}
        self.entry = r.get("entry")
        self.exit = r.get("exit")
        self.cls = r.get("cls")
        self.kind = r["kind"]
        self.name = r["q"].rsplit("::", 1)[-1]
        self.preds = None
        self._memo = {}
        self._parents = None
        self.prog = prog

    def __repr__(self):
        return "<%s %s:%d>" % (self.q, self.file, self.line)

    # -- flow graph
    def succs(self, b):
        return [s for s in self.blocks[b]["s"] if s >= 0]

    def predecessors(self):
        if self.preds is None:
            p = defaultdict(list)
            for b in self.blocks.values():
                for s in b["s"]:
                    if s >= 0:
                        p[s].append(b["i"])
            # exception dispatch: any block holding an element of try T may reach T's dispatch block
            self.preds = p
        return self.preds

    def dispatch_blocks(self):
        """try id -> block whose successors are its handlers"""
        r = {}
        for b in self.blocks.values():
            t = b.get("t")
            if t and "try" in t:
                r[t["try"]] = b["i"]
        return r

    def elems(self):
        """(block id, index, node id) for all elements, in no particular order of blocks"""
        for b in self.blocks.values():
            for i, e in enumerate(b["e"]):
                yield b["i"], i, e

    def nodes_of(self, *kinds):
        for i, n in enumerate(self.n):
            if n["k"] in kinds:
                yield i, n

    def reachable_nodes(self):
        """ids of nodes that are elements of a block reachable from entry (incl. via exceptional edges)"""
        if "reach" in self._memo:
            return self._memo["reach"]
        seen = set()
        todo = [self.entry] + list(self.dispatch_blocks().values())
        while todo:
            b = todo.pop()
            if b in seen or b is None or b not in self.blocks:
                continue
            seen.add(b)
            todo += self.succs(b)
        r = set()
        for b in seen:
            r.update(self.blocks[b]["e"])
        self._memo["reach"] = r
        self._memo["reachblocks"] = seen
        return r

    def dom(self):
        """block -> set of dominating blocks (exceptional edges: a dispatch block is entered from anywhere)"""
        if "dom" in self._memo:
            return self._memo["dom"]
        disp = set(self.dispatch_blocks().values())
        blocks = list(self.blocks)
        succ = {b: self.succs(b) for b in blocks}
        allb = set(blocks)
        dom = {self.entry: {self.entry}}
        preds = defaultdict(set)
        for b in blocks:
            for s in succ[b]:
                preds[s].add(b)
        for d in disp:
            preds[d].add(self.entry)
        order, seen = [], set()

        def walk(b):
            st = [(b, iter(succ[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen and y in self.blocks:
                        seen.add(y)
                        st.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    st.pop()
        walk(self.entry)
        for d in disp:
            if d not in seen:
                walk(d)
        rpo = list(reversed(order))
        if self.entry in rpo:
            rpo.remove(self.entry)
        for b in rpo:
            dom[b] = None
        ch = True
        while ch:
            ch = False
            for b in rpo:
                ps = [dom[p] for p in preds[b] if p in dom and dom[p] is not None]
                if not ps:
                    continue
                new = set.intersection(*ps) | {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        self._memo["dom"] = dom
        return dom

    def elpos(self):
        """element node -> (block, index); an element may appear once"""
        if "pos" not in self._memo:
            r = {}
            for b in self.blocks.values():
                for i, e in enumerate(b["e"]):
                    r.setdefault(e, (b["i"], i))
            self._memo["pos"] = r
        return self._memo["pos"]

    def dominates(self, a, b):
        """element a is executed before element b on every path to b"""
        pos = self.elpos()
        if a not in pos or b not in pos:
            return False
        (ba, ia), (bb, ib) = pos[a], pos[b]
        if ba == bb:
            return ia < ib
        d = self.dom().get(bb)
        return d is not None and ba in d

    def parents(self):
        """node -> list of nodes having it as operand"""
        if self._parents is None:
            p = defaultdict(list)
            for i, n in enumerate(self.n):
                for c in kids(n):
                    p[c].append(i)
            self._parents = p
        return self._parents

    def loc(self, n):
        l = self.n[n].get("l") if isinstance(n, int) else n.get("l")
        return "%s:%s" % (self.file, l if l else self.line)


def kids(n):
    for c in n.get("a", ()):
        if c >= 0:
            yield c
    for k in ("b", "o", "fp", "i"):
        c = n.get(k)
        if isinstance(c, int) and c >= 0:
            yield c
    if n["k"] == "new" and isinstance(n.get("n"), int):
        yield n["n"]
    for c in n.get("pl", ()):
        yield c
    for d in n.get("d", ()):
        if isinstance(d, dict) and isinstance(d.get("i"), int):
            yield d["i"]
    for c in n.get("caps", ()):
        if isinstance(c.get("i"), int) and c["i"] >= 0:
            yield c["i"]


class Program:
    def __init__(self, select=None, quiet=True, need=(), names=True):
        t = time.time()
        outs, failed, self.fresh, self.orphans = facts.extract(select)
        if failed:
            raise AnalysisError("units that do not parse: " + "; ".join("%s: %s" % (f, e[-300:]) for f, e in failed))
        self.units = sorted(f for f, _ in outs)
        self.t_extract = time.time() - t
        self.fns, self.recs, self.vars, self.enums, self.templates = {}, {}, {}, {}, []
        self.rec_by_t = {}
        self.odr = []       # (kind, name, one definition, another one)
        place = {}
        for f, path in outs:
            for r in _load(path):
                K = r["K"]
                if K in ("fn", "rec", "enum") and (K != "fn" or "b" in r) and "(anon)" not in r["q"]:
                    at = (r["f"], r["l"])
                    old = place.setdefault(r["u"], at)
                    if old != at:
                        self.odr.append((K, r["q"], old, at))
                if K == "fn":
                    if r["u"] not in self.fns and "b" in r:
                        self.fns[r["u"]] = Fn(r, self)
                elif K == "rec":
                    if r["u"] not in self.recs:
                        r["file"] = os.path.relpath(r["f"], REPO)
                        self.recs[r["u"]] = r
                        self.rec_by_t[r["t"]] = r
                elif K == "var":
                    r["file"] = os.path.relpath(r["f"], REPO)
                    old = self.vars.get(r["u"])
                    if old is None or (r["def"] and not old["def"]):
                        self.vars[r["u"]] = r
                elif K == "enum":
                    self.enums[r["u"]] = r
                else:
                    self.templates.append(r)
        self._over = None
        self._byq = None
        self._callers = None
        self._noreturn = None
        self.renamed = __import__("names").normalise(self) if names else []
        self.t_load = time.time() - t - self.t_extract

    # -- lookup
    def byq(self, q):
        if self._byq is None:
            self._byq = defaultdict(list)
            for f in self.fns.values():
                self._byq[f.q].append(f)
        return self._byq.get(q, [])

    def rec(self, u):
        return self.recs.get(u)

    def bases(self, rec, strict=True):
        """all (transitive) base records present in the program; base usr list for absent ones"""
        out, todo = [], [b for b in rec["bases"]]
        seen = set()
        while todo:
            b = todo.pop()
            u = b.get("u")
            if u in seen:
                continue
            seen.add(u)
            # template specialisations: the usr of the canonical decl is that of the specialisation
            out.append(b)
            r = self.recs.get(u)
            if r:
                todo += r["bases"]
        return out

    def is_subclass(self, rec, baseq):
        if rec["q"] == baseq:
            return True
        return any(b.get("q") == baseq for b in self.bases(rec))

    def subclasses(self, baseq):
        return [r for r in self.recs.values() if r["q"] != baseq and any(b.get("q") == baseq for b in self.bases(r))]

    # -- overriding
    def overriders(self, u):
        """function usrs overriding u, transitively (declared methods; may lack a body)"""
        if self._over is None:
            d = defaultdict(set)
            for r in self.recs.values():
                for m in r["methods"]:
                    for o in m.get("ov", ()):
                        d[o].add(m["u"])
            for f in self.fns.values():
                for o in f.r.get("ov", ()):
                    d[o].add(f.u)
            self._over = d
        out, todo = set(), [u]
        while todo:
            x = todo.pop()
            for y in self._over.get(x, ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out

    def targets(self, n):
        """usrs a call/ctor node may invoke (class-hierarchy analysis)"""
        u = n.get("f")
        if not u:
            return []
        if n["k"] == "call" and n.get("v"):
            return [u] + sorted(self.overriders(u))
        return [u]

    def leaves(self, f, n):
        """control does not come back from node n of f: it throws, or calls what never returns"""
        if n["k"] == "throw" or n.get("q") in ("eckit::Assert", "eckit::Panic"):
            return True
        if n["k"] != "call" or not n.get("f"):
            return False
        nr = self.noreturn()
        return n["f"] in nr and all(t in nr for t in self.targets(n) if t in self.fns)

    def noreturn(self):
        """usrs of functions with no path to a normal return"""
        if self._noreturn is None:
            self._noreturn = set()
            more = True
            while more:
                more = False
                for f in self.fns.values():
                    if f.u in self._noreturn or not f.blocks or f.kind in ("ctor", "dtor", "copyctor", "movector"):
                        continue
                    seen, todo, out = set(), [f.entry] + list(f.dispatch_blocks().values()), False
                    while todo and not out:
                        b = todo.pop()
                        if b in seen or b < 0:
                            continue
                        seen.add(b)
                        blk = f.blocks[b]
                        if b == f.exit:
                            out = True
                            break
                        if blk.get("nr") or any(self.leaves(f, f.n[e]) for e in blk["e"]):
                            continue
                        if any(f.n[e]["k"] == "ret" for e in blk["e"]) or not [x for x in blk["s"] if x >= 0]:
                            out = True
                        todo += blk["s"]
                    if not out:
                        self._noreturn.add(f.u)
                        more = True
        return self._noreturn

    def callers(self):
        """usr -> [(caller Fn, node id)] including virtual targets, lambdas as called by their creator: no"""
        if self._callers is None:
            d = defaultdict(list)
            for f in self.fns.values():
                for i, n in enumerate(f.n):
                    if n["k"] in ("call", "ctor", "dtor") and n.get("f"):
                        for t in self.targets(n):
                            d[t].append((f, i))
            self._callers = d
        return self._callers
