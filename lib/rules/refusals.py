"""An operation refuses (ends by an exception, whatever the path) in the states and for the arguments it is known to refuse.

What each operation refuses is kept in conf/refusals.json: for every accessible function, the smallest assumptions on
fields of its object, on its arguments and on what it asks of them, under which no path comes to a normal end. The
table was made by the same analysis from the tree as it was reviewed; a check decides each of its entries again from
the source as it is. Where the test stands (in the function, in what it calls, in which form) makes no difference.
"""
import itertools, json, os, re
from rules.lockuse import subtree

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "conf", "refusals.json")
SMART = ("get", "operator->", "operator*", "operator bool", "value", "has_value")
SIZES = ("size", "length")
BEGINS = ("begin", "cbegin")
ENDS = ("end", "cend")
FINDS = ("find", "count", "contains")
CMP = ("==", "!=", "<", ">", "<=", ">=")
LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")
NOBODY = "s:nothing that is known"
ODD = 987653            # a value no case label has


def integer(c):
    try:
        return int(c)
    except (TypeError, ValueError):
        return None


class Eval:
    def __init__(self, P, turns=True):
        self.P = P
        self.rounds = turns      # the first round of a loop is decided
        self.other = None
        self.memo = {}
        self.exits = {}
        self.loops = {}
        self.locals = {}
        self.doms = {}
        self.asked = None
        self.writes = {}

    # -- names of places, in terms of the function the analysis started from

    def text(self, f, i, st, d=0):
        if not isinstance(i, int) or i < 0 or d > 12:
            return None
        n = f.n[i]
        k = n["k"]
        if k == "cast" and n.get("ck") == "Dynamic":
            t = self.text(f, n["a"][0], st, d + 1)
            return t and "dyn(%s)" % t
        if k in ("cast", "narrow", "definit") or k == "other" and len(n.get("a", ())) == 1 or k == "ctor" and self.through(f, n):
            return self.text(f, n["a"][0], st, d + 1)
        if k == "this":
            return st.get("T", "this")
        if n.get("c") is not None and k != "ref" and k != "mem":
            return str(n["c"])
        if k == "mem":
            b = self.text(f, n["b"], st, d + 1) if isinstance(n.get("b"), int) and n["b"] >= 0 else "this"
            return b and "%s.%s" % (b, n["n"])
        if k == "ref":
            a = st.get(("A", n["v"]))
            if a:
                return a
            if n["v"] in self.P.vars:
                return "g:" + (self.P.vars[n["v"]].get("q") or n.get("n", "?"))
            if n.get("c") is not None:
                return str(n["c"])
            return "l:" + n["n"] if n.get("n") and n["v"] in self.named(f) else None
        if k == "un" and n["op"] in ("*", "&"):
            t = self.text(f, n["a"][0], st, d + 1)
            return t and (self.element(t) if n["op"] == "*" else t)
        if k == "idx":
            t = self.text(f, n["a"][0], st, d + 1)
            c = f.n[n["a"][1]].get("c") if len(n["a"]) > 1 else None
            return t and "%s[%s]" % (t, c or "_")
        if k == "call":
            q = n.get("q", "")
            name = q.rsplit("::", 1)[-1]
            o = n.get("o")
            t = self.text(f, o, st, d + 1) if isinstance(o, int) and o >= 0 else None
            if (q.startswith("std::") or "__normal_iterator" in q) and (name in SMART or name.startswith("operator") and name.endswith("*")) and t:
                return self.element(t) if name in ("operator*", "operator->") else t
            if q.startswith("std::") and name in ("operator[]", "at", "front", "back") and t:
                c = f.n[n["a"][0]].get("c") if n.get("a") else "0" if name == "front" else None
                return "%s[%s]" % (t, c or "_")
            if name in SIZES + BEGINS and t and not n.get("a"):
                return "size(%s)" % t
            if name in FINDS and t and q.startswith("std::") and not q.startswith("std::basic_string"):
                return "has(%s)" % t
            if name == "empty" or name in ENDS and isinstance(o, int):
                return None
            if not q or n.get("op") and n["op"] != "()" and not name.startswith("operator "):
                return None
            if isinstance(o, int) and o >= 0 and t is None:
                t = "_"
            if t and t != "_" and (name in ("c_str", "str") or name.startswith("operator ") and not n.get("a")):
                return t
            g = self.callee(f, n)
            if g is not None and g.kind == "method" and d < 8 and t != "_":
                rs = [m for _, m in g.nodes_of("ret")]
                if len(rs) == 1 and rs[0].get("a") and len(g.blocks) <= 3:
                    x = self.text(g, rs[0]["a"][0], self.bind(f, n, g, st), d + 3)
                    if x and "." in x and not x.startswith("_"):
                        return x
            return "%s(%s)" % (q, t or "")
        return None

    def named(self, f):
        """local variables of the function whose values come from elsewhere: filled in by what they are handed to, or built from what is not followed"""
        if f.u not in self.locals:
            out, bad = set(), set()
            for _, n in f.nodes_of("decl"):
                for d in n["d"]:
                    out.add(d["v"])
            for n in f.n:
                if n["k"] == "un" and n["op"] in ("++", "--") or n["k"] == "assign" and n["op"] != "=":
                    bad.add(f.n[n["a"][0]].get("v"))
            self.locals[f.u] = out - bad
        return self.locals[f.u]

    def through(self, f, n):
        """an object made from one other value, which it stands for"""
        a = [x for x in n.get("a", ()) if f.n[x]["k"] != "defarg"]
        return len(a) == 1 and (n.get("copy") or n.get("move") or n.get("q", "").startswith((
            "std::basic_string", "std::unique_ptr", "std::shared_ptr", "eckit::Offset::", "eckit::Length::", "__gnu_cxx::__normal_iterator", "std::_Rb_tree")))

    @staticmethod
    def element(t):
        m = re.match(r"size\((.*)\)$", t)
        return m.group(1) + "[_]" if m else t

    def ask(self, st, t):
        if t is None:
            return None
        if self.asked is not None:
            self.asked.add(t)
        return st.get(t)

    # -- values

    def ev(self, f, i, st, d=0):
        if not isinstance(i, int) or i < 0 or d > 25:
            return None
        n = f.n[i]
        k = n["k"]
        if k in ("int", "null") or n.get("c") is not None and k not in ("ref", "mem"):
            return 0 if k == "null" else integer(n.get("c"))
        if ("N", i) in st:
            return st[("N", i)]
        if k == "str":
            return "s:" + str(n.get("s", ""))
        if k == "cast" and n.get("ck") == "Dynamic":
            v = self.ask(st, self.text(f, i, st))
            return 0 if v is None and self.ev(f, n["a"][0], st, d + 1) == 0 else v
        if k in ("cast", "narrow", "definit") or k == "other" and len(n.get("a", ())) == 1 or k == "ctor" and self.through(f, n):
            return self.ev(f, n["a"][0], st, d + 1)
        if k == "this":
            return 1
        if k == "ref":
            if ("L", n["v"]) in st:
                return st[("L", n["v"])]
            v = self.ask(st, self.text(f, i, st))
            return v if v is not None else integer(n.get("c"))
        if k in ("mem", "idx"):
            return self.ask(st, self.text(f, i, st))
        if k == "assign":
            return self.ev(f, n["a"][1], st, d + 1) if n["op"] == "=" else None
        if k == "un":
            if n["op"] in ("*", "&"):
                return self.ask(st, self.text(f, i, st)) if n["op"] == "*" else 1
            v = self.ev(f, n["a"][0], st, d + 1)
            if v is None:
                return None
            if isinstance(v, str):
                return 0 if n["op"] == "!" else None
            return {"!": int(not v), "-": -v, "+": v}.get(n["op"])
        if k == "bin":
            return self.binary(n["op"], lambda: self.ev(f, n["a"][0], st, d + 1), lambda: self.ev(f, n["a"][1], st, d + 1))
        if k == "cond":
            c = self.ev(f, n["a"][0], st, d + 1)
            return None if c is None else self.ev(f, n["a"][1 if c else 2], st, d + 1)
        if k == "call":
            q = n.get("q", "")
            name = q.rsplit("::", 1)[-1]
            o = n.get("o")
            has = isinstance(o, int) and o >= 0
            if name == "empty" and has and not n.get("a"):
                t = self.text(f, o, st)
                v = self.ask(st, t and "size(%s)" % t)
                if v is not None:
                    return int(v == 0)
            if name in ENDS and has and not n.get("a"):
                return 0
            if q.startswith("std::") and has and name in SMART:
                return self.ev(f, o, st, d + 1)
            if n.get("op") == "!" and has:
                v = self.ev(f, o, st, d + 1)
                return None if v is None else int(not v)
            if n.get("op") in CMP:
                a = ([o] if has else []) + list(n.get("a", ()))
                if len(a) == 2:
                    return self.binary(n["op"], lambda: self.ev(f, a[0], st, d + 1), lambda: self.ev(f, a[1], st, d + 1))
            return self.ask(st, self.text(f, i, st))
        return None

    @staticmethod
    def binary(op, fa, fb):
        a = fa()
        if op == "&&":
            if a == 0:
                return 0
            b = fb()
            return 0 if b == 0 else 1 if a is not None and b is not None else None
        if op == "||":
            if a:
                return 1
            b = fb()
            return 1 if b else 0 if a == 0 and b == 0 else None
        b = fb()
        if op == ",":
            return b
        if a is None or b is None:
            return None
        if isinstance(a, str) or isinstance(b, str):
            return {"==": int(a == b), "!=": int(a != b)}.get(op) if isinstance(a, str) and isinstance(b, str) else None
        try:
            return {"==": int(a == b), "!=": int(a != b), "<": int(a < b), ">": int(a > b), "<=": int(a <= b), ">=": int(a >= b),
                    "+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "/": b and int(a / b), "%": b and a - b * int(a / b)}.get(op)
        except TypeError:
            return None

    # -- the walk

    def canexit(self, f):
        if f.u in self.exits:
            return self.exits[f.u]
        pred = {}
        live = set()
        for b, blk in f.blocks.items():
            if blk.get("nr") or any(self.P.leaves(f, f.n[e]) for e in blk["e"]):
                continue
            live.add(b)
            for s in blk["s"]:
                pred.setdefault(s, []).append(b)
        ok, todo = set(), [f.exit]
        while todo:
            b = todo.pop()
            if b in ok:
                continue
            ok.add(b)
            todo += [p for p in pred.get(b, ()) if p in live]
        self.exits[f.u] = ok
        return ok

    def turns(self, f):
        """the expressions that decide whether a loop goes round again"""
        if f.u not in self.loops:
            out = set()
            for blk in f.blocks.values():
                t = blk.get("t")
                if t and t.get("k") in LOOPS and t.get("c") is not None and t["c"] >= 0:
                    out |= set(subtree(f, t["c"]))
            self.loops[f.u] = out
        return self.loops[f.u]

    def callee(self, f, n):
        u = n.get("f")
        if not u or u not in self.P.fns or n.get("op"):
            return None
        g = self.P.fns[u]
        if not g.blocks or not g.file.startswith("src/") or g.kind not in ("fn", "method", "ctor") or len(g.blocks) > 60:
            return None
        if n["k"] == "call" and n.get("v") and len(self.P.targets(n)) > 1:
            return None
        return g

    def bind(self, f, n, g, st):
        """the state the called function starts in"""
        out = {k: v for k, v in st.items() if isinstance(k, str) and k != "T"}
        o = n.get("o")
        if g.kind == "method" and not g.r.get("static"):
            t = self.text(f, o, st) if isinstance(o, int) and o >= 0 else st.get("T", "this")
            out["T"] = t or "_other"
        elif g.kind == "ctor":
            out["T"] = "_new"
        else:
            out["T"] = st.get("T", "this")
        for p, a in zip(g.r.get("p", ()), n.get("a", ())):
            v = self.ev(f, a, st)
            t = self.text(f, a, st)
            if t and not t.lstrip("-").isdigit():
                out[("A", p["v"])] = t
            if v is not None:
                out[("L", p["v"])] = v
        return out

    def may_write(self, g, depth=0):
        """fields of its own object a method may change"""
        if g.u in self.writes:
            return self.writes[g.u]
        self.writes[g.u] = set()
        w = set()
        for n in g.n:
            t = None
            if n["k"] == "assign" or n["k"] == "un" and n["op"] in ("++", "--"):
                t = g.n[n["a"][0]]
            elif n["k"] == "call" and not n.get("mc") and isinstance(n.get("o"), int) and n["o"] >= 0:
                t = g.n[n["o"]]
                if t["k"] == "this" and n.get("f") in self.P.fns and depth < 4:
                    w |= self.may_write(self.P.fns[n["f"]], depth + 1)
            if t is not None and t["k"] == "mem":
                w.add(t["n"])
        self.writes[g.u] = w
        return w

    def drop(self, st, t):
        return {k: v for k, v in st.items() if not (isinstance(k, str) and (k == t or k.startswith((t + ".", t + "[")) or "(%s" % t in k))}

    def refused(self, f, env):
        """no path of f comes to a normal end"""
        st = dict(env)
        for k, p in enumerate(f.r.get("p", ())):
            st[("A", p["v"])] = "#%d" % k
        return not self.run(f, st, 0)[0]

    def run(self, f, st0, depth):
        """(can it end normally, the values it may return or None)"""
        key = (f.u, frozenset(st0.items()))
        if key in self.memo:
            r = self.memo[key]
            if self.asked is not None:
                self.asked |= r[2]
            return r[:2]
        self.memo[key] = (True, None, frozenset())
        outer = self.asked
        self.asked = set()
        res = self.walk(f, st0, depth)
        self.memo[key] = (res[0], res[1], frozenset(self.asked))
        if outer is not None:
            outer |= self.asked
        self.asked = outer
        return res

    def walk(self, f, st0, depth):
        P = self.P
        disp = f.dispatch_blocks()
        turns = self.turns(f)
        seen = set()
        rets = set()
        normal = False
        todo = [(f.entry, st0)]
        while todo:
            b, st = todo.pop()
            key = (b, frozenset(st.items()))
            if key in seen:
                continue
            if len(seen) > 1500:
                return True, None
            seen.add(key)
            if b == f.exit:
                normal = True
                continue
            blk = f.blocks[b]
            st = dict(st)
            dead = False
            for e in blk["e"]:
                n = f.n[e]
                k = n["k"]
                if k in ("call", "ctor", "throw", "new", "delete") and n.get("x") in disp and disp[n["x"]] is not None:
                    todo.append((disp[n["x"]], {x: v for x, v in st.items() if not (isinstance(x, tuple) and x[0] == "N")}))
                if P.leaves(f, n):
                    dead = True
                    break
                if k == "call" and self.ask(st, "throws:" + n.get("q", "")):
                    dead = True
                    break
                if k == "call" or k == "ctor":
                    g = self.callee(f, n)
                    if g is not None and depth < 4 and (k == "call" or not n.get("tmp")):
                        st1 = self.bind(f, n, g, st)
                        ok, vals = self.run(g, st1, depth + 1)
                        if not ok:
                            dead = True
                            break
                        if vals is not None and len(vals) == 1 and None not in vals:
                            st[("N", e)] = next(iter(vals))
                        else:
                            st.pop(("N", e), None)
                    st = self.effect(f, n, g, st)
                elif k == "assign":
                    v = self.ev(f, e, st)
                    m = f.n[n["a"][0]]
                    if m["k"] == "ref" and m["v"] not in P.vars and not m.get("isref"):
                        st.pop(("L", m["v"]), None)
                        st.pop(("A", m["v"]), None)
                        if v is not None:
                            st[("L", m["v"])] = v
                    else:
                        t = self.text(f, n["a"][0], st)
                        if t:
                            st = self.drop(st, t)
                            if v is not None:
                                st[t] = v
                elif k == "un" and n["op"] in ("++", "--"):
                    m = f.n[n["a"][0]]
                    if m["k"] == "ref" and m["v"] not in P.vars:
                        st.pop(("L", m["v"]), None)
                        st.pop(("A", m["v"]), None)
                    else:
                        t = self.text(f, n["a"][0], st)
                        if t:
                            st = self.drop(st, t)
                elif k == "decl":
                    for dd in n["d"]:
                        v = dd.get("v")
                        st.pop(("L", v), None)
                        st.pop(("A", v), None)
                        if isinstance(dd.get("i"), int) and dd["i"] >= 0:
                            x = self.ev(f, dd["i"], st)
                            t = self.text(f, dd["i"], st)
                            if t and not t.lstrip("-").isdigit():
                                st[("A", v)] = t
                            if x is not None and not dd.get("t", "").endswith("&"):
                                st[("L", v)] = x
                elif k == "ret":
                    rets.add(self.ev(f, n["a"][0], st) if n.get("a") else None)
            if dead or blk.get("nr"):
                continue
            ss = list(blk["s"])
            t = blk.get("t")
            if t and t.get("c") is not None and t["c"] >= 0:
                # how often a loop runs is not decided here
                v = self.ev(f, t["c"], st) if self.rounds or t["c"] not in turns else integer(f.n[t["c"]].get("c"))
                if t.get("k") == "SwitchStmt":
                    if v is not None:
                        hit = [s for s in ss if s >= 0 and str(v) in f.blocks[s].get("case", ())]
                        ss = hit or [s for s in ss if s >= 0 and not f.blocks[s].get("case")]
                elif v is not None and len(ss) == 2:
                    ss = ss[:1] if v else ss[1:]
            base = {x: v for x, v in st.items() if not (isinstance(x, tuple) and x[0] == "N" and x[1] in blk["e"] and t is None)}
            for s in ss:
                if s >= 0 and not (s == f.exit and b in disp.values()):
                    todo.append((s, base))
        return normal, rets or None

    def effect(self, f, n, g, st):
        if n["k"] == "ctor":
            return st
        o = n.get("o")
        if isinstance(o, int) and o >= 0 and not n.get("mc") and not n.get("ms"):
            t = self.text(f, o, st)
            if t and f.n[o]["k"] != "this":
                q = n.get("q", "")
                if not q.startswith("std::") or q.rsplit("::", 1)[-1] not in SMART + ("begin", "end", "find", "front", "back", "at", "operator[]", "data"):
                    pointer = (f.n[o].get("t") or "").rstrip().endswith("*") or n.get("arrow")
                    keep = st.get(t) if pointer else None
                    st = self.drop(st, t)
                    if keep is not None:
                        st[t] = keep
            elif t == "this" and g is not None:
                for w in self.may_write(g):
                    st = self.drop(st, "this." + w)
        for a, pm in zip(n.get("a", ()), n.get("pm", ())):
            if pm in ("r", "p", "rr"):
                m = f.n[a]
                t = self.text(f, a, st)
                if t and pm != "p":
                    st = self.drop(st, t)
                if m["k"] == "un" and m["op"] == "&":
                    m = f.n[m["a"][0]]
                if m["k"] == "ref" and (pm != "p" or f.n[a]["k"] == "un"):
                    st = dict(st)
                    st.pop(("L", m["v"]), None)
        return st

    # -- what might be refused: read off the conditions

    def atoms(self, f, i, st, out, d=0):
        if not isinstance(i, int) or i < 0 or d > 12:
            return
        n = f.n[i]
        k = n["k"]
        if k == "un" and n["op"] == "!" or k in ("cast", "narrow", "definit") and n.get("a"):
            return self.atoms(f, n["a"][0], st, out, d + 1)
        if k == "call" and n.get("op") == "!":
            return self.atoms(f, n["o"] if isinstance(n.get("o"), int) and n["o"] >= 0 else n["a"][0], st, out, d + 1)
        if k == "bin" and n["op"] in ("&&", "||", ","):
            for x in n["a"]:
                self.atoms(f, x, st, out, d + 1)
            return
        if k == "bin" and n["op"] in CMP or k == "call" and n.get("op") in CMP:
            a = ([n["o"]] if isinstance(n.get("o"), int) and n["o"] >= 0 and k == "call" else []) + list(n.get("a", ()))
            if len(a) != 2:
                return
            leaves, consts = set(), set()
            for x in a:
                self.operands(f, x, st, leaves, consts)
            if not leaves or len(leaves) > 3 or any(not isinstance(c, str) and abs(c) > 1 << 40 for c in consts):
                return
            if len(leaves) == 1:
                vals = {0, 1}
                if any(isinstance(c, str) for c in consts):
                    vals = {NOBODY} | {c for c in consts if isinstance(c, str)}
                else:
                    for c in consts:
                        vals |= {c - 1, c, c + 1}
                out.append([{t: v} for t in leaves for v in sorted(vals)])
            else:
                ls = sorted(leaves)
                out.append([dict(zip(ls, c)) for c in itertools.product((0, 1, 2), repeat=len(ls))])
            return
        if k == "ref" and n["v"] not in self.P.vars and ("A", n["v"]) not in st:
            for _, m in f.nodes_of("decl"):
                for dd in m["d"]:
                    if dd.get("v") == n["v"] and isinstance(dd.get("i"), int) and dd["i"] >= 0:
                        self.atoms(f, dd["i"], st, out, d + 1)
        if k == "call" and n.get("q", "").rsplit("::", 1)[-1] == "empty" and isinstance(n.get("o"), int) and n["o"] >= 0:
            t = self.text(f, n["o"], st)
            if t:
                out.append([{"size(%s)" % t: 0}, {"size(%s)" % t: 1}])
        t = self.text(f, i, st)
        if t and not t.lstrip("-").isdigit() and t != "this":
            out.append([{t: 0}, {t: 1}])
        if k == "call":
            g = self.callee(f, n)
            if g is not None and d < 3:
                st1 = self.bind(f, n, g, st)
                for _, m in g.nodes_of("ret"):
                    if m.get("a"):
                        self.atoms(g, m["a"][0], st1, out, d + 3)

    def operands(self, f, i, st, leaves, consts, d=0):
        if not isinstance(i, int) or i < 0 or d > 8:
            leaves.add("?")
            return
        n = f.n[i]
        c = 0 if n["k"] == "null" or n["k"] == "call" and n.get("q", "").rsplit("::", 1)[-1] in ENDS else integer(n.get("c")) if n["k"] not in ("ref", "mem") or n.get("c") is not None else None
        if c is not None:
            consts.add(c)
            return
        if n["k"] == "str":
            consts.add("s:" + str(n.get("s", "")))
            return
        if n["k"] == "cast" and n.get("ck") != "Dynamic" or n["k"] in ("narrow", "definit") or n["k"] == "ctor" and self.through(f, n):
            return self.operands(f, n["a"][0], st, leaves, consts, d + 1)
        if n["k"] == "bin" and n["op"] in ("+", "-", "*", "%", "/"):
            for x in n["a"]:
                self.operands(f, x, st, leaves, consts, d + 1)
            return
        t = self.text(f, i, st)
        if not t or t == "this":
            for x in range(4):
                leaves.add("?%d" % x)
            return
        leaves.add(t)

    def came_from(self, f, st, t):
        """what the place was given in this function"""
        out = []
        for n in f.n:
            if n["k"] == "assign" and n["op"] == "=" and self.text(f, n["a"][0], st) == t:
                u = self.text(f, n["a"][1], st)
                if u and u != t and not u.lstrip("-").isdigit():
                    out.append(u)
        return out[:3]

    def decisions(self, f, b):
        """what has to be decided for control to come to this block: [(condition, outcome)], nearest first"""
        if f.u not in self.doms:
            pred = {}
            for x, blk in f.blocks.items():
                for y in blk["s"]:
                    if y >= 0:
                        pred.setdefault(y, set()).add(x)
            ids = set(f.blocks)
            dom = {x: ids for x in ids}
            dom[f.entry] = {f.entry}
            more = True
            order = sorted(ids, reverse=True)
            while more:
                more = False
                for x in order:
                    if x == f.entry:
                        continue
                    ps = [dom[p] for p in pred.get(x, ())]
                    new = (set.intersection(*ps) if ps else set()) | {x}
                    if new != dom[x]:
                        dom[x] = new
                        more = True
            self.doms[f.u] = dom, pred
        dom, pred = self.doms[f.u]
        out = []
        for d in sorted(dom[b] - {b}, key=lambda x: -len(dom[x])):
            blk = f.blocks[d]
            t = blk.get("t")
            if not t or t.get("c") is None or t["c"] < 0 or len(blk["s"]) != 2:
                continue
            # which of the two leads here
            back, todo = set(), [b]
            while todo:
                x = todo.pop()
                if x in back or x == d:
                    continue
                back.add(x)
                todo += pred.get(x, ())
            sides = [s in back for s in blk["s"]]
            if sides.count(True) == 1:
                out.append((t["c"], 1 if sides[0] else 0))
        return out

    def contexts(self, f, b, st):
        """assumptions that bring control to the block"""
        res = [{}]
        st = dict(st)
        for _, m in f.nodes_of("decl"):
            for dd in m["d"]:
                if isinstance(dd.get("i"), int) and dd["i"] >= 0 and integer(f.n[dd["i"]].get("c")) is not None:
                    st[("L", dd["v"])] = integer(f.n[dd["i"]].get("c"))
        for c, want in self.decisions(f, b)[:4]:
            got = []
            self.atoms(f, c, st, got)
            fit = []
            for g in got:
                for env in g:
                    s2 = dict(st)
                    s2.update(env)
                    if self.ev(f, c, s2) == want and env not in fit:
                        fit.append(env)
            if not fit:
                continue
            nxt = []
            for r in res:
                for e in fit[:4]:
                    if all(r.get(k, v) == v for k, v in e.items()):
                        z = dict(r)
                        z.update(e)
                        nxt.append(z)
            res = nxt[:8] or res
        return [r for r in res if r]

    def aliases(self, f, st):
        """locals that name something throughout"""
        st = dict(st)
        assigned = {}
        for n in f.n:
            if n["k"] == "assign" or n["k"] == "un" and n["op"] in ("++", "--"):
                m = f.n[n["a"][0]]
                if m["k"] == "ref":
                    assigned[m["v"]] = 1
        for _ in range(2):
            for _, m in f.nodes_of("decl"):
                for dd in m["d"]:
                    if isinstance(dd.get("i"), int) and dd["i"] >= 0 and dd["v"] not in assigned:
                        t = self.text(f, dd["i"], st)
                        if t and not t.lstrip("-").isdigit():
                            st[("A", dd["v"])] = t
        return st

    def candidates(self, f, st, depth=0):
        ok = self.canexit(f)
        st = self.aliases(f, st)
        out = []
        lines = {}
        for b, blk in f.blocks.items():
            t = blk.get("t")
            if not t or t.get("c") is None or t["c"] < 0:
                continue
            sides = [s in ok for s in blk["s"] if s >= 0]
            if t.get("k") == "SwitchStmt":
                tx = self.text(f, t["c"], st)
                if tx and not all(sides):
                    cs = {integer(c) for s in blk["s"] if s >= 0 for c in f.blocks[s].get("case", ())} - {None}
                    out.append([{tx: v} for v in sorted(cs)[:40] + [ODD]])
                continue
            got = []
            self.atoms(f, t["c"], st, got)
            if not got:
                continue
            for g in list(got):
                for t0 in {x for env in g for x in env}:
                    for u in self.came_from(f, st, t0):
                        got.append([{(u if x == t0 else x): v for x, v in env.items()} for env in g])
            lines.setdefault(t.get("l"), []).append((not all(sides), got))
            if not all(sides):
                ctxs = self.contexts(f, b, st)
                both = []
                for env in (e for g in got for e in g[:9]):
                    for c in ctxs:
                        if all(c.get(x, v) == v for x, v in env.items()):
                            z = dict(c)
                            z.update(env)
                            both.append(z)
                out.append(both[:80])
        for l, xs in lines.items():
            if not any(x[0] for x in xs):
                continue
            flat = [c for x in xs for c in x[1]]
            out += flat
            singles = []
            for c in flat:
                if c not in singles:
                    singles.append(c)
            if 1 < len(singles) <= 4:
                pairs = []
                for a, c in itertools.combinations(singles, 2):
                    for x in a[:9]:
                        for y in c[:9]:
                            if not set(x) & set(y):
                                z = dict(x)
                                z.update(y)
                                pairs.append(z)
                out.append(pairs[:100])
        out += self.passed_on(f, st, ok)
        if depth < 2:
            for i, n in enumerate(f.n):
                if n["k"] == "call":
                    g = self.callee(f, n)
                    if g is not None and (not all(b in self.canexit(g) for b in g.blocks if b in f.blocks) or len(g.blocks) > 3):
                        if len(self.canexit(g)) < len(g.blocks) or depth == 0:
                            out += self.candidates(g, self.bind(f, n, g, st), depth + 1)
        return out

    def passed_on(self, f, st, ok):
        """what a handler lets through again"""
        disp = f.dispatch_blocks()
        if not disp:
            return []
        here, todo = set(), list(disp.values())
        while todo:
            b = todo.pop()
            if b in here or b < 0:
                continue
            here.add(b)
            todo += f.blocks[b]["s"]
        again = [b for b in here if b not in ok and any(f.n[e]["k"] == "throw" or self.P.leaves(f, f.n[e]) for e in f.blocks[b]["e"])]
        if not again:
            return []
        conds = [{}]
        for b in again:
            conds += [c for c in self.contexts(f, b, st) if c not in conds][:6]
        out = []
        for q in sorted({n["q"] for n in f.n if n["k"] == "call" and n.get("x") in disp and "::" in n.get("q", "") and
                         not n["q"].startswith(("std::", "eckit::Log::", "eckit::Assert", "openfam::")) and "operator" not in n["q"]}):
            out.append([dict(c, **{"throws:" + q: 1}) for c in conds])
        return out

    def places(self, f):
        """how many places of the function, and of what it calls, refuse"""
        seen, todo, n = set(), [f], 0
        while todo:
            g = todo.pop()
            if g.u in seen or len(seen) > 200:
                continue
            seen.add(g.u)
            live = g.reachable_nodes()
            for i, m in enumerate(g.n):
                if m["k"] in ("call", "throw") and i in live and self.P.leaves(g, m):
                    n += 1
                elif m["k"] == "call":
                    h = self.callee(g, m)
                    if h is not None:
                        todo.append(h)
        return n

    def rings(self, f):
        return sum(1 for b in f.blocks.values() if b.get("t") and b["t"].get("k") in LOOPS)

    def refusals(self, f):
        st = {}
        for k, p in enumerate(f.r.get("p", ())):
            st[("A", p["v"])] = "#%d" % k
        found = []
        tried = set()
        cands = self.candidates(f, st)
        if not cands or self.refused(f, {}):
            return []
        for group in sorted([g for g in cands if g], key=lambda g: len(g[0])):
            for env in group:
                key = frozenset(env.items())
                if key in tried or any("?" in t or t.startswith(("_", "l:__")) or "(_" in t or t.startswith("size") and v < 0 or t.startswith("has") and v not in (0, 1) for t, v in env.items()):
                    continue
                tried.add(key)
                if len(tried) > 500:
                    return found
                if any({y for y in x.items() if y[0] != "@"} <= key for x in found):
                    continue
                if self.refused(f, env):
                    if self.other and not self.other.refused(f, env):
                        env = dict(env)
                        env["@"] = self.rings(f)
                    found.append(env)
        return found


def accessible(P, f):
    return f.blocks and f.file.startswith("src/eckit") and "/contrib/" not in f.file and "/testing/" not in f.file and \
        f.kind in ("fn", "method", "ctor", "copyctor", "copyassign", "dtor") and f.r.get("acc") != 2 and \
        not f.r.get("internal") and not f.r.get("implicit") and "(anon)" not in f.q and not f.q.startswith("openfam::") and f.u not in P.noreturn()


def ident(f):
    return "%s(%s)%s" % (f.q, ",".join(p["t"] for p in f.r.get("p", ())), " const" if f.r.get("const") else "")


def compute(P, only=None):
    E = Eval(P)
    E.other = Eval(P, False)
    out = {}
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.u)):
        if not accessible(P, f) or only and not only(f):
            continue
        r = E.refusals(f)
        k = ident(f)
        n = E.places(f)
        out[k] = [min(n, out[k][0]), [x for x in out[k][1] if x in r]] if k in out else [n, r]
    return {k: v for k, v in out.items() if v[1]}



def field_there(P, f, t):
    """the field a place starts from is still one of the object's"""
    m = re.match(r"(?:size\()?this\.([A-Za-z0-9_]+)", t)
    if not m:
        return True
    todo, seen = [f.cls], set()
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        for r in P.recs.values():
            if r["q"] == c:
                if any(x["n"] == m.group(1) for x in r["fields"]):
                    return True
                todo += [b if isinstance(b, str) else b.get("q") for b in r.get("bases", ())]
    return False


def plain(t):
    """an argument, a field, or how many things are in one: there whether or not it is looked at"""
    return re.match(r"(size\()?(this|#\d+)[.\w]*\)?$", t) is not None


def say(env):
    def one(t, v):
        if t.startswith("throws:"):
            return "%s throws" % t[7:]
        m = re.match(r"size\((.*)\)$", t)
        if m:
            return "%s %s" % (name(m.group(1)), "is empty" if v == 0 else "holds %d" % v)
        m = re.match(r"has\((.*)\)$", t)
        if m:
            return "what is looked up in %s is %s" % (name(m.group(1)), "there" if v else "not there")
        if t.endswith(")"):
            return "%s gives %s" % (name(t[:t.rindex("(")]) + ("" if t.endswith("()") else " on " + name(t[t.rindex("(") + 1:-1])), v)
        return "%s is %s" % (name(t), "none of those known" if v == ODD else v)

    def name(t):
        return re.sub(r"#(\d+)", lambda m: "argument %d" % (int(m.group(1)) + 1), t.replace("this.", ""))
    return " and ".join(one(t, v[2:] if isinstance(v, str) else v) for t, v in sorted(env.items()))


def run(P, ctx):
    ctx.rule("refuses", "under the assumption, no path through the function (and through what it calls) comes to a normal end")
    table = json.load(open(TABLE))
    E = Eval(P)
    by = {}
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.u)):
        if accessible(P, f):
            by.setdefault(ident(f), []).append(f)
    gone = 0
    fns = set()
    for k, (places, envs) in sorted(table.items()):
        if k not in by:
            gone += 1
            continue
        for f in by[k]:
            fresh = None
            for env in envs:
                loops, env = env.get("@"), {t: v for t, v in env.items() if t != "@"}
                if not all(field_there(P, f, t) for t in env):
                    continue
                E.asked = set()
                no = E.refused(f, env)
                asked, E.asked = E.asked, None
                fns.add(f.u)
                if no:
                    ctx.ok("refuses", 1, "%s, when %s" % (f.q, say(env)))
                    continue
                if any(t.startswith("throws:") and t not in asked for t in env):
                    continue
                if not all(plain(t) or t in asked and not t.startswith("l:") for t in env):
                    # it is no longer asked: has something else taken its place?
                    if fresh is None:
                        old = [{t: v for t, v in x.items() if t != "@"} for x in envs]
                        fresh = E.places(f) >= places or any(x not in old for x in E.refusals(f))
                    if fresh:
                        continue
                if loops and E.rings(f) < loops:
                    ctx.note("%s: a loop has been replaced by something else" % f.q)
                    continue
                ctx.bad("refuses", "%s:%s" % (k, json.dumps(env, sort_keys=True)), "%s:%s" % (f.file, f.line),
                        "%s comes to a normal end although %s" % (f.q, say(env)))
    ctx.units = len(fns)
    if gone:
        ctx.note("%d functions of the table are not in this tree" % gone)
    ctx.floor("refuses", 1500)


def save(P):
    json.dump(compute(P), open(TABLE, "w"), indent=0, sort_keys=True)
