"""What eckit leaves behind or sends keeps its form: the layout of records, numbers of tags and messages, marks, versions and
default contents, the items each class writes to a Stream, the names under which classes are sent and implementations chosen.

The form is written down in conf/formats.json (facts read off the type-checked program of the base revision); what the current
program says is computed the same way and compared. Renaming a constant, a field, a function or a file is not a difference."""
import json, os, re
from collections import defaultdict, deque
from rules import streams

HERE = os.path.dirname(os.path.abspath(__file__))
SNAP = os.path.join(HERE, "..", "conf", "formats.json")

ENUMS = ("eckit::Stream::tag", "eckit::distributed::Actor::MessageTags", "c:@N@eckit@Ea@TAG_EOF", "c:@N@eckit@aN@Ea@RESET_TABLE",
         "c:@N@eckit@S@HttpError@Ea@OK", "eckit::UserChannel::MsgType", "eckit::SysLog::Facility", "eckit::SysLog::Severity",
         "eckit::codec::Endian", "eckit::geo::Arrangement")
CONSTS = re.compile(r"^src/eckit/(codec/detail/(RecordSections|Base64|DataType|Version)|container/(MappedArray|SharedMemArray|BTree|KDMapped|kdtree/)|io/fam/|io/cluster/|net/MultiSocket|"
                    r"geo/cache/Download|geo/order/|persist/|utils/LZW|utils/Compress|contrib/xxhash/|serialisation/Stream|runtime/TaskInfo|memory/Padded|transaction/)")
NOT_CONST = ("Builder", "Factory", "Resource<", "std::map<", "ClassSpec", "Reanimator", "Mutex", "LibraryRegistration")
RECORDS = re.compile(r"^eckit::(codec::(Record(Begin|End|Head|MetadataSection|DataIndexSection|DataSection)|Version|Time)|Info|TaskInfo|TaskID|Progress|TxnID|"
                     r"(MappedArray|SharedMemArray)::Header|ClusterDisk|ClusterNodeEntry|NodeInfo|BTree::|KDMapped|kdtree|FamNode|FamListNode|SPMInfo|sptree|FixedString<(1|8|32|64)>|AgentResource|Padded)")
REGISTERS = re.compile(r"Builder|Factory|linalg::(dense|sparse)::LinearAlgebra|CommFactory|Registr")


def enums(P):
    out = {}
    for e in P.enums.values():
        if e["q"] in ENUMS or e["u"] in ENUMS:
            out[e["q"] + "|" + e["u"]] = dict((n, v) for n, v in e["vals"])
    return out


def value(v):
    """the literal contents of a constant: a list of numbers and strings, or nothing"""
    out = []
    ns = v.get("n") or []
    if not ns:
        return None
    # the top expression when it folds
    i = v.get("i")
    if isinstance(i, int) and 0 <= i < len(ns) and ns[i].get("c") is not None:
        return [ns[i]["c"]]
    for n in ns:
        if n["k"] == "str":
            out.append(n["s"])
        elif n["k"] in ("int", "float"):
            out.append(n.get("c") or n.get("v") or n.get("s"))
        elif n["k"] == "un" and n.get("op") == "-":
            out.append("-")
    return out or None


def consts(P):
    out = {}
    for v in P.vars.values():
        if v["vk"] == "slocal" or not CONSTS.search(v["file"]) or "const" not in v["t"] and not v.get("const") and not v.get("constexpr"):
            continue
        if any(x in v["t"] for x in NOT_CONST):
            continue
        x = value(v)
        if x is not None:
            out[v["u"]] = [v["q"]] + [str(y) for y in x]
    return out


def versions(P):
    out = {}
    for f in P.fns.values():
        if not f.file.startswith("src/eckit") or "version" not in f.name.lower() or f.name.startswith("XXH"):
            continue
        vals = {f.n[m["a"][0]].get("c") for _, m in f.nodes_of("ret") if m.get("a")}
        if len(vals) == 1 and None not in vals:
            out["%s(%s)" % (f.q, ",".join(p["t"] for p in f.r["p"]))] = vals.pop()
    return out


def defaults(P):
    """what the default constructors of records put into their members"""
    out = {}
    for f in P.fns.values():
        if f.kind != "ctor" or f.r.get("p") or not f.r.get("clsu"):
            continue
        rec = P.recs.get(f.r["clsu"])
        if rec is None or not RECORDS.match(rec["q"]) or not CONSTS.search(f.file) and "codec" not in f.file:
            continue
        d = {}
        for _, n in f.nodes_of("init"):
            if not n.get("n") or not n.get("a"):
                continue
            vals = lit(f, n["a"][0])
            if vals is not None:
                d[n["n"]] = vals
        if d:
            out[rec["t"]] = d
    return out


def keys(P):
    """key strings (and literal values) that encoding puts into the description of a record, by what is encoded"""
    out = {}
    for f in P.fns.values():
        if not f.file.startswith("src/eckit/codec/") or "/print/" in f.file or f.name not in ("encode_metadata", "encode", "set", "str", "uncompressed", "metadata", "link", "Link", "Metadata") and not f.name.endswith("_str"):
            continue
        got = set()
        seen = {f.u}
        todo = [f]
        while todo:
            g = todo.pop()
            for i, n in g.nodes_of("call"):
                if n.get("q", "").rsplit("::", 1)[-1] == "set" and len(n.get("a", ())) >= 2:
                    k = lit(g, n["a"][0])
                    if isinstance(k, str):
                        v = lit(g, n["a"][1])
                        got.add(k if not isinstance(v, str) or v.lstrip("-").isdigit() else k + "=" + v)
                t = P.fns.get(n.get("f"))
                if t is not None and t.u not in seen and t.file.startswith("src/eckit/codec/") and len(seen) < 60:
                    seen.add(t.u)
                    todo.append(t)
        if f.name == "str" or f.name.endswith("_str"):
            for _, m in f.nodes_of("ret"):
                if m.get("a"):
                    v = lit(f, m["a"][0])
                    if isinstance(v, str) and v:
                        got.add(v)
        if got:
            out["%s(%s) %s" % (f.q, ",".join(p["t"] for p in f.r["p"]), f.u.split("@F@")[-1] if f.r.get("inst") else "")] = sorted(got)
    return out


def lit(f, i, depth=0):
    n = f.n[i]
    if n.get("c") is not None:
        return n["c"]
    if n["k"] == "str":
        return n["s"]
    if n["k"] == "float":
        return str(n.get("c") or n.get("v"))
    if depth < 6 and n["k"] in ("cast", "definit", "narrow", "ctor", "initlist", "other") and n.get("a") and (
            len(n["a"]) == 1 or n["k"] == "ctor" and all(f.n[j]["k"] == "defarg" for j in n["a"][1:])):
        return lit(f, n["a"][0], depth + 1)
    if depth < 3 and n["k"] == "call" and not n.get("a") and not n.get("v"):
        g = f.prog.fns.get(n.get("f"))
        if g is not None:
            vals = {lit(g, m["a"][0], depth + 1) for _, m in g.nodes_of("ret") if m.get("a")}
            if len(vals) == 1 and isinstance(next(iter(vals)), str):
                return vals.pop()
    return None


def layouts(P):
    out = {}
    for r in P.recs.values():
        if r.get("flat") and RECORDS.match(r["q"]) and r["file"].startswith("src/eckit"):
            out[r["t"]] = {"size": r["size"], "flat": r["flat"]}
    return out


def wires(P):
    """key -> (writer's function, automaton)"""
    L = streams.Langs(P)
    out = {}
    done = set()
    for key, w, wv, _, _ in streams.prims(P) + streams.classes(P) + streams.operators(P):
        out[key] = (w, L.lang(w, wv))
        done.add(w.u)
    for f in sorted(P.fns.values(), key=lambda f: f.u):
        if f.u in done or not f.file.startswith("src/eckit") or f.kind not in ("method", "fn"):
            continue
        if f.name not in ("encode", "send", "sendLogin", "write", "operator<<", "connect"):
            continue
        v = streams.sparam(f)
        if v is None:
            continue
        A = L.lang(f, v)
        if not A.empty():
            out["%s(%s)" % (f.q, ",".join(p["t"] for p in f.r["p"]))] = (f, A)
    return out


def frozen(A):
    """the reachable deterministic automaton with its labels, numbered in breadth-first order of sorted symbols"""
    num = {A.start(): 0}
    todo = deque([A.start()])
    states = []
    while todo:
        X = todo.popleft()
        row = []
        o = A.out(X)
        for k in sorted(o, key=str):
            nx, labels, halves, _ = o[k]
            if nx not in num:
                num[nx] = len(num)
                todo.append(nx)
            row.append([list(k), num[nx], sorted(x for x in labels if isinstance(x, str)) if None not in labels and False not in labels else [],
                        sorted(halves) if None not in halves else []])
        states.append([A.final(X), row])
    return states


def sent(P):
    out = {}
    for v in P.vars.values():
        if v["q"].endswith("::classSpec_") and v["file"].startswith("src/"):
            strs = [n["s"] for n in v.get("n", ()) if n["k"] == "str"]
            if len(strs) == 1:
                out[v["q"].rsplit("::", 1)[0]] = strs[0]
    return out


def registered(P):
    """(type of the registering object, name) of every registration made by a variable or in a function"""
    out = set()
    for v in P.vars.values():
        if not v["file"].startswith("src/eckit") or not REGISTERS.search(v["t"]) or v["t"].startswith("std::") or "Resource<" in v["t"]:
            continue
        strs = [n["s"] for n in v.get("n", ()) if n["k"] == "str"]
        if strs:
            out.add((clean(v["t"]), strs[0], v["file"], v["l"]))
    for f in P.fns.values():
        if not f.file.startswith("src/eckit"):
            continue
        for i, n in f.nodes_of("ctor"):
            t = clean(n.get("t", ""))
            if REGISTERS.search(t) and not t.startswith("std::") and n.get("a"):
                s = lit(f, n["a"][0])
                if s is not None and not str(s).lstrip("-").isdigit():
                    out.add((t, s, f.file, n.get("l", f.line)))
    return out


def clean(t):
    return t.replace("const ", "").rstrip(" *&")


def snapshot(P):
    return {"enums": enums(P), "consts": consts(P), "versions": versions(P), "defaults": defaults(P), "layouts": layouts(P),
            "wires": {k: frozen(A) for k, (f, A) in sorted(wires(P).items())}, "sent": sent(P), "keys": keys(P),
            "registered": sorted([t, s] for t, s, _, _ in {(a, b, 0, 0) for a, b, _, _ in registered(P)})}


def load():
    with open(SNAP) as h:
        return json.load(h)


def run(P, ctx):
    snap = load()
    ctx.rule("numbers", "each tag, message and mark keeps the number it is stored or sent as")
    ctx.rule("constants", "marks, versions, masks and other fixed contents of what is stored keep their values")
    ctx.rule("layout", "each field of a record that is stored or mapped as it lies in memory keeps its offset, width and kind")
    ctx.rule("wire", "each class puts the same items into a stream as before, in the same order, for the same fields")
    ctx.rule("keys", "the description of a record has the entries, and the fixed words in them, it has always had")
    ctx.rule("sent-as", "each class is sent under the name it has always been sent under")
    e_numbers(P, ctx, snap)
    e_consts(P, ctx, snap)
    e_layout(P, ctx, snap)
    e_wire(P, ctx, snap)
    e_sent(P, ctx, snap)
    e_keys(P, ctx, snap)


def e_numbers(P, ctx, snap):
    cur = {}
    where = {}
    for e in P.enums.values():
        cur[e["u"]] = dict((n, v) for n, v in e["vals"])
        where[e["u"]] = "%s:%s" % (os.path.relpath(e["f"], "/repo"), e["l"])
    for key, old in snap["enums"].items():
        q, u = key.split("|")
        new = cur.get(u)
        wh = where.get(u)
        if new is None:     # renamed or moved: another enumeration with most of its names
            best = max(cur, key=lambda x: len(set(cur[x]) & set(old)))
            if len(set(cur[best]) & set(old)) * 2 < len(old):
                ctx.note("enumeration %s is not in the program" % q)
                continue
            new, wh = cur[best], where[best]
        for n, v in old.items():
            if n in new and new[n] != v:
                ctx.bad("numbers", "%s:%s" % (q, n), wh, "%s::%s is %s where it has always been %s: what was written with the old number is misread" % (q, n, new[n], v))
            elif n not in new and v not in new.values() and not n.startswith("last_"):
                ctx.bad("numbers", "%s:%s" % (q, n), wh, "%s::%s (%s) is gone: what was written with it cannot be read" % (q, n, v))
            else:
                ctx.ok("numbers", 1, "%s::%s = %s" % (q, n, v))
    ctx.floor("numbers", 70)


def e_consts(P, ctx, snap):
    cur = consts(P)
    place = {v["u"]: "%s:%s" % (v["file"], v["l"]) for v in P.vars.values()}
    have = defaultdict(set)
    for q, v in cur.items():
        have[tuple(v[1:])].add(q)
    for q, old in snap["consts"].items():
        new = cur.get(q)
        if new is None:
            if not have.get(tuple(old[1:])):
                ctx.note("constant %s is not in the program" % old[0])
        elif new[1:] != old[1:]:
            ctx.bad("constants", old[0], place[q], "%s is %s where it has always been %s: what was stored before no longer matches" % (old[0], " ".join(new[1:])[:80], " ".join(old[1:])[:80]))
        else:
            ctx.ok("constants", 1, "%s = %s" % (old[0], " ".join(old[1:])[:40]))
    cur = versions(P)
    for q, old in snap["versions"].items():
        if q in cur and cur[q] != old:
            f = [f for f in P.byq(q.split("(")[0])][0]
            ctx.bad("constants", q, "%s:%d" % (f.file, f.line), "%s returns %s where it has always returned %s" % (q, cur[q], old))
        elif q in cur:
            ctx.ok("constants")
        else:
            ctx.note("%s is not in the program" % q)
    cur = defaults(P)
    for t, old in snap["defaults"].items():
        new = cur.get(t)
        if new is None:
            ctx.note("default contents of %s: not in the program" % t)
            continue
        rec = P.rec_by_t[t]
        for n, v in old.items():
            if n in new and new[n] != v:
                ctx.bad("constants", "%s::%s" % (t, n), "%s:%s" % (rec["file"], rec["l"]), "a new %s has %s = %s where it has always been %s" % (t, n, new[n], v))
            elif n in new:
                ctx.ok("constants", 1, "%s::%s starts as %s" % (t, n, v))
    ctx.floor("constants", 100)


def e_layout(P, ctx, snap):
    cur = layouts(P)
    for t, old in snap["layouts"].items():
        new = cur.get(t)
        if new is None:
            ctx.note("record %s is not in the program" % t)
            continue
        rec = P.rec_by_t[t]
        where = "%s:%s" % (rec["file"], rec["l"])
        if new["size"] != old["size"]:
            ctx.bad("layout", t, where, "%s is %s bytes where it has always been %s" % (t, new["size"], old["size"]))
            continue
        o, n = old["flat"], new["flat"]
        bad = None
        if [x[:3] for x in o] != [x[:3] for x in n]:
            d = next((a, b) for a, b in zip(o + [["?"] * 4], n + [["?"] * 4]) if a[:3] != b[:3])
            bad = "%s has %s where it has always had %s" % (t, tell(d[1]), tell(d[0]))
        elif {x[3] for x in o} == {x[3] for x in n}:
            for a, b in zip(o, n):
                if a[3] != b[3]:
                    bad = "%s has %s where it has always had %s" % (t, tell(b), tell(a))
                    break
        if bad:
            ctx.bad("layout", t, where, bad + ": what was stored before is misread")
        else:
            ctx.ok("layout", len(o), "%s: %d fields in %s bytes" % (t, len(o), old["size"]))
    ctx.floor("layout", 60)


def tell(x):
    return "%s at offset %s (%s bytes, %s)" % (x[3], x[0], x[1], x[2])


def e_wire(P, ctx, snap):
    cur = wires(P)
    fields = {fl["v"] for r in P.recs.values() for fl in r["fields"]}
    for key, old in snap["wires"].items():
        if key not in cur:
            ctx.note("writer %s is not in the program" % key)
            continue
        f, A = cur[key]
        res = differ(old, A, fields)
        if res is None:
            ctx.ok("wire", 1, "%s: %s" % (key, f.q))
        else:
            ctx.bad("wire", key, res[1] or "%s:%d" % (f.file, f.line), "%s no longer writes what it always has: %s" % (f.q, res[0]))
    ctx.floor("wire", 60)


def differ(old, A, fields):
    todo = deque([(0, A.start(), ())])
    seen = set()
    while todo:
        x, Y, w = todo.popleft()
        if (x, Y) in seen:
            continue
        seen.add((x, Y))
        fin, row = old[x]
        if fin != A.final(Y):
            return ("after [%s] it %s" % (" ".join(w[-6:]), "goes on where it used to end" if fin else "may end where it used to go on"), None)
        o = A.out(Y)
        ks = {tuple(k): (nx, set(l), set(h)) for k, nx, l, h in row}
        for k in ks:
            if k not in o:
                return ("after [%s] %s is missing; there is %s" % (" ".join(w[-6:]), streams.show(k), ", ".join(sorted(streams.show(j) for j in o)) or "nothing"), None)
        for k, (nx, ly, hy, wh) in o.items():
            if k not in ks:
                return ("after [%s] there is %s, which there was not" % (" ".join(w[-6:]), streams.show(k)), wh)
            px, lx, hx = ks[k]
            lx = {l for l in lx if l in fields}
            if lx and ly and None not in ly and False not in ly and not (lx & ly):
                return ("after [%s] it writes field %s where it used to write %s" % (" ".join(w[-6:]), "/".join(sorted(map(streams.short, ly))), "/".join(sorted(map(streams.short, lx)))), wh)
            if hx and None not in hy and hx != hy:
                return ("after [%s] the halves of a 64-bit value are exchanged" % " ".join(w[-6:]), wh)
            todo.append((px, nx, w + (streams.show(k),)))
    return None


def e_sent(P, ctx, snap):
    cur = sent(P)
    names = set(cur.values())
    for c, old in snap["sent"].items():
        new = cur.get(c)
        if new is None and old not in names:
            ctx.note("class %s is not in the program" % c)
        elif new is not None and new != old:
            v = next(v for v in P.vars.values() if v["q"] == c + "::classSpec_")
            ctx.bad("sent-as", c, "%s:%s" % (v["file"], v["l"]), "%s is sent as \"%s\" where it has always been \"%s\"" % (c, new, old))
        else:
            ctx.ok("sent-as", 1, "%s as %s" % (c, old))
    ctx.floor("sent-as", 20)


def e_keys(P, ctx, snap):
    cur = keys(P)
    for key, old in snap["keys"].items():
        new = cur.get(key)
        f = (P.byq(key.split("(")[0]) or [None])[0]
        if new is None and f is None:
            ctx.note("%s is not in the program" % key)
            continue
        gone = [k for k in old if k not in (new or ())]
        if gone:
            ctx.bad("keys", key, "%s:%d" % (f.file, f.line), "%s no longer writes %s (it writes %s): what is written cannot be read by what reads the old" % (key.split("(")[0], ", ".join(gone), ", ".join(new or ()) or "nothing"))
        else:
            ctx.ok("keys", len(old), "%s: %s" % (key, " ".join(old)))
    ctx.floor("keys", 30)


# -- names of implementations

def base_of(t):
    """what a registration registers: (factory, implementation)"""
    m = re.match(r"^([^<]*)<(.*)>$", t)
    if not m:
        return t, t
    parts, depth, cur = [], 0, ""
    for ch in m.group(2):
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        if ch == "," and depth == 0:
            parts.append(cur.strip())
            cur = ""
        else:
            cur += ch
    parts.append(cur.strip())
    if len(parts) > 1 and "ConcreteBuilder" in m.group(1):
        return m.group(1).split("ConcreteBuilder")[0] + "Factory<%s>" % parts[0], ", ".join(parts[1:])
    return m.group(1), ", ".join(parts)


def run_names(P, ctx):
    snap = load()
    ctx.rule("name", "each name an implementation is registered under still selects that implementation")
    ctx.rule("distinct", "no two implementations of one factory are registered under one name")
    cur = registered(P)
    names = defaultdict(set)
    for t, s, file, line in cur:
        b, impl = base_of(t)
        names[(b, s)].add((impl, "%s:%s" % (file, line)))
    types = {t for t, _, _, _ in cur}
    for t, s in snap["registered"]:
        b, impl = base_of(t)
        now = names.get((b, s))
        if now and any(i == impl for i, _ in now):
            ctx.ok("name", 1, "%s: \"%s\" is %s" % (b, s, impl[:60]))
            continue
        if now:
            if t in types or impl.split("<")[0].rstrip() in {i.split("<")[0] for i, _ in now}:
                i, wh = sorted(now)[0]
                ctx.bad("name", "%s:%s" % (b, s), wh, "\"%s\" selects %s where it has always selected %s" % (s, i[:100], impl[:100]))
            else:
                ctx.ok("name")
            continue
        if not any(x == b for x, _ in names):
            ctx.note("factory %s is not in the program" % b)
            continue
        ctx.bad("name", "%s:%s" % (b, s), next((("%s:%s" % (f, l)) for tt, _, f, l in sorted(cur) if tt == t), None) or next("%s:%s" % (f, l) for tt, _, f, l in sorted(cur) if base_of(tt)[0] == b),
                "nothing is registered as \"%s\" with %s any more (it selected %s)" % (s, b, impl[:100]))
    apart = defaultdict(set)
    for (b, s), impls in names.items():
        for i, w in impls:      # SQL functions are chosen by name and number of arguments
            m = re.match(r"eckit::sql::expression::function::(\w+aryFunction)<", i)
            apart[(b, s, m.group(1) if m else "")].add((i, w))
    for (b, s, _), impls in sorted(apart.items()):
        if len({i for i, _ in impls}) > 1:
            ctx.bad("distinct", "%s:%s" % (b, s), sorted(w for _, w in impls)[-1], "\"%s\" is registered for %s" % (s, " and for ".join(sorted(i[:80] for i, _ in impls))))
        else:
            ctx.ok("distinct", 1, "%s: \"%s\"" % (b, s))
    ctx.floor("name", 150)
    ctx.floor("distinct", 150)

