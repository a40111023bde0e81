"""What is handed over reaches its destination (C23).

forward   a handle, a log target or an output of a query that stands for others hands on what it is asked
each      ... to each of them
handed    ... with the arguments it was given, and returns what it got
pending   what is held back is written before the position moves, and before what it is written to is flushed or closed
streambuf the same for stream buffers: sync() writes all that is pending and empties the buffer, overflow() and the destructor call it
reset     a handle that is opened again starts afresh
progress  what reads, writes, skips or seeks moves the position
grow      a buffer that grows keeps what it held
"""
from rules.lockuse import subtree
from rules.restore import Paths, isthis, isnull, const
import engine

D = "eckit::"
S = "eckit::sql::"
X = "eckit::sql::expression::function::"
HANDLE = ["openForRead", "openForWrite", "openForAppend", "read", "write", "close", "flush", "size", "estimate", "position", "seek", "canSeek", "skip", "rewind",
          "restartReadFrom", "restartWriteFrom", "name", "compress", "isEmpty", "title", "collectMetrics", "saveInto"]


def same(*names):
    return {n: n for n in names}


# class -> {method: what it calls on the object it stands for}
FORWARD = {
    D + "SharedHandle": same(*[n for n in HANDLE if n not in ("openForRead", "openForWrite", "openForAppend", "close")]),
    D + "StatsHandle": same(*[n for n in HANDLE if n != "size"]),
    D + "URLHandle": dict(same("openForWrite", "openForAppend", "read", "write", "close", "estimate", "size"), openForRead="estimate"),
    D + "MMappedFileHandle": same("openForRead", "read", "write", "flush", "rewind", "size", "estimate", "position", "isEmpty", "restartReadFrom", "restartWriteFrom", "seek", "skip"),
    D + "AsyncHandle": same("openForWrite", "openForAppend", "close", "flush", "estimate", "title", "collectMetrics"),
    D + "BufferedHandle": dict(same("openForWrite", "close", "flush", "rewind", "seek", "canSeek", "estimate", "title", "collectMetrics"), openForRead="openForRead|estimate"),
    D + "PeekHandle": same("openForRead", "close", "rewind", "seek", "canSeek", "estimate", "position", "size", "title", "collectMetrics"),
    D + "SeekableHandle": dict(same("openForRead", "close", "estimate", "title", "collectMetrics"), read="peek", clear="skip"),
    D + "PartHandle": same("openForRead", "close"),
    D + "PartFileHandle": same("openForRead"),
    D + "PooledHandle": dict(same("read", "close", "seek", "position"), openForRead="open"),
    D + "TCPSocketHandle": same("close"),
    D + "InstantTCPSocketHandle": same("read", "write"),
    D + "TCPHandle": same("read", "write", "close"),
    D + "FTPHandle": same("read", "write"),
    D + "MultiSocketHandle": same("read", "write", "close"),
    D + "WrapperTarget": same("flush"),
    D + "MonitorTarget": {"write": "write"},
    D + "FileTarget": same("flush"),
    D + "OStreamTarget": same("flush"),
    D + "RotationTarget": same("flush"),
    S + "SQLDistinctOutput": same("reset", "flush", "cachedNext", "preprepare", "prepare", "updateTypes", "cleanup", "count"),
    S + "SQLOrderOutput": same("reset", "flush", "preprepare", "prepare", "updateTypes", "cleanup", "count"),
}
# branches on which there is nothing to hand on: class.method -> {member: value it has there}
EXCUSE = {
    D + "MMappedFileHandle.close": {"handle_": False},
    D + "PartFileHandle.close": {"handle_": False},
    D + "TeeTarget.write": {"left_": False, "right_": False},
    D + "MonitorTarget.write": {"<": False},
}
# both of two members
BOTH = {D + "TeeTarget": (["write", "flush"], ["left_", "right_"])}
# class -> (container, {method: what is called for each element})
EACH = {
    D + "TeeHandle": ("datahandles_", same("openForWrite", "write", "close", "flush", "toRemote", "toLocal")),
    D + "MultiHandle": ("datahandles_", same("flush", "estimate", "size", "toRemote", "toLocal")),
    X + "FunctionExpression": ("args_", same("preprepare", "prepare", "updateType", "cleanup", "partialResult", "tables", "simplify")),
    S + "SQLOrderOutput": ("first", same("preprepare", "cleanup")),
}
# overrides that add to what their base class does
BASE = {X + c: ("prepare", "cleanup") for c in ("FunctionAVG", "FunctionCOUNT", "FunctionDOTP", "FunctionFIRST", "FunctionLAST", "FunctionMAX", "FunctionMIN", "FunctionNORM",
                                                "FunctionRMS", "FunctionSUM", "FunctionVAR")}
BASE.update({X + "FunctionRLIKE": ("prepare",), X + "FunctionTHIN": ("prepare",), S + "SQLBitColumn": ("rewind", "next", "advance"), X + "FunctionAND": ("simplify",), X + "FunctionOR": ("simplify",)})

# methods whose result is not that of what they call, or which hand on something else than they were given
OWN = {
    D + "AsyncHandle.flush": "", D + "BufferedHandle.title": "framed", D + "PeekHandle.position": "less what was peeked", D + "PartHandle.openForRead": "the parts only",
    D + "PartFileHandle.openForRead": "the parts only", D + "InstantTCPSocketHandle.read": "counted", D + "SeekableHandle.read": "peeked", D + "SeekableHandle.clear": "",
    D + "MMappedFileHandle.close": "", D + "StatsHandle.print": "", D + "AsyncHandle.title": "framed", D + "PeekHandle.title": "framed", D + "SeekableHandle.title": "framed",
    D + "StatsHandle.title": "framed", D + "SharedHandle.title": "framed", D + "PooledHandle.openForRead": "", D + "PooledHandle.read": "", D + "PooledHandle.close": "",
    D + "PooledHandle.seek": "", D + "PooledHandle.position": "", D + "URLHandle.openForRead": "", S + "SQLBitColumn.next": "", S + "SQLBitColumn.rewind": "", S + "SQLBitColumn.advance": "",
    D + "WrapperTarget.write": "framed", D + "RotationTarget.flush": "", D + "BufferedHandle.seek": "kept too",
}

# (class, method, what comes first, what it comes before, branches on which there is nothing to write)
PENDING = [
    (D + "BufferedHandle", "close", "this.bufferFlush", "close", {"read_": True}),
    (D + "BufferedHandle", "flush", "this.bufferFlush", "flush", {"read_": True}),
    (D + "BufferedHandle", "seek", "this.bufferFlush", "seek", {"read_": True}),
    (D + "BufferedHandle", "seek", "this.bufferFlush", "=pos_", {"read_": True}),
    (D + "BufferedHandle", "rewind", "this.bufferFlush", "rewind", {"read_": True}),
    (D + "BufferedHandle", "rewind", "this.bufferFlush", "=pos_", {"read_": True}),
    (D + "BufferedHandle", "bufferFlush", "write", "=pos_", {}),
    (D + "AsyncHandle", "close", "this.flush", "close", {}),
    (D + "AsyncHandle", "write", "push_back", "return", {}),
    (D + "AIOHandle", "close", "this.flush", "::close", {}),
    (D + "AIOHandle", "openForWrite", "this.close", "::open", {}),
    (D + "AIOHandle", "openForAppend", "this.close", "::open", {}),
    (D + "FileHandle", "flush", "fflush", "fsync", {}),
    (D + "FileHandle", "close", "this.flush", "fclose", {}),
    (D + "distributed::TransportHandle", "close", "this.flush", "sendToWriter", {}),
    (D + "ChannelBuffer", "setTarget", "this.sync", "=target_", {}),
    (D + "ChannelBuffer", "setTarget", "this.sync", "detach", {}),
    (D + "ChannelBuffer", "setTarget", "attach", "detach", {}),
    (D + "ChannelBuffer", "reset", "this.sync", "detach", {}),
    (D + "ChannelBuffer", "dumpBuffer", "write", "setp", {"target_": False}),
    (D + "ChannelBuffer", "sync", "this.dumpBuffer", "flush", {}),
    (D + "MultiHandle", "read1", "close", "=current_", {}),
    (D + "MultiHandle", "rewind", "close", "=current_", {"current_": False}),
    (D + "MultiHandle", "write", "close", "=current_", {}),
    (D + "BTree", "~BTree", "this.flush", "close", {}),
    (D + "BitIO", "~BitIO", "this.flush", "close", {"write_": False}),
    (D + "BitIO", "flush", "write", "=buffer_", {"nbits": False}),
    (D + "RotationOutputStream", "flush", "", "", {}),
    (D + "MMappedFileHandle", "close", "close", "munmap", {"handle_": False}),
    (D + "HttpStream", "write", "this.flush", "this.buf_.write", {}),
    (D + "HttpStream", "dontEncode", "std::flush", "=iword", {}),
    (D + "HttpStream", "doEncode", "std::flush", "=iword", {}),
]
# (class, method, what is done on every path, but where ...)
ALWAYS = [
    (D + "BufferedHandle", "~BufferedHandle", "", {}),
    (D + "BufferedHandle", "bufferFlush", "=pos_", {"pos_": False}),
    (D + "ChannelBuffer", "~ChannelBuffer", "this.reset|this.sync", {}),
    (D + "ChannelBuffer", "reset", "this.sync", {}),
    (D + "ChannelBuffer", "overflow", "this.dumpBuffer|this.sync", {}),
    (D + "ChannelBuffer", "sync", "this.dumpBuffer", {}),
    (D + "ChannelBuffer", "sync", "flush", {"target_": False, "dumpBuffer": False}),
    (D + "ChannelBuffer", "dumpBuffer", "setp", {}),
    (D + "distributed::TransportHandle", "~TransportHandle", "this.close", {}),
    (D + "distributed::TransportHandle", "close", "sendToWriter", {"opened_": False}),
    (D + "BTree", "~BTree", "this.flush", {"file_": False}),
    (D + "BitIO", "~BitIO", "this.flush", {"write_": False}),
    (D + "output_list", "~output_list", "this.flush", {}),
    (D + "AIOHandle", "close", "this.flush", {"fd_": False}),
    (D + "AIOHandle", "~AIOHandle", "this.close", {"fd_": False}),
    (D + "FileHandle", "close", "this.flush", {"file_": False}),
    (D + "FileHandle", "flush", "fflush", {"file_": False, "read_": True}),
    (D + "FileHandle", "flush", "fsync", {"file_": False, "read_": True}),
    (D + "MultiHandle", "close", "close", {"!=": False}),
    (D + "PooledFileDescriptor", "sync", "fdatasync|fsync", {}),
    (D + "MappedArray", "sync", "fsync|msync", {}),
]
# (class, method, what is not done, but on branches on which a member has this value)
ONLY = [(D + "BufferedHandle", m, "write", {"read_": False}) for m in ("close", "flush", "seek", "rewind")] + [
    (D + "FileHandle", "flush", "fflush", {"read_": False}),
    (D + "ChannelBuffer", "dumpBuffer", "write", {"target_": True}),
]
# class -> {opening method: the members it (or what it calls) sets}
RESET = {
    D + "BufferedHandle": {"openForRead": ["read_", "used_", "pos_", "eof_", "position_"], "openForWrite": ["read_", "pos_", "position_"], "rewind": ["position_", "used_", "pos_", "eof_"],
                           "seek": ["used_", "pos_", "eof_", "position_"]},
    D + "PeekHandle": {"openForRead": ["peek_"], "close": ["peek_"], "rewind": ["peek_"], "seek": ["peek_"]},
    D + "SeekableHandle": {"openForRead": ["position_", "seekableStart_"], "rewind": ["position_"], "clear": ["seekableStart_", "position_"]},
    D + "MemoryHandle": {"openForRead": ["read_", "position_", "opened_"], "openForWrite": ["read_", "position_", "opened_"], "close": ["opened_"], "rewind": ["position_"], "seek": ["position_"]},
    D + "MultiHandle": {"openForRead": ["read_", "current_"], "openForWrite": ["read_", "current_", "curlen_", "written_"], "rewind": ["current_"], "close": ["current_"]},
    D + "PartHandle": {"openForRead": ["pos_", "index_"], "rewind": ["pos_", "index_"], "restartReadFrom": ["pos_", "index_"]},
    D + "PartFileHandle": {"openForRead": ["pos_", "index_"], "rewind": ["pos_", "index_"], "restartReadFrom": ["pos_", "index_"], "seek": ["pos_", "index_"]},
    D + "AIOHandle": {"openForWrite": ["used_", "fd_", "pos_"], "openForAppend": ["used_", "fd_", "pos_"]},
    D + "FileHandle": {"openForRead": ["read_", "file_"], "openForWrite": ["read_", "file_"], "openForAppend": ["read_", "file_"]},
    D + "FamHandle": {"openForRead": ["mode_", "pos_", "len_", "object_"], "openForWrite": ["mode_", "pos_", "len_", "object_"], "close": ["mode_", "pos_", "object_"]},
    D + "InstantTCPSocketHandle": {"openForRead": ["read_", "position_"], "openForWrite": ["read_", "position_"]},
    D + "distributed::TransportHandle": {"openForWrite": ["append_", "opened_", "position_"], "openForAppend": ["append_", "opened_", "position_"], "close": ["opened_"]},
    D + "HttpBuf": {"reset": ["buffer_"]},
    D + "LineBasedTarget": {},
    S + "SQLDistinctOutput": {"reset": ["seen_"], "prepare": ["seen_"], "updateTypes": ["offsets_", "tmp_"]},
    S + "SQLOrderOutput": {"reset": ["sortedResults_"], "prepare": ["byIndices_"]},
}
# class -> {method: (the members that move on every path, but where nothing was moved)}
PROGRESS = {
    D + "BufferedHandle": {"read": (["position_"], {"eof_": True, "len": False}), "write": (["position_"], {}), "skip": (["position_"], {})},
    D + "SeekableHandle": {"read": (["position_"], {}), "skip": (["position_"], {}), "seek": (["position_"], {})},
    D + "MemoryHandle": {"read": (["position_"], {}), "write": (["position_"], {}), "seek": (["position_"], {})},
    D + "InstantTCPSocketHandle": {"read": (["position_"], {">": False}), "write": (["position_"], {">": False})},
    D + "FamHandle": {"read": (["pos_"], {"<=": True}), "write": (["pos_"], {}), "seek": (["pos_"], {})},
    D + "AIOHandle": {"write": (["pos_"], {"length": False})},
    D + "distributed::TransportHandle": {"write": (["position_"], {})},
    D + "EasyCURLHandle": {"read": (["position_", "total_"], {})},
    D + "PartHandle": {"read1": (["pos_"], {"==": True})},
    D + "PartFileHandle": {"read1": (["pos_"], {"==": True})},
    D + "BitIO": {"write": (["bits_", "used_"], {"nbits": False}), "read": (["used_"], {"nbits": False, "padded_": True, "EOF_MARKER": True})},
    D + "AsyncHandle": {"write": (["used_", "buffers_"], {})},
    D + "StatsHandle": {"read": (["bytesRead_", "reads_"], {}), "write": (["bytesWritten_", "writes_"], {}), "seek": (["seeks_"], {}), "skip": (["seeks_"], {})},
    D + "LineBasedTarget": {"write": (["position_"], {"<": False, ">=": True})},
}
# buffers of which nothing is kept when they grow
NOT_KEPT = {"eckit::AIOBuffer::resize": "filled afresh by the one that calls it"}


def run(P, ctx):
    ctx.rule("forward", "what stands for another object hands on to it what it is asked, on every path")
    ctx.rule("each", "what stands for several objects hands on to each of them what it is asked")
    ctx.rule("handed", "what is handed on keeps its arguments, and what comes back is returned")
    ctx.rule("pending", "what is held back is written before the position moves and before what it is written to is flushed, replaced or closed")
    ctx.rule("streambuf", "a stream buffer's sync() writes all that is pending and empties the buffer; overflow() and the destructor call it")
    ctx.rule("reset", "what is opened, rewound or moved sets each member that says where it is")
    ctx.rule("progress", "what reads, writes, skips or seeks moves the position, on every path on which something was moved")
    ctx.rule("grow", "an array that is replaced by a larger one is copied first")
    B(P, ctx).run()


class B:
    def __init__(self, P, ctx):
        self.P, self.ctx = P, ctx
        self.memo = {}
        self.names = {}
        self.meth = {}
        for f in P.fns.values():
            if f.blocks and f.file.startswith("src/"):
                self.meth.setdefault((f.cls.split("<")[0] if f.cls else "", f.name), []).append(f)

    def of(self, cls, name, rule, what):
        """the definitions of cls::name, or of the nearest base class that has it"""
        fs = self.find(cls, name)
        if not fs and (name.startswith("~") or self.overrides(cls, name)):
            self.ctx.bad(rule, "%s.%s:absent" % (cls, name), cls, "%s has no %s() of its own: %s" % (cls, name, what))
        return fs

    def known(self, cls, spec, ex):
        """the members and helpers a table names are those of the class: one that goes by another name now is not judged"""
        if cls not in self.names:
            fields, methods = set(), {g.name for (c, n), gs in self.meth.items() if c.replace("(anon)::", "") == cls for g in gs}
            todo = [r for r in self.P.recs.values() if r["q"].split("<")[0].replace("(anon)::", "") == cls]
            done = set()
            while todo:
                r = todo.pop()
                if r["u"] in done:
                    continue
                done.add(r["u"])
                fields |= {x["n"] for x in r["fields"]} | {v["q"].split("::")[-1] for v in self.P.vars.values() if v["q"].startswith(r["q"] + "::")}
                methods |= {x["n"] for x in r["methods"]}
                for b in r["bases"]:
                    todo += [x for x in self.P.recs.values() if x["u"] == b.get("u") or x["q"].split("<")[0] == b["q"].split("<")[0]]
            self.names[cls] = (fields, methods)
        fields, methods = self.names[cls]
        if not fields and not methods:
            return True
        for t in spec.split("|"):
            if t.startswith("=") and t.endswith("_") and t[1:] not in fields:
                return False
            if t.startswith("this.") and t.count(".") == 1 and t[5:] not in methods | {"flush"} and "|" not in spec:
                return False
        return all(x in fields for x in ex if x.endswith("_"))

    def overrides(self, cls, name):
        """a base class has the method, and so is asked instead"""
        self.known(cls, "", {})
        return self.names[cls][0:2] == (set(), set()) or name in self.names[cls][1]

    def find(self, cls, name):
        fs = []
        for (c, n), g in self.meth.items():
            if n == name and c and (c == cls or c.replace("(anon)::", "") == cls):
                fs += g
        if not fs and name.startswith("~"):
            for (c, n), g in self.meth.items():
                if (c == cls or c.replace("(anon)::", "") == cls) and any(f.kind == "dtor" for f in g):
                    fs += [f for f in g if f.kind == "dtor"]
        return sorted({f.u: f for f in fs}.values(), key=lambda f: (f.file, f.line, f.u))

    def run(self):
        P, ctx = self.P, self.ctx
        for cls in sorted(FORWARD):
            for m, spec in sorted(FORWARD[cls].items()):
                fs = self.of(cls, m, "forward", "what it stands for is not asked")
                ex = EXCUSE.get("%s.%s" % (cls, m), {})
                for f in fs:
                    if not self.known(cls, "", ex):
                        continue
                    if not self.must(f, spec, ex):
                        ctx.bad("forward", "%s.%s" % (cls, m), "%s:%d" % (f.file, f.line), "%s can end without %s() of what it stands for" % (f.q, spec))
                    else:
                        ctx.ok("forward", 1, f.q)
                        if "%s.%s" % (cls, m) not in OWN and "|" not in spec:
                            self.handed(f, spec, cls, m)
        for cls, (ms, members) in sorted(BOTH.items()):
            for m in ms:
                for f in self.of(cls, m, "forward", ""):
                    for x in members:
                        if not self.known(cls, "", {x: 0}):
                            continue
                        hits = {i for i, n in f.nodes_of("call") if n.get("q", "").split("::")[-1] == m and self.root(f, n) == x}
                        if self.always(f, hits, {x: False, "<": False, ">=": True}):
                            ctx.ok("forward", 1, "%s %s" % (f.q, x))
                        else:
                            ctx.bad("forward", "%s.%s:%s" % (cls, m, x), "%s:%d" % (f.file, f.line), "%s can end without %s->%s()" % (f.q, x, m))
        for cls, ms in sorted(BASE.items()):
            for m in ms:
                for f in self.of(cls, m, "forward", "its base class is not asked"):
                    hits = {i for i, n in f.nodes_of("call") if n.get("q", "").split("::")[-1] == m and n.get("q") != f.q and self.isown(f, n)}
                    if self.always(f, hits, {}):
                        ctx.ok("forward", 1, f.q)
                    else:
                        ctx.bad("forward", "%s.%s:base" % (cls, m), "%s:%d" % (f.file, f.line), "%s can end without %s() of its base class" % (f.q, m))
        for cls, (cont, ms) in sorted(EACH.items()):
            for m, spec in sorted(ms.items()):
                for f in self.of(cls, m, "each", "none of those it stands for is asked"):
                    self.each(f, cont, spec, cls, m)
        for cls, m, first, then, ex in PENDING:
            if first and self.known(cls, first, ex) and self.known(cls, then, {}):
                self.pending(cls, m, first, then, ex)
        for cls, m, spec, ex in ALWAYS:
            if not spec or not self.known(cls, spec, ex):
                continue
            for f in self.of(cls, m, "pending", "nothing writes what is pending"):
                if self.must(f, spec, ex):
                    ctx.ok("pending", 1, f.q)
                else:
                    ctx.bad("pending", "%s.%s:%s" % (cls, m, spec), "%s:%d" % (f.file, f.line), "%s can end without %s" % (f.q, describe(spec)))
        for cls, m, spec, ex in ONLY:
            if not self.known(cls, spec, ex):
                continue
            for f in self.of(cls, m, "pending", ""):
                if self.reaches(f, spec, ex):
                    x, v = list(ex.items())[0]
                    ctx.bad("pending", "%s.%s:%s unless %s" % (cls, m, spec, x), "%s:%d" % (f.file, f.line), "%s can %s() where %s is not %s" % (f.q, spec, x, str(v).lower()))
                else:
                    ctx.ok("pending", 1, f.q)
        self.streambufs()
        for cls in sorted(RESET):
            for m, members in sorted(RESET[cls].items()):
                for f in self.of(cls, m, "reset", "what says where it is stays as it was"):
                    for x in members:
                        if not self.known(cls, "=" + x, {}):
                            continue
                        if self.must(f, "=" + x, {}):
                            ctx.ok("reset", 1, "%s %s" % (f.q, x))
                        else:
                            ctx.bad("reset", "%s.%s:%s" % (cls, m, x), "%s:%d" % (f.file, f.line), "%s can end without setting %s" % (f.q, x))
        for cls in sorted(PROGRESS):
            for m, (members, ex) in sorted(PROGRESS[cls].items()):
                for f in self.of(cls, m, "progress", ""):
                    for x in members:
                        if not self.known(cls, "=" + x, ex):
                            continue
                        if self.must(f, "=" + x, ex):
                            ctx.ok("progress", 1, "%s %s" % (f.q, x))
                        else:
                            ctx.bad("progress", "%s.%s:%s" % (cls, m, x), "%s:%d" % (f.file, f.line), "%s can end without moving %s" % (f.q, x))
        self.grow()

    # -- what a node does

    def isown(self, f, n):
        o = n.get("o")
        return not isinstance(o, int) or o < 0 or isthis(f, o)

    def root(self, f, n):
        """the member at the root of the object a call is made on"""
        o = n.get("o")
        if not isinstance(o, int) or o < 0:
            return None
        return self.member(f, o)

    def member(self, f, i):
        for _ in range(12):
            n = f.n[i]
            if n["k"] in ("cast", "narrow", "definit", "idx") or n["k"] == "un" and n["op"] in ("&", "*"):
                i = n["a"][0]
            elif n["k"] == "call" and isinstance(n.get("o"), int) and n["o"] >= 0 and not isthis(f, n["o"]):
                i = n["o"]
            elif n["k"] == "call" and n.get("op") in ("->", "*", "[]") and n.get("a"):
                i = n["a"][0]
            else:
                break
        n = f.n[i]
        return n.get("n", "").split("::")[-1] if n["k"] in ("mem", "ref") else n.get("q", "").split("::")[-1] if n["k"] == "call" else None

    def direct(self, f, i):
        """the member a node is, without going through a call"""
        for _ in range(8):
            n = f.n[i]
            if n["k"] in ("cast", "narrow", "definit"):
                i = n["a"][0]
            else:
                break
        n = f.n[i]
        return n.get("n", "").split("::")[-1] if n["k"] in ("mem", "ref") else None

    def does(self, f, i, spec, depth=3, ex={}):
        n = f.n[i]
        k = n["k"]
        for s in spec.split("|"):
            if s == "return":
                if k == "ret":
                    return True
            elif s.startswith("="):
                m = s[1:]
                if k == "assign" and self.direct(f, n["a"][0]) == m or k == "un" and n["op"] in ("++", "--") and self.direct(f, n["a"][0]) == m:
                    return True
                if k == "assign" and any(f.n[j]["k"] == "call" and f.n[j].get("q", "").split("::")[-1] == m for j in subtree(f, n["a"][0])):
                    return True
                if k == "call" and (not n.get("op") or n["op"] in ASSIGNS):
                    tgt = n["o"] if isinstance(n.get("o"), int) and n["o"] >= 0 else n["a"][0] if n.get("op") and n.get("a") else None
                    if tgt is not None and not n.get("mc") and self.direct(f, tgt) == m and n.get("q", "").split("::")[-1] not in ("begin", "end", "data", "operator[]", "front", "back", "operator*"):
                        return True
                    # handed to what fills it
                    if any(self.direct(f, a) == m and f.n[a]["k"] in ("mem",) and not f.n[a].get("r") for a in n.get("a", ())) and not n.get("op"):
                        return True
            elif s.startswith("this."):
                if k == "call" and self.isown(f, n) and n.get("q", "").split("::")[-1] == s[5:]:
                    return True
                if k == "call" and s.count(".") == 2 and self.root(f, n) == s.split(".")[1] and n.get("q", "").split("::")[-1] == s.split(".")[2]:
                    return True
            elif s == "std::flush":
                if k == "call" and any(f.n[j]["k"] == "fref" and f.n[j].get("q", "") == s for a in n.get("a", ()) for j in subtree(f, a)) or k == "call" and n.get("q", "").split("::")[-1] == "flush":
                    return True
            elif s.startswith("::"):
                if k == "call" and n.get("q", "").lstrip(":") == s[2:]:
                    return True
            elif k == "call" and n.get("q", "").split("::")[-1] == s and (not self.isown(f, n) or not n.get("cls")  or n.get("cls") != f.cls and s in ("setp", "setg")):
                return True
        if depth and k == "call":
            # a helper of the same class, or a function made on the spot
            for a in n.get("a", ()):
                for j in subtree(f, a):
                    if f.n[j]["k"] == "lambda":
                        g = self.P.fns.get(f.n[j].get("f"))
                        if g and g.blocks and self.must(g, spec, ex, depth - 1):
                            return True
            if self.isown(f, n) and n.get("f"):
                g = self.P.fns.get(n["f"])
                if g and g.blocks and g.u != f.u and g.file.startswith("src/") and (g.cls == f.cls or not g.cls and g.r.get("internal")):
                    # what holds for a member holds in a helper of the class too
                    return self.must(g, spec, {x: v for x, v in ex.items() if x.endswith("_")}, depth - 1)
            elif n.get("f") and not n.get("cls"):
                g = self.P.fns.get(n["f"])
                if g and g.blocks and g.u != f.u and g.r.get("internal"):
                    return self.must(g, spec, {}, depth - 1)
        return False

    def hits(self, f, spec, depth=3, ex={}):
        key = (f.u, spec, depth, "hits", tuple(sorted(ex.items())))
        if key not in self.memo:
            self.memo[key] = set()
            pos = f.elpos()
            self.memo[key] = {i for i in range(len(f.n)) if i in pos and self.does(f, i, spec, depth, ex)}
        return self.memo[key]

    def must(self, f, spec, ex, depth=3):
        key = (f.u, spec, depth, tuple(sorted(ex.items())))
        if key not in self.memo:
            self.memo[key] = False
            self.memo[key] = self.always(f, self.hits(f, spec, depth, ex), ex)
        return self.memo[key]

    def always(self, f, hits, ex):
        p = Paths(self.P, f)
        self.cut(p, f, ex)
        out, _ = p.run(False, lambda e, n, st, thrown: None if thrown else st or e in hits)
        return bool(hits) and all(out)

    def cut(self, p, f, ex):
        """leave out the branches on which there is nothing to do"""
        if not ex:
            return
        for b in f.blocks.values():
            t = b.get("t")
            if not t or t.get("c") is None or t["c"] < 0 or len(b["s"]) != 2:
                continue
            i, neg = t["c"], False
            name = None
            for _ in range(10):
                n = f.n[i]
                if n["k"] == "un" and n["op"] == "!":
                    neg = not neg
                    i = n["a"][0]
                elif n["k"] in ("cast", "narrow", "definit"):
                    i = n["a"][0]
                elif n["k"] == "call" and not n.get("op") and n.get("q", "").split("::")[-1] in ("operator bool", "get") and isinstance(n.get("o"), int):
                    i = n["o"]
                elif n["k"] == "ref" and n.get("vk") == "local" and n.get("n") not in ex and self.once(f, n["v"]) is not None:
                    i = self.once(f, n["v"])
                else:
                    break
            n = f.n[i]
            names = []
            if n["k"] in ("ref", "mem"):
                names = [(n.get("n", "").split("::")[-1], neg)]
            elif n["k"] == "call" and not n.get("op"):
                names = [(n.get("q", "").split("::")[-1], neg)]
            elif n["k"] == "bin" or n["k"] == "call" and n.get("op"):
                op = n["op"]
                a = list(n.get("a", ()))
                if n["k"] == "call" and isinstance(n.get("o"), int) and n["o"] >= 0:
                    a = [n["o"]] + a
                if len(a) == 2:
                    # an order is the same the other way round
                    names = [(op, neg), ({"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), neg), (NEGATED.get(op, op), not neg),
                             ({"<": "<=", ">": ">=", "<=": "<", ">=": ">"}.get(op, "?"), not neg)]
                    for x, y, o in ((a[0], a[1], op), (a[1], a[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                        c = str(f.n[y].get("c")) if "c" in f.n[y] else "0" if isnull(f, y) else const(f, y)
                        m = self.member(f, x)
                        if m is None:
                            continue
                        zero = c in ("0", "-1", "false") or c is None and self.member(f, y) in ("end",) or self.callname(f, y) == "end"
                        if zero:
                            if o in ("!=", ">") or o == ">=":
                                names.append((m, neg))
                            elif o in ("==", "<=", "<"):
                                names.append((m, not neg))
            for nm, ng in names:
                if nm in ex:
                    # edge 0 is taken when the condition holds: the value of nm there is not ng
                    p.skip.add((b["i"], 0 if (not ng) == ex[nm] else 1))

    def once(self, f, v):
        """what a local variable is set to where it is declared, if it is not set again"""
        if any(f.n[f.n[i]["a"][0]]["k"] == "ref" and f.n[f.n[i]["a"][0]]["v"] == v for k in ("assign", "un") for i, n in f.nodes_of(k) if k == "assign" or n["op"] in ("++", "--")):
            return None
        for _, n in f.nodes_of("decl"):
            for d in n["d"]:
                if d["v"] == v and isinstance(d.get("i"), int) and d["i"] >= 0 and d.get("t", "").replace("const ", "") == "bool":
                    return d["i"]
        return None

    def callname(self, f, i):
        for _ in range(6):
            n = f.n[i]
            if n["k"] in ("cast", "narrow", "definit") or n["k"] == "ctor" and len(n.get("a", ())) == 1:
                i = n["a"][0]
            else:
                break
        return f.n[i].get("q", "").split("::")[-1] if f.n[i]["k"] == "call" else None

    def reaches(self, f, spec, ex, depth=3):
        """some path that is not left out does it"""
        found = set()
        p = Paths(self.P, f)
        self.cut(p, f, ex)

        def step(e, n, st, thrown):
            if not thrown:
                if self.does(f, e, spec, 0):
                    found.add(e)
                elif n["k"] == "call" and depth and self.isown(f, n) and n.get("f") in self.P.fns:
                    g = self.P.fns[n["f"]]
                    if g.blocks and g.cls == f.cls and self.reaches(g, spec, ex, depth - 1):
                        found.add(e)
            return None if thrown else st
        p.run(0, step)
        return found

    # -- arguments and results

    def handed(self, f, spec, cls, m):
        ps = [p["v"] for p in f.r.get("p", ())]
        calls = [(i, f.n[i]) for i in self.hits(f, spec, 0) if f.n[i]["k"] == "call" and f.n[i].get("q", "").split("::")[-1] == spec]
        if not calls:
            return
        for i, n in calls:
            a = n.get("a", ())
            if len(a) != len(ps):
                continue
            for x, v in zip(a, ps):
                if f.n[x]["k"] == "defarg":
                    self.ctx.bad("handed", "%s.%s:%s" % (cls, m, "default"), f.loc(i), "%s hands on a default in place of the argument it was given" % f.q)
                    break
                refs = {f.n[j]["v"] for j in subtree(f, x) if f.n[j]["k"] == "ref"}
                if v in ps and v not in refs and not self.from_param(f, x, v):
                    self.ctx.bad("handed", "%s.%s:argument" % (cls, m), f.loc(i), "%s hands on something else than the argument it was given" % f.q)
                    break
                if any(f.n[j]["k"] in ("bin", "un") and f.n[j]["op"] not in ("&", "*", "!") or f.n[j]["k"] == "cond" for j in subtree(f, x)):
                    self.ctx.bad("handed", "%s.%s:argument" % (cls, m), f.loc(i), "%s changes the argument it hands on" % f.q)
                    break
            else:
                self.ctx.ok("handed", 1, f.q)
        if f.r.get("rt", "void") == "void":
            return
        vs = set()
        ids = {i for i, n in calls}
        changed = True
        while changed:
            changed = False
            for i, n in f.nodes_of("decl"):
                for d in n["d"]:
                    if isinstance(d.get("i"), int) and d["i"] >= 0 and d["v"] not in vs and any(j in ids or f.n[j]["k"] == "ref" and f.n[j]["v"] in vs for j in subtree(f, d["i"])):
                        vs.add(d["v"])
                        changed = True
            for i, n in f.nodes_of("assign"):
                t = f.n[n["a"][0]]
                if t["k"] in ("ref", "mem") and t["v"] not in vs and any(j in ids or f.n[j]["k"] == "ref" and f.n[j]["v"] in vs for j in subtree(f, n["a"][1])):
                    vs.add(t["v"])
                    changed = True
        for i, n in f.nodes_of("ret"):
            if not n.get("a"):
                continue
            sub = subtree(f, n["a"][0])
            if not any(j in ids or f.n[j]["k"] in ("ref", "mem") and f.n[j]["v"] in vs for j in sub):
                self.ctx.bad("handed", "%s.%s:result" % (cls, m), f.loc(i), "%s does not return what it got" % f.q)
            else:
                self.ctx.ok("handed", 1)

    def from_param(self, f, x, v):
        for j in subtree(f, x):
            if f.n[j]["k"] != "ref":
                continue
            for i, n in f.nodes_of("decl"):
                for d in n["d"]:
                    if d["v"] == f.n[j]["v"] and isinstance(d.get("i"), int) and d["i"] >= 0 and any(f.n[k]["k"] == "ref" and f.n[k]["v"] == v for k in subtree(f, d["i"])):
                        return True
        return False

    # -- for each element

    def each(self, f, cont, spec, cls, m):
        ctx = self.ctx
        where = "%s:%d" % (f.file, f.line)
        key = "%s.%s:each" % (cls, m)
        hits = self.hits(f, spec)
        hits = {i for i in hits if self.does(f, i, spec, 1)}
        pos = f.elpos()
        if not hits:
            ctx.bad("each", key, where, "%s does not ask any of %s" % (f.q, cont))
            return
        loops = [self.loop(f, pos[i][0] if isinstance(pos[i], tuple) else pos[i]) for i in sorted(hits)]
        if all(l is None for l in loops):
            # a function made on the spot and applied to each
            if any(f.n[j]["k"] == "lambda" for i in hits for a in f.n[i].get("a", ()) for j in subtree(f, a)):
                ctx.ok("each", 1, f.q)
            elif all(self.isown(f, f.n[i]) for i in hits):
                ctx.ok("each", 1, f.q)
            else:
                ctx.bad("each", key, where, "%s asks only one of %s" % (f.q, cont))
            return
        head, body = [l for l in loops if l][0]
        hb = {pos[i][0] if isinstance(pos[i], tuple) else pos[i] for i in hits}
        # the loop is reached on every path
        if self.reach(f, f.entry, f.exit, {head}, None):
            ctx.bad("each", key + ":reached", where, "%s can end without going through %s" % (f.q, cont))
            return
        for s in f.blocks[head]["s"]:
            if s in body and s != head and s not in hb and self.reach(f, s, head, hb, body):
                ctx.bad("each", key + ":skips", where, "%s can leave out an element of %s" % (f.q, cont))
                return
        disp = set(f.dispatch_blocks().values())
        for b in body:
            if b == head or f.blocks[b].get("nr"):
                continue
            if any(self.P.leaves(f, f.n[e]) for e in f.blocks[b]["e"]):
                continue
            for s in f.blocks[b]["s"]:
                if s >= 0 and s not in body and s not in disp and self.reach(f, s, f.exit, set(), None):
                    ctx.bad("each", key + ":leaves", where, "%s can stop before the last element of %s" % (f.q, cont))
                    return
        msg = self.range(f, head, cont)
        if msg:
            ctx.bad("each", key + ":range", where, "%s %s" % (f.q, msg))
            return
        ctx.ok("each", 1, f.q)

    def reach(self, f, a, b, avoid, within):
        if a in avoid:
            return False
        todo, seen = [a], set()
        disp = set(f.dispatch_blocks().values())
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen or x < 0:
                continue
            seen.add(x)
            blk = f.blocks[x]
            if blk.get("nr") or any(self.P.leaves(f, f.n[e]) for e in blk["e"]):
                continue
            for s in blk["s"]:
                if s == b:
                    return True
                if s >= 0 and s not in avoid and s not in disp and (within is None or s in within):
                    todo.append(s)
        return False

    def loop(self, f, b):
        """(header, blocks) of the innermost loop around block b"""
        fw = self.closure(f, b)
        if b not in fw:
            return None
        body = {x for x in fw if b in self.closure(f, x)}
        heads = [x for x in body if any(x in f.blocks[p]["s"] for p in f.blocks if p not in body)]
        return (heads[0], body) if heads else None

    def closure(self, f, b):
        key = (f.u, "closure", b)
        if key not in self.memo:
            seen, todo = set(), [s for s in f.blocks[b]["s"] if s >= 0]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo += [s for s in f.blocks[x]["s"] if s >= 0]
            self.memo[key] = seen
        return self.memo[key]

    def range(self, f, head, cont):
        """what is wrong with the range a loop goes over"""
        t = f.blocks[head].get("t")
        if not t or t.get("c") is None or t["c"] < 0:
            return None
        i = t["c"]
        while f.n[i]["k"] in ("cast", "narrow", "definit"):
            i = f.n[i]["a"][0]
        n = f.n[i]
        a = list(n.get("a", ()))
        if n["k"] == "call" and isinstance(n.get("o"), int) and n["o"] >= 0:
            a = [n["o"]] + a
        if len(a) != 2 or n.get("op") not in ("<", "!=", ">"):
            return None
        v, bound = (a[0], a[1]) if n["op"] != ">" else (a[1], a[0])
        for j in subtree(f, bound):
            if f.n[j]["k"] == "bin" and f.n[j]["op"] in ("-", "/"):
                return "stops before the last of %s" % cont
        m = self.direct(f, v)
        if m is None:
            return None
        for _, d in f.nodes_of("decl"):
            for x in d["d"]:
                if x["n"] == m and isinstance(x.get("i"), int) and x["i"] >= 0:
                    c = f.n[x["i"]].get("c")
                    if c is not None and str(c) not in ("0", "false"):
                        return "does not begin with the first of %s" % cont
                    for j in subtree(f, x["i"]):
                        if f.n[j]["k"] == "bin" and f.n[j]["op"] == "+" or f.n[j]["k"] == "call" and (f.n[j].get("op") in ("+", "++") or f.n[j].get("q") == "std::next"):
                            return "does not begin with the first of %s" % cont
        return None

    # -- what is held back

    def pending(self, cls, m, first, then, ex):
        ctx = self.ctx
        for f in self.of(cls, m, "pending", "nothing is written"):
            h1, h2 = self.hits(f, first, ex=ex), self.hits(f, then)
            h2 = {i for i in h2 if i not in h1}
            if not h2:
                # what it comes before may be left to a helper
                h2 = {i for i, n in f.nodes_of("call") if self.isown(f, n) and n.get("f") and i not in h1 and self.P.fns.get(n["f"]) is not None
                      and any(self.does(self.P.fns[n["f"]], j, then, 0) for j in range(len(self.P.fns[n["f"]].n)))}
            p = Paths(self.P, f)
            self.cut(p, f, ex)
            wrong = set()

            def step(e, n, st, thrown):
                if thrown:
                    return None
                if e in h1:
                    return True
                if e in h2 and not st:
                    wrong.add(e)
                return st
            p.run(False, step)
            if wrong or not h1:
                ctx.bad("pending", "%s.%s:%s before %s" % (cls, m, first, then), f.loc(min(wrong)) if wrong else "%s:%d" % (f.file, f.line),
                        "%s reaches %s without %s" % (f.q, describe(then), describe(first)))
            else:
                ctx.ok("pending", 1, f.q)

    # -- stream buffers

    def streambufs(self):
        P, ctx = self.P, self.ctx
        seen = set()
        for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.u)):
            if f.name != "sync" or not f.blocks or not f.file.startswith("src/") or f.cls in seen:
                continue
            if not any(n["k"] == "call" and n.get("q", "").split("::")[-1] == "setp" for g in P.fns.values() if g.cls == f.cls for _, n in g.nodes_of("call")):
                continue
            seen.add(f.cls)
            cls = f.cls
            if cls in MESSAGES:
                continue
            where = "%s:%d" % (f.file, f.line)
            pend = {d["n"] for _, n in f.nodes_of("decl") for d in n["d"] if isinstance(d.get("i"), int) and d["i"] >= 0
                    and any(f.n[j]["k"] == "call" and f.n[j].get("q", "").split("::")[-1] == "pptr" for j in subtree(f, d["i"]))}
            ex = {x: False for x in pend}
            ex.update({"pptr": False, "isConnected": False, "target_": False})
            writes = self.hits(f, WRITES) | {i for i, n in f.nodes_of("call") if n.get("op") == "<<" or n.get("q", "").endswith("operator<<")}
            if not writes:
                writes = {i for i, n in f.nodes_of("call") if self.isown(f, n) and n.get("f") in P.fns and self.hits(P.fns[n["f"]], WRITES)}
            loops = [self.loop(f, b) for b in {f.elpos()[i][0] for i in writes}]
            ok = bool(writes) and (self.always(f, writes, ex) or any(loops) and not self.reach(f, f.entry, f.exit, {l[0] for l in loops if l}, None))
            if not ok:
                ctx.bad("streambuf", "%s:writes" % cls, where, "%s::sync() can end without writing what is pending" % cls)
            else:
                ctx.ok("streambuf", 1, f.q)
            # setp comes after the write, on every path that reports success
            empt = self.hits(f, "setp") | {i for i, n in f.nodes_of("call") if n.get("q", "").split("::")[-1] == "setp"}
            fail = set()
            for i, n in f.nodes_of("ret"):
                c = const(f, n["a"][0]) if n.get("a") else None
                if c is not None and c not in ("0", "false"):
                    fail.add(i)
            p = Paths(P, f)
            out, _ = p.run(0, lambda e, n, st, th: None if th else 1 if e in empt else 1 if e in fail else st)
            h = [i for i, n in f.nodes_of("call") if self.isown(f, n) and n.get("f") in P.fns and any(x["k"] == "call" and x.get("q", "").split("::")[-1] == "setp" for _, x in P.fns[n["f"]].nodes_of("call"))]
            if not all(out) and not h:
                ctx.bad("streambuf", "%s:emptied" % cls, where, "%s::sync() can report success with what it wrote still in the buffer" % cls)
            else:
                ctx.ok("streambuf", 1)
            bad = []
            if writes and empt:
                def step(e, n, st, th):
                    if th:
                        return None
                    if e in writes:
                        return 1
                    if e in empt and not st:
                        bad.append(e)
                    return st
                p = Paths(P, f)
                self.cut(p, f, ex)
                p.skip |= {(b, x) for b, x in ()}
                if not any(loops):
                    p.run(0, step)
                if bad:
                    ctx.bad("streambuf", "%s:order" % cls, f.loc(bad[0]), "%s::sync() empties the buffer before it is written" % cls)
            # where it begins and how much: all of it
            for i in writes:
                a = [x for x in f.n[i].get("a", ())]
                if any(f.n[j]["k"] == "bin" and f.n[j]["op"] in ("-", "+", "/") and any(const(f, z) not in (None, "0") for z in f.n[j]["a"]) for x in a for j in subtree(f, x)):
                    ctx.bad("streambuf", "%s:all" % cls, f.loc(i), "%s::sync() does not write all that is pending" % cls)
            for name, what in (("overflow", None), ("dtor", None)):
                gs = [g for g in P.fns.values() if g.cls == cls and g.blocks and (g.name == name or name == "dtor" and g.kind == "dtor")]
                if not gs:
                    ctx.bad("streambuf", "%s:%s:absent" % (cls, name), where, "%s has no %s of its own: what is pending is lost" % (cls, "destructor" if name == "dtor" else name + "()"))
                for g in gs:
                    if self.must(g, "this.sync|this.dumpBuffer", {}):
                        ctx.ok("streambuf", 1, g.q)
                    else:
                        ctx.bad("streambuf", "%s:%s" % (cls, name), "%s:%d" % (g.file, g.line), "%s can end without sync()" % g.q)
                    if name == "overflow":
                        put = {i for i, n in g.nodes_of("call") if n.get("q", "").split("::")[-1] in ("sputc", "sputn")}
                        put |= {i for i, n in g.nodes_of("assign") if any(g.n[j]["k"] == "call" and g.n[j].get("q", "").split("::")[-1] == "pptr" for j in subtree(g, n["a"][0]))}
                        if self.always(g, put, {"==": True, "sync": True, "dumpBuffer": False}):
                            ctx.ok("streambuf", 1)
                        else:
                            ctx.bad("streambuf", "%s:overflow:put" % cls, "%s:%d" % (g.file, g.line), "%s can drop the character that did not fit" % g.q)

    # -- growing

    def grow(self):
        P, ctx = self.P, self.ctx
        for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.u)):
            if not f.blocks or not f.file.startswith("src/") or f.kind in ("ctor", "dtor", "copyctor", "movector", "copyassign", "moveassign") or f.q in NOT_KEPT:
                continue
            gone = {}
            for i, n in f.nodes_of("delete"):
                m = self.direct(f, n["a"][0])
                if m and f.n[self.strip(f, n["a"][0])]["k"] == "mem" and n.get("arr"):
                    gone.setdefault(m, i)
            for m, i in sorted(gone.items()):
                news = [j for j, n in f.nodes_of("assign") if self.direct(f, n["a"][0]) == m]
                if not news:
                    continue
                rec = [r for r in P.recs.values() if r["q"] == f.cls and any(x["n"] == m for x in r["fields"])]
                copies = {j for j, n in f.nodes_of("call") if n.get("q", "").split("::")[-1] in ("memcpy", "memmove", "copy", "copy_n", "swap", "uninitialized_copy", "move")
                          and any(self.direct(f, x) == m for a in n.get("a", ()) for x in subtree(f, a))}
                copies |= {j for j, n in f.nodes_of("call") if self.isown(f, n) and n.get("f") in P.fns and n["f"] != f.u
                           and any(self.direct(P.fns[n["f"]], x) == m for _, c in P.fns[n["f"]].nodes_of("call") if c.get("q", "").split("::")[-1] in ("memcpy", "memmove", "copy")
                                   for a in c["a"][1:] for x in subtree(P.fns[n["f"]], a))}
                copies |= {j for j, n in f.nodes_of("assign") if any(f.n[x]["k"] == "idx" and self.direct(f, f.n[x]["a"][0]) == m for x in subtree(f, n["a"][1]))}
                pos = f.elpos()
                good = [j for j in copies if j in pos and i in pos and (f.dominates(j, i) or self.loop(f, pos[j][0]) and self.reach(f, pos[j][0], pos[i][0], set(), None))]
                # only if something was there: a fill count next to it
                if not rec or not self.filled(f, m):
                    continue
                if good:
                    ctx.ok("grow", 1, f.q)
                else:
                    ctx.bad("grow", "%s:%s" % (f.q, m), f.loc(i), "%s releases %s before what it held is copied" % (f.q, m))

    def strip(self, f, i):
        for _ in range(6):
            if f.n[i]["k"] in ("cast", "narrow", "definit"):
                i = f.n[i]["a"][0]
            else:
                break
        return i

    def filled(self, f, m):
        """a method of the class puts things into the array one after the other"""
        for g in self.P.fns.values():
            if g.cls != f.cls or not g.blocks or g.kind in ("ctor", "dtor"):
                continue
            for i, n in g.nodes_of("assign"):
                t = g.n[n["a"][0]]
                if t["k"] == "idx" and self.direct(g, t["a"][0]) == m and any(g.n[j]["k"] == "mem" and g.n[j].get("n") != m for j in subtree(g, t["a"][1])):
                    return True
            for i, n in g.nodes_of("call"):
                if n.get("q", "").split("::")[-1] in ("memcpy", "copy") and n.get("a"):
                    s = subtree(g, n["a"][0])
                    if any(g.n[j]["k"] == "mem" and g.n[j].get("n", "").split("::")[-1] == m for j in s) and any(g.n[j]["k"] == "bin" and g.n[j]["op"] == "+" for j in s):
                        return True
        return False


ASSIGNS = {"=", "+=", "-=", "*=", "/=", "++", "--", "<<=", ">>=", "|=", "&="}
NEGATED = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
# stream buffers that hand over whole messages
MESSAGES = {D + "UserBuffer": "each message goes to the member function for its kind"}
WRITES = "write|fwrite|::copy|std::copy|copy|sputn|::write"


def describe(s):
    out = []
    for x in s.split("|"):
        if x.startswith("="):
            out.append("the change of " + x[1:])
        elif x == "return":
            out.append("the end")
        else:
            out.append(x.replace("this.", "").lstrip(":") + "()")
    return " or ".join(out)
