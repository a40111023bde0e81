"""Results of operating system and library calls: looked at on every path, in a way that tells failure from success,
and failure has a consequence."""
from collections import defaultdict
from prog import kids
from rules.lockuse import subtree

NEG = """open openat creat read write pread pwrite lseek fcntl stat fstat lstat fsync fdatasync ftruncate truncate rename link unlink
 symlink rmdir mkdir chmod utime shmget shmdt semop semget semctl ftok pipe fork socket bind listen accept connect setsockopt
 sendto recvfrom send recv flock mkstemp readlink close dup2 dup munmap msync mlock shm_open shm_unlink kill waitpid select poll
 aio_read aio_write aio_fsync aio_suspend getsockname gethostname statvfs access tcgetattr tcsetattr execlp execv"""
NULLP = "fopen fdopen popen opendir mmap shmat realpath dlopen dlsym getcwd malloc calloc realloc strdup"
SHORT = "fread fwrite aio_return"
NZ = """fflush fclose fseeko fseek pclose closedir pthread_create pthread_join pthread_mutex_lock pthread_mutex_unlock
 pthread_mutex_init pthread_cond_init pthread_cond_wait pthread_cond_timedwait pthread_mutex_trylock pthread_rwlock_rdlock
 pthread_rwlock_wrlock pthread_rwlock_unlock pthread_atfork regcomp dlclose aio_error
 curl_easy_setopt curl_easy_perform curl_multi_perform curl_multi_add_handle
 BZ2_bzBuffToBuffCompress BZ2_bzBuffToBuffDecompress snappy_compress snappy_uncompress snappy_uncompressed_length
 LZ4_compress_default LZ4_decompress_safe aec_buffer_encode aec_buffer_decode shmctl ftello getaddrinfo"""
CLASS = {}
for s, c in ((NEG, "neg"), (NULLP, "null"), (SHORT, "short"), (NZ, "nz")):
    for x in s.split():
        CLASS[x] = c

# sample values: (failure values, success values)
SAMPLES = {"neg": ([-1], [0]), "many": ([-1], [0, 7]), "null": ([0], [4096]), "nz": ([-1, 22], [0]), "short": ([("short",)], [("full",)])}
XFER = ([-1], [("full",)])
WRAPPERS = {"eckit::fsync": "neg", "eckit::fdatasync": "neg", "eckit::Stat::stat": "neg", "eckit::Stat::fstat": "neg",
            "eckit::Stat::lstat": "neg", "eckit::MMap::munmap": "neg", "eckit::Shmget::shmget": "neg", "eckit::Shmget::shmdt": "neg",
            "eckit::MMap::mmap": "map", "eckit::Shmget::shmat": "map", "eckit::net::TCPSocket::write": "xfer",
            "eckit::net::TCPSocket::read": "xfer", "eckit::net::MultiSocket::write": "short", "eckit::net::MultiSocket::read": "xfer",
            "eckit::PooledFile::read": "xfer", "eckit::PooledFileDescriptor::read": "xfer",
            "eckit::PooledFileDescriptor::write": "short"}
CLASS.update(WRAPPERS)
SAMPLES["map"] = ([-1], [4096])
SAMPLES["xfer"] = XFER
MANY = """open openat creat fcntl shmget semget semctl ftok fork socket accept dup dup2 mkstemp readlink waitpid select poll lseek
 eckit::Shmget::shmget""".split()
for x in MANY:
    CLASS[x] = "many"
for x in "read write pread pwrite sendto send recv recvfrom".split():
    CLASS[x] = "xfer"
LZ4 = {"LZ4_compress_default": ([0], [7]), "LZ4_decompress_safe": ([-1], [7]), "ftello": ([-1], [("full",)]), "mmap": ([-1], [4096]),
       "shmat": ([-1], [4096]), "getcwd": ([0], [4096])}

# a result not needed there: function -> {called: reason}; "*" any function
BEST = "only asked for, the work does not depend on it"
TTY = "echo to the user's terminal"
CLEAN = "clean-up of a descriptor that was only read, or whose failure is being reported already"
RELEASES = ("close", "closedir", "munmap", "eckit::MMap::munmap", "pclose", "shmdt", "eckit::Shmget::shmdt")
EXEMPT = {
    "eckit::output": {"write": TTY}, "eckit::processCode": {"write": TTY, "kill": "suspends itself"},
    "eckit::exitRaw": {"tcsetattr": TTY}, "eckit::nextChar": {"read": TTY},
    "eckit::UserInput::saveHistory": {"fclose": "history of the command line"},
    "eckit::UserInput::loadHistory": {"fclose": "history of the command line", "calloc": "history of the command line"},
    "eckit::PipeHandler::run": {"kill": "signals itself", "execlp": "comes back only if it failed"},
    "eckit::KillCmd::kill": {"kill": "reported to the user"}, "eckit::StopCmd::execute": {"kill": "the process may be gone"},
    "eckit::Monitor::kill": {"kill": "the process may be gone"},
    "eckit::ProcessControler::stop": {"kill": "the process may be gone"},
    "eckit::SignalHandler::interrupt": {"kill": "signals itself"},
    "eckit::handle_panic": {"kill": "the process is dying"}, "eckit::handle_panic_no_log": {"kill": "the process is dying"},
    "eckit::maths::(anon)::custom_signal_handler": {"write": "last words of a dying process"},
    "eckit::testing::fork_and_exec": {"kill": "test support", "waitpid": "test support", "execv": "does not return"},
    "eckit::PipeApplication::launch": {"execlp": "does not return"},
    "eckit::fsync": {"eckit::Stat::fstat": "then it is synced all the same"},
    "eckit::LocalPathName::syncParentDirectory": {"closedir": CLEAN, "fsync": "not every file system can sync a directory",
                                                  "eckit::fsync": "not every file system can sync a directory"},
    "eckit::FileStream::close": {"closedir": CLEAN},
    "eckit::PipeStream::parentProcess": {"close": CLEAN},
    "eckit::PipeStream::childProcess": {"close": CLEAN},
    "openfam::mock::(anon)::openOrCreateShm": {"close": CLEAN},
    "openfam::mock::FamMockSession::ShmHandle::close": {"close": CLEAN, "munmap": CLEAN},
    "openfam::mock::FamMockSession::ShmHandle::unlink": {"shm_unlink": CLEAN},
    "eckit::net::set_socket_buffer_size": {"setsockopt": BEST}, "eckit::net::TCPSocket::createSocket": {"setsockopt": BEST},
    "eckit::EasyCURLResponseStream::waitForData": {"select": "used as a sleep"},
    "eckit::net::TCPSocket::read": {"write": "writes nothing, to see whether the peer is there"},
    "eckit::TCPTarget::write": {"eckit::net::TCPSocket::write": "log text"},
}


def peval(f, i, env, depth=0):
    """value of an expression under env {node id or ('v', var): value}; None: unknown"""
    if i < 0 or depth > 30:
        return None
    if i in env:
        return env[i]
    n = f.n[i]
    k = n["k"]
    if n.get("c") is not None and k != "ref":
        try:
            return int(n["c"])
        except ValueError:
            return None
    if k == "null":
        return 0
    if k == "ref" or k == "mem":
        if k == "mem" and "own" in env and n.get("v") == env["own"] and f.n[n["b"]]["k"] != "this":
            return None         # the field of another object
        v = env.get(("v", n.get("v")))
        if v is None and n.get("c") is not None:
            return int(n["c"])
        return v
    if k in ("cast", "narrow", "definit") or (k == "other" and len(n.get("a", ())) == 1):
        v = peval(f, n["a"][0], env, depth + 1)
        if isinstance(v, int) and v < 0 and unsigned(n.get("t", "")):
            v += 1 << (64 if "long" in n["t"] or "size_t" in n["t"] else 32)
        return v
    if k == "assign" and n["op"] == "=":
        return peval(f, n["a"][1], env, depth + 1)
    if k == "un" and n["op"] == "*" and f.n[n["a"][0]].get("q") == "__errno_location":
        return env.get("errno")
    if k == "un":
        v = peval(f, n["a"][0], env, depth + 1)
        if v is None:
            return None
        if n["op"] == "!":
            return int(not v) if isinstance(v, int) else None
        if n["op"] == "-" and isinstance(v, int):
            return -v
        if n["op"] == "~" and isinstance(v, int):
            return ~v
        return v if n["op"] == "+" else None
    if k == "bin":
        op = n["op"]
        a, b = peval(f, n["a"][0], env, depth + 1), peval(f, n["a"][1], env, depth + 1)
        if op == ",":
            return b
        if op == "&&":
            if a == 0 or b == 0:
                return 0
            return 1 if a is not None and b is not None else None
        if op == "||":
            if (isinstance(a, int) and a) or (isinstance(b, int) and b):
                return 1
            return 0 if a == 0 and b == 0 else None
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, tuple):
                o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op) if flip else op
                if y is None:       # compared with what was asked for
                    if o in ("==", ">="):
                        return int(x[0] == "full")
                    if o in ("!=", "<"):
                        return int(x[0] != "full")
                    return None
                if isinstance(y, int) and y <= 0:
                    if o == "<":
                        return 0
                    if o == ">=":
                        return 1
                    if y == 0 and x[0] != "full":
                        return None
                    return int(o in ("!=", ">"))
                if o in ("==", ">="):
                    return int(x[0] == "full")
                if o in ("!=", "<"):
                    return int(x[0] != "full")
                return None
        if op in ("==", "!=") and not env.get("strict") and ((minus(a) and b is None) or (minus(b) and a is None)):
            return int(op == "!=")
        if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
            return None
        try:
            return {"==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b),
                    "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "&": lambda: a & b, "|": lambda: a | b,
                    "+": lambda: a + b, "-": lambda: a - b}[op]()
        except KeyError:
            return None
    if k == "cond":
        c = peval(f, n["a"][0], env, depth + 1)
        if c is None or isinstance(c, tuple):
            return None
        return peval(f, n["a"][1 if c else 2], env, depth + 1)
    return None


def effective(f, c):
    """the operand a two-way branch really tests: the operands before it have branches of their own"""
    while c is not None:
        n = f.n[c]
        if n["k"] == "bin" and n["op"] in ("&&", "||", ","):
            c = n["a"][1]
        elif n["k"] in ("cast", "narrow") and f.n[n["a"][0]]["k"] == "bin" and f.n[n["a"][0]]["op"] in ("&&", "||"):
            c = n["a"][0]
        else:
            return c


def minus(v):
    return isinstance(v, int) and (v == -1 or v >= 1 << 31)


def unsigned(t):
    return t.startswith("unsigned") or t in ("size_t", "std::size_t", "uint64_t", "uint32_t")


LOGGY = ("eckit::Log::", "eckit::Channel", "std::basic_ostream", "std::operator<<", "eckit::operator<<", "std::endl",
         "std::cerr", "strerror", "std::ostream", "__errno_location", "std::basic_string")


def consequence(f, i):
    n = f.n[i]
    k = n["k"]
    if k in ("throw", "assign", "ret"):
        return True
    if k == "un" and n["op"] in ("++", "--"):
        return True
    if k == "call":
        q = n.get("q", "")
        if n.get("op") == "=":
            return True
        return not q.startswith(LOGGY) and not n.get("op") and not n.get("mc")
    return False


class Use:
    """how the result of call `c` is used in f: 'opaque' (handed on), or the conditions it decides"""

    def __init__(self, P, f, c):
        self.P, self.f, self.c = P, f, c
        self.opaque = False
        self.vars = set()
        self.conds = []
        self.stores = []
        self.up(c)

    def up(self, i, depth=0):
        f = self.f
        par = [p for p in f.parents().get(i, ())]
        for b in f.blocks.values():
            t = b.get("t")
            if t and t.get("c") == i:
                self.conds.append((b["i"], i))
        for p in par:
            n = f.n[p]
            k = n["k"]
            if k == "cast" and n["t"] == "void":
                continue
            if k in ("cast", "narrow", "un", "bin", "cond", "definit", "other", "mem", "idx"):
                if k == "bin" and n["op"] == "," and n["a"][0] == i:
                    continue
                if k in ("mem", "idx") or (k == "un" and n["op"] == "*"):
                    self.opaque = True      # dereferenced: the null rule looks at that
                    continue
                self.up(p, depth + 1)
            elif k == "assign" and n["a"][1] == i:
                self.store(n["a"][0])
                self.up(p, depth + 1)
            elif k == "assign":
                self.opaque = True
            elif k == "decl":
                for d in n["d"]:
                    if d.get("i") == i:
                        if d["vk"] == "local":
                            self.vars.add(d["v"])
                        else:
                            self.opaque = True
            elif k in ("call", "ctor", "ret", "throw", "init", "initlist", "new", "lambda", "delete"):
                self.opaque = True
            else:
                self.opaque = True

    def store(self, i):
        n = self.f.n[i]
        if n["k"] == "ref" and n.get("vk") in ("local", "param") and not n.get("isref"):
            self.vars.add(n["v"])
        elif n["k"] in ("mem", "ref"):
            self.stores.append(n.get("v"))
            self.vars.add(n["v"])
        else:
            self.opaque = True


def var_uses(f, v):
    return [i for i, n in enumerate(f.n) if n["k"] in ("ref", "mem") and n.get("v") == v]


def stores_to(f, v):
    out = set()
    for i, n in enumerate(f.n):
        if n["k"] == "assign" and n["op"] == "=" and f.n[n["a"][0]].get("v") == v and f.n[n["a"][0]]["k"] in ("ref", "mem"):
            out.add(i)
        if n["k"] == "decl" and any(d.get("v") == v for d in n["d"]):
            out.add(i)
    return out


def lhs_of(f, v):
    return {f.n[s]["a"][0] for s in stores_to(f, v) if f.n[s]["k"] == "assign"}


def conds_on(f, ids):
    """terminator conditions depending on one of the nodes"""
    out = []
    for b in f.blocks.values():
        t = b.get("t")
        if t and t.get("c") is not None:
            todo, seen = [t["c"]], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in ids:
                    out.append((b["i"], t["c"]))
                    break
                n = f.n[x]
                if n["k"] not in ("lambda",):
                    todo += list(kids(n))
    return out


def unread(f, c, reads, kills):
    """a path from the call to a normal exit, or to a new value, on which the result is not read"""
    pos = f.elpos()
    if c not in pos:
        return None
    b0, i0 = pos[c]
    seen = set()
    todo = [(b0, i0 + 1)]
    while todo:
        b, i = todo.pop()
        blk = f.blocks[b]
        stop = False
        for e in blk["e"][i:]:
            if e in reads or f.n[e]["k"] == "throw":
                stop = True
                break
            if e in kills:
                return e
        if stop or blk.get("nr"):
            continue
        t = blk.get("t")
        if t and t.get("c") in reads:
            continue
        if b == f.exit:
            return -1
        for s in f.succs(b):
            if s == f.exit:
                return -1
            if s not in seen:
                seen.add(s)
                todo.append((s, 0))
    return None


def ancestors(f, i):
    out, todo = set(), [i]
    while todo:
        x = todo.pop()
        for p in f.parents().get(x, ()):
            if p not in out:
                out.add(p)
                todo.append(p)
    return out


def decide(f, c, vars, conds, samples):
    """[(block, index of the edge failure takes)] for conditions that tell failure from success"""
    fails, goods = samples
    out = []
    for b, ci in conds:
        res = []
        for vals in (fails, goods):
            r = set()
            for v in vals:
                env = {c: v}
                for x in vars:
                    env[("v", x)] = v
                r.add(truth(peval(f, effective(f, ci), env)))
            res.append(r)
        t = f.blocks[b].get("t", {})
        if t.get("k") == "SwitchStmt":
            out.append((b, None))
            continue
        if None in res[0] or (None in res[1] and len(res[1]) == 1):
            # partly decided conditions (a && b): the undecided side does not count
            continue
        if res[0] & (res[1] - {None}) and res[0] == res[1]:
            continue
        for r in res[0]:
            out.append((b, 0 if r else 1))
    return out


def truth(v):
    if v is None or isinstance(v, tuple):
        return None
    return int(bool(v))


def walk(f, c, vars, val, kills, err=None):
    """blocks visited when the call yields val; [] of element lists met on the way: [(block, [elements])]"""
    b0, i0 = f.elpos()[c]
    out = {}
    todo = [(b0, i0 + 1, True)]
    seen = set()
    ends = set()
    while todo:
        b, i, known = todo.pop()
        if (b, known) in seen and i == 0:
            continue
        if i == 0:
            seen.add((b, known))
        blk = f.blocks[b]
        stop = False
        for x in range(i, len(blk["e"])):
            e = blk["e"][x]
            if e == c:
                stop = True     # tried again
                break
            out.setdefault(b, set()).add(e)
            if e in kills:
                known = False
        out.setdefault(b, set())
        if stop or blk.get("nr"):
            continue
        if b == f.exit:
            ends.add(b)
            continue
        ss = blk["s"]
        t = blk.get("t")
        if known and t and t.get("c") is not None and len(ss) == 2:
            env = {c: val, "errno": err}
            for v in vars:
                env[("v", v)] = val
            r = truth(peval(f, effective(f, t["c"]), env))
            if r is not None:
                ss = [ss[0 if r else 1]]
        if known and t and t["k"] == "SwitchStmt" and t.get("c") is not None:
            env = {c: val}
            for v in vars:
                env[("v", v)] = val
            r = peval(f, t["c"], env)
            if isinstance(r, int):
                hit = [s for s in ss if s >= 0 and str(r) in f.blocks[s].get("case", ())]
                ss = hit or [s for s in ss if s >= 0 and "case" not in f.blocks[s]]
        for s in ss:
            if s >= 0:
                todo.append((s, 0, known))
    return out


HARD = (None, 5, 28)     # EIO and ENOSPC are failures whatever the call


def reacts(f, c, vars, kills, samples, consumers):
    """under failure, something happens that does not happen under success (or the value itself goes on)"""
    good = {}
    for v in samples[1]:
        for b, es in walk(f, c, vars, v, kills).items():
            good.setdefault(b, set()).update(es)
    return all(reacts1(f, c, vars, kills, samples, consumers, good, err) for err in HARD)


def reacts1(f, c, vars, kills, samples, consumers, good, err):
    fail = {}
    for v in samples[0]:
        for b, es in walk(f, c, vars, v, kills, err).items():
            fail.setdefault(b, set()).update(es)
    gall = set().union(*good.values()) if good else set()
    for b, es in fail.items():
        for e in es:
            if e in consumers:
                return True
            if e not in gall and consequence(f, e):
                return True
    # success does something failure does not: an early way out
    if f.exit in fail:
        fall = set().union(*fail.values())
        if any(consequence(f, e) for b, es in good.items() for e in es if e not in fall and f.n[e]["k"] != "ret"):
            return "skips"
    return False


def run(P, ctx):
    ctx.rule("result-read", "the result of each call of a function that reports failure through it is read on every path "
             "before it is replaced or the function ends normally")
    ctx.rule("result-decides", "the test made of it comes out differently for failure (-1, null, nonzero, short count) than "
             "for success")
    ctx.rule("failure-acts", "on the branch failure takes something happens besides logging: an exception, an early return, "
             "another value, another call")
    handles = {r["q"] for r in P.subclasses("eckit::DataHandle")} | {"eckit::DataHandle"}
    for f in P.fns.values():
        if not f.file.startswith("src/") or f.file.startswith("src/eckit/contrib"):
            continue
        reach = f.reachable_nodes()
        for i, n in enumerate(f.n):
            if n["k"] != "call" or i not in reach:
                continue
            name = n.get("q")
            if name not in CLASS:
                name = transfer(P, n, handles)
                if not name:
                    continue
            ex = EXEMPT.get(f.q, {})
            if name in ex or name in EXEMPT.get("*", ()):
                continue
            if name in RELEASES and f.kind == "dtor" or name == "close" and f.file.startswith("src/eckit/net/"):
                check(P, Quiet(ctx), f, i, n, name)     # a destructor has nobody to tell; a socket has no data to lose by closing
                continue
            check(P, ctx, f, i, n, name)
    ctx.floor("result-read", 250)
    ctx.floor("result-decides", 120)


class Quiet:
    def __init__(self, ctx):
        self.ctx = ctx

    def bad(self, *a):
        pass

    def ok(self, *a, **k):
        self.ctx.ok(*a, **k)


def transfer(P, n, handles):
    """read() and write() of the data handles"""
    q = n.get("q") or ""
    c, _, m = q.rpartition("::")
    return q if m in ("read", "write") and c in handles and n.get("t") == "long" else None


def shown(f, a, anc):
    """it is only written out for somebody to read"""
    return any(f.n[x]["k"] == "call" and f.n[x].get("op") == "<<" and "ostream" in (f.n[x].get("t") or "") for x in anc) and \
        not any(f.n[x]["k"] in ("ret", "init", "idx") for x in anc)


def check(P, ctx, f, i, n, name):
    key = "%s:%s" % (f.q, name)
    u = Use(P, f, i)
    samples = LZ4.get(name, SAMPLES[CLASS.get(name) or ("short" if name.endswith("::write") else "xfer")])
    if not u.opaque and not u.conds and not u.vars:
        ctx.bad("result-read", key, f.loc(i), "the result of %s() is ignored in %s" % (name, f.q))
        return
    if u.stores:
        # kept in a member: whoever reads it next decides
        ctx.ok("result-read")
    elif u.vars and not u.conds and not u.opaque:
        reads, kills = set(), set()
        for v in u.vars:
            lh = lhs_of(f, v)
            reads |= {x for x in var_uses(f, v) if x not in lh}
            kills |= stores_to(f, v)
        kills -= ancestors(f, i)
        for m, x in enumerate(f.n):
            if x["k"] == "lambda" and any(cp.get("v") in u.vars for cp in x.get("caps", ())):
                reads.add(m)
        r = unread(f, i, reads, kills)
        if r is not None:
            ctx.bad("result-read", key, f.loc(i), "the result of %s() in %s is not looked at on every path (%s)" %
                    (name, f.q, "the function ends" if r < 0 else "it is replaced at line %s" % f.n[r].get("l")))
            return
        ctx.ok("result-read")
    else:
        ctx.ok("result-read")
    conds = list(u.conds)
    opaque = u.opaque
    for v in u.vars:
        lh = lhs_of(f, v)
        ids = {x for x in var_uses(f, v) if x not in lh}
        conds += conds_on(f, ids)
        cn = set()
        for b, ci in conds_on(f, ids):
            cn.add(ci)
        for x in ids:
            top = x
            anc = ancestors(f, x)
            if any(f.n[a]["k"] in ("call", "ret", "ctor", "throw", "init", "idx") and not shown(f, a, anc) for a in anc):
                opaque = True
    if u.stores:
        after = blocks_after(f, i)
        conds = [c for c in conds if c[0] in after]
    if opaque and not conds:
        return
    if u.stores and not conds:
        if key not in LATER and not looks_later(P, f, u.stores):
            ctx.bad("result-decides", key, f.loc(i), "%s keeps the result of %s() in a field, and does not tell failure from success" % (f.q, name))
        return
    dec = decide(f, i, u.vars, conds, samples)
    if not dec:
        if opaque or u.stores:
            return
        ctx.bad("result-decides", key, f.loc(i), "%s tests the result of %s() in a way that does not tell failure from success" %
                (f.q, name))
        return
    ctx.ok("result-decides", sample="%s %s" % (key, f.loc(i)))
    kills = set()
    consumers = set()
    for v in u.vars:
        kills |= stores_to(f, v)
        lh = lhs_of(f, v)
        for x in var_uses(f, v):
            if x not in lh:
                for a in ancestors(f, x):
                    if f.n[a]["k"] in ("ret", "init") or (f.n[a]["k"] == "assign" and x not in subtree(f, f.n[a]["a"][0])) or (f.n[a]["k"] == "call" and not logging(f.n[a])):
                        consumers.add(a)
    kills -= ancestors(f, i)
    r = reacts(f, i, u.vars, kills, samples, consumers)
    if not r:
        ctx.bad("failure-acts", key, f.loc(dec[0][0] in f.blocks and f.blocks[dec[0][0]]["t"]["c"]),
                "when %s() fails %s carries on as if it had not" % (name, f.q))
    else:
        ctx.ok("failure-acts")


def blocks_after(f, i):
    pos = f.elpos()
    top = i
    while top not in pos:
        ps = f.parents().get(top, ())
        if not ps:
            return set(f.blocks)
        top = ps[0]
    b = pos[top][0]
    out, work = {b}, [b]
    while work:
        for s in f.succs(work.pop()):
            if s not in out:
                out.add(s)
                work.append(s)
    return out


# the result is looked at where it is used
LATER = {"eckit::StdDir::StdDir:opendir", "eckit::UserInput::loadHistory:strdup", "eckit::current:malloc", "eckit::processCode:strdup"}


def looks_later(P, f, vs):
    """a function that f calls reads the field that holds the result"""
    for n in f.n:
        if n["k"] in ("call", "ctor"):
            g = P.fns.get(n.get("f"))
            if g is not None and g.u != f.u and any(m["k"] == "mem" and m.get("v") in vs and m.get("r") for m in g.n):
                return True
    return False


def logging(n):
    return n.get("q", "").startswith(LOGGY) or bool(n.get("op")) or n.get("mc")
