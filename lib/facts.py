"""Fact base: extraction (via tool/efacts, a libTooling program) and loading.

The facts are recomputed from /repo's current working tree; a per-translation-unit cache, keyed by the content of
everything the unit includes from the repository (and of the extractor), only avoids repeating identical work.
"""
import os, re, sys, json, hashlib, marshal, zlib, shlex, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ECKIT_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TOOLSRC = os.path.join(VERIF, "tool", "efacts.cc")
INSTANCES = os.path.join(VERIF, "tool", "instances")
BUILD = os.path.join(REPO, "_build")
FALLBACK = os.path.join(VERIF, "tool", "fallback")


class AnalysisError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


# ---------------------------------------------------------------------------------------------- the extractor

def tool_path():
    """Build the extractor if there is none for this source."""
    key = sha(read(TOOLSRC))
    d = os.path.join(CACHE, "bin")
    exe = os.path.join(d, "efacts-" + key)
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    tmp = exe + ".tmp%d" % os.getpid()
    llvm = "/usr/lib/llvm-18"
    cmd = ["clang++", "-O1", "-std=c++17", "-fno-rtti", "-I%s/include" % llvm, "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", TOOLSRC, "-o", tmp,
           "-L%s/lib" % llvm, "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("extractor does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


# ---------------------------------------------------------------------------------------------- compile commands

def compdb():
    """[(file, dir, args)] for the library and tool sources of the repository."""
    entries = None
    if os.path.exists(os.path.join(BUILD, "build.ninja")):
        r = subprocess.run(["ninja", "-C", BUILD, "-t", "compdb"], capture_output=True, text=True)
        if r.returncode == 0:
            out = r.stdout
            i = out.find("[")
            try:
                raw = json.loads(out[i:])
                entries = []
                for e in raw:
                    f = os.path.normpath(os.path.join(e["directory"], e["file"]))
                    if not f.endswith((".cc", ".cpp")):
                        continue
                    entries.append((f, simplify(shlex.split(e["command"]))))
            except Exception:
                entries = None
    if not entries:
        with open(os.path.join(FALLBACK, "compdb.json")) as fh:
            entries = [(e[0], e[1]) for e in json.load(fh)]
    seen, res = set(), []
    for f, a in entries:
        if not f.startswith(os.path.join(REPO, "src") + "/") or f in seen or not os.path.exists(f):
            continue
        seen.add(f)
        res.append((f, a))
    res.sort()
    return res


def simplify(cmd):
    out = []
    it = iter(cmd[1:])
    for x in it:
        if x in ("-I", "-isystem", "-D", "-U", "-include"):
            out += [x, next(it)]
        elif x.startswith(("-I", "-D", "-U", "-std=", "-isystem", "-fopenmp")):
            if x == "-fopenmp":
                continue
            out.append(x)
    return out


INC = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]', re.M)


class Includes:
    def __init__(self):
        self.direct = {}
        self.text = {}
        self.clo = {}

    def content(self, p):
        if p not in self.text:
            self.text[p] = read(p)
        return self.text[p]

    def resolve(self, inc, frm, dirs):
        inc = inc.decode(errors="replace")
        for d in [os.path.dirname(frm)] + dirs:
            p = os.path.normpath(os.path.join(d, inc))
            if p.startswith((REPO + "/", VERIF + "/")) and os.path.isfile(p):
                return p
        return None

    def closure(self, f, dirs):
        key = (f, tuple(dirs))
        if key in self.clo:
            return self.clo[key]
        seen, todo = set(), [f]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            k = (x, tuple(dirs))
            if k not in self.direct:
                self.direct[k] = [self.resolve(i, x, dirs) for i in INC.findall(self.content(x))]
            todo += [y for y in self.direct[k] if y and y not in seen]
        self.clo[key] = seen
        return seen


def incdirs(args):
    r, it = [], iter(args)
    for a in it:
        if a in ("-I", "-isystem"):
            r.append(next(it))
        elif a.startswith("-I"):
            r.append(a[2:])
    return r


def plan():
    """[(file, args, owned headers, key)]"""
    tool = sha(read(TOOLSRC))
    db = compdb()
    if not os.path.exists(os.path.join(BUILD, "src/eckit/eckit_config.h")):
        # no build tree: use the committed copy of the generated headers
        db = [(f, ["-I" + os.path.join(FALLBACK, "include")] + a) for f, a in db]
    omp = ["-idirafter", os.path.join(VERIF, "tool", "include")]
    base = None
    for f, a in db:
        if f.endswith("src/eckit/io/DataHandle.cc"):
            base = a
    if base is None:
        raise AnalysisError("anchor translation unit io/DataHandle.cc not found in the compilation database")
    for x in sorted(os.listdir(INSTANCES)):
        db.append((os.path.join(INSTANCES, x), base))
    inc = Includes()
    owner = {}
    clos = {}
    for f, a in db:
        clos[f] = inc.closure(f, incdirs(a))
    for f, a in db:
        for h in clos[f]:
            if h == f:
                continue
            stem = os.path.splitext(h)[0] == os.path.splitext(f)[0]
            if h not in owner or (stem and not owner[h][1]):
                owner[h] = (f, stem)
    own = {}
    for h, (f, _) in owner.items():
        own.setdefault(f, []).append(h)
    res = []
    for f, a in db:
        hs = sorted(own.get(f, []))
        key = sha(tool, json.dumps(a), f, json.dumps(hs), *[x for h in sorted(clos[f]) for x in (h, inc.content(h))])
        res.append((f, a + omp, hs, key, clos[f]))
    # headers that no translation unit includes are analysed through a unit of their own? report them instead
    allh = set()
    for d, _, fs in os.walk(os.path.join(REPO, "src", "eckit")):
        for x in fs:
            if x.endswith(".h"):
                allh.add(os.path.join(d, x))
    return res, sorted(allh - set(owner))


def extract_one(job):
    exe, f, args, hs, key = job
    out = os.path.join(CACHE, "facts", key[:2], key)
    if os.path.exists(out):
        return f, out, 0, ""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    d = tempfile.mkdtemp(prefix="efacts")
    try:
        own = os.path.join(d, "own")
        with open(own, "w") as fh:
            fh.write("\n".join(hs) + "\n")
        js = os.path.join(d, "out")
        root = REPO + "/"
        r = subprocess.run([exe, js, root, own, f, "--"] + args + ["-w"], capture_output=True, text=True, cwd=d)
        if r.returncode:
            return f, None, 1, r.stderr[-2000:]
        recs = []
        with open(js, "rb") as fh:
            for line in fh:
                recs.append(json.loads(line))
        blob = zlib.compress(marshal.dumps(recs), 1)
        tmp = out + ".tmp%d" % os.getpid()
        with open(tmp, "wb") as fh:
            fh.write(blob)
        os.replace(tmp, out)
        return f, out, 1, ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def extract(select=None, jobs=8):
    """select: predicate on the path (relative to REPO) of a unit."""
    exe = tool_path()
    p, orphan = plan()
    work = []
    for f, a, hs, key, clo in p:
        rel = os.path.relpath(f, REPO) if f.startswith(REPO + "/") else "verif/" + os.path.basename(f)
        if select is None or select(rel, clo):
            work.append((exe, f, a, hs, key))
    fresh, failed, outs = 0, [], []
    with ThreadPoolExecutor(jobs) as ex:
        for f, out, n, err in ex.map(extract_one, work):
            fresh += n
            if out is None:
                failed.append((f, err))
            else:
                outs.append((f, out))
    return outs, failed, fresh, orphan


def prune(keep_days=5):
    pass
