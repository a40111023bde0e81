"""Running one property's rules: obligations, violations, known findings, evidence."""
import os, sys, json, time, traceback
import facts
from facts import VERIF, REPO, AnalysisError

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings():
    """'finding: property=<id> key=<key> | text'  ('fixed:' lines suppress nothing)"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].partition("|")
                d = dict(x.split("=", 1) for x in head.split(None, 1)[0:1] + head.split(None, 1)[1:] if "=" in x)
                out[(d["property"].strip(), d["key"].strip())] = text.strip()
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rules = {}          # rule -> [checked, text]
        self.samples = []
        self.bads = []
        self.notes = []
        self.units = 0
        self.skipped = {}

    def rule(self, name, text):
        self.rules.setdefault(name, {"text": text, "obligations": 0, "violations": 0, "floor": 0})

    def ok(self, rule, n=1, sample=None):
        self.rules[rule]["obligations"] += n
        if sample and sum(1 for s in self.samples if s.startswith(rule + ":")) < 4:
            self.samples.append(rule + ": " + sample)

    def bad(self, rule, key, where, msg, counted=False):
        """key: stable identity of the construct (no line numbers)"""
        if not counted:
            self.rules[rule]["obligations"] += 1
        key = rule + ":" + key
        if any(b["key"] == key and b["where"] == where for b in self.bads):
            return
        self.rules[rule]["violations"] += 1
        self.bads.append({"rule": rule, "key": key, "where": where, "msg": msg})

    def floor(self, rule, n):
        """fewer obligations than this means the analysis lost sight of the code: no answer, not a pass"""
        self.rules[rule]["floor"] = n

    def note(self, s):
        self.notes.append(s)


_prog = {}


def program():
    if "P" not in _prog:
        import prog
        _prog["P"] = prog.Program()
    return _prog["P"]


def locks():
    if "L" not in _prog:
        import locks as lk
        _prog["L"] = lk.Locks(program()).build()
    return _prog["L"]


def run(pid, spec, tier, seed):
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    P = program()
    spec["run"](P, ctx)
    known = known_findings()
    fresh, listed = [], []
    for b in ctx.bads:
        (listed if (pid, b["key"]) in known else fresh).append(b)
    low = [r for r, d in ctx.rules.items() if d["obligations"] < d["floor"]]
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ob = sum(d["obligations"] for d in ctx.rules.values())
    cov = {
        "explanation": "static analysis of the current source tree; each obligation is one construct (call site, "
                       "access, class, path) examined under the rule named",
        "translation_units": len(P.units), "functions": len(P.fns), "records": len(P.recs),
        "units_reextracted_this_run": P.fresh,
        "headers_not_reached": len(P.orphans),
        "obligations": ob, "discharged": ob - len(ctx.bads),
        "names_read_as": ["%s: %s as %s" % x for x in P.renamed[:20]],
        "rules": ctx.rules, "samples": ctx.samples[:24], "notes": ctx.notes[:40],
        "violations": fresh[:50], "known_findings": [b["key"] for b in listed],
    }
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "other"), "coverage": cov,
               "wall_s": round(time.time() - t0, 2)}, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    for r, d in ctx.rules.items():
        print("%s %-28s %5d obligations, %d violations" % (pid, r, d["obligations"], d["violations"]))
    done = set()
    for b in listed:
        if b["key"] not in done:
            done.add(b["key"])
            print("KNOWN-FINDING: property=%s %s [%s at %s]" % (pid, known[(pid, b["key"])] or b["msg"], b["key"], b["where"]))
    if fresh:
        rp = os.path.join(evdir, pid + ".violations.txt")
        with open(rp, "w") as fh:
            for b in fresh:
                fh.write("%s\n  at   %s\n  key  %s\n  rule %s\n\n" % (b["msg"], b["where"], b["key"], ctx.rules[b["rule"]]["text"]))
        for b in fresh[:20]:
            print("  %s: %s [%s]" % (b["where"], b["msg"], b["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if low:
        for r in low:
            print("%s: rule %s found %d obligations, expected at least %d: the analysis does not see the code" %
                  (pid, r, ctx.rules[r]["obligations"], ctx.rules[r]["floor"]))
        return 3
    return 0
