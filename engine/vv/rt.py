"""Check runtime: obligations, findings, known findings, evidence, exit status.

exit 0  every obligation held (KNOWN-FINDING lines for listed findings)
exit 1  a VIOLATION line: an obligation that is not listed failed
exit 3  the analysis could not decide (vanished anchor, too few instances)
"""
import json, os, re, sys, time, traceback
from . import prog
from .prog import AnalysisError, VERIF, rel

EVID = os.environ.get("VV_EVIDENCE", os.path.join(VERIF, "evidence"))


class Finding:
    def __init__(self, rule, where, key, msg):
        self.rule, self.where, self.key, self.msg = rule, where, key, msg


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.rules = {}      # rule -> {"what","obligations","discharged"}
        self.findings = []
        self.samples = {}
        self.counts = {}
        self.assumptions = []
        self.notes = []
        self.broken = []

    def rule(self, name, what):
        self.rules.setdefault(name, {"rule": what, "obligations": 0, "discharged": 0})

    def ok(self, rule, sample=None):
        r = self.rules[rule]
        r["obligations"] += 1
        r["discharged"] += 1
        if sample is not None:
            s = self.samples.setdefault(rule, [])
            if len(s) < 4:
                s.append(sample)

    def bad(self, rule, where, key, msg):
        self.rules[rule]["obligations"] += 1
        f = Finding(rule, where, key, msg)
        if any(g.key == key and g.rule == rule for g in self.findings):
            return
        self.findings.append(f)

    def check(self, cond, rule, where, key, msg, sample=None):
        if cond:
            self.ok(rule, sample if sample is not None else key)
        else:
            self.bad(rule, where, key, msg)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, n, least, what):
        """The number of instances confirmed by hand: fewer means the analysis lost sight of the code."""
        self.counts[what] = n
        if n < least:
            self.broken.append("%s: found %d, expected at least %d" % (what, n, least))

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


def known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def slug(s):
    return re.sub(r"\s+", "_", s)


def run(pid, fn, tier):
    t0 = time.time()
    R = Report(pid)
    err = None
    try:
        P = prog.load()
        R.counts["translation units"] = len(P.units)
        R.counts["functions in program"] = len(P.fns)
        fn(P, R, tier)
        if not R.rules or not any(r["obligations"] for r in R.rules.values()):
            R.broken.append("no obligation was generated")
    except AnalysisError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    kn = known(pid)
    viol, listed = [], []
    for f in R.findings:
        k = slug(f.rule + "/" + f.key)
        (listed if k in kn else viol).append((k, f))
    os.makedirs(EVID, exist_ok=True)
    ob = sum(r["obligations"] for r in R.rules.values())
    di = sum(r["discharged"] for r in R.rules.values())
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the resolved program (clang AST + CFG facts of every translation unit of the "
                           "build, read from the working tree on this run). Each obligation is one instance of a rule; the "
                           "rules and their instance counts follow.",
            "obligations": ob, "discharged": di, "rules": R.rules, "counts": R.counts,
            "samples": [{"rule": k, "instances": v} for k, v in R.samples.items()],
            "notes": R.notes,
            "known_findings": [k for k, _ in listed],
            "analysis_errors": R.broken + ([err] if err else []),
        },
        "assumptions": R.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as o:
        json.dump(ev, o, indent=1, ensure_ascii=False)
        o.write("\n")
    for k, f in listed:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (pid, f.where, k, kn[k]))
    if viol:
        rp = os.path.join(EVID, pid + ".violations.txt")
        with open(rp, "w") as o:
            for k, f in viol:
                o.write("%s: [%s] %s\n  key: %s\n" % (f.where, f.rule, f.msg, k))
        for k, f in viol:
            print("%s: [%s] %s  (key %s)" % (f.where, f.rule, f.msg, k))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        for b in R.broken + ([err] if err else []):
            print("note: analysis also incomplete: " + b)
        return 1
    try:
        os.unlink(os.path.join(EVID, pid + ".violations.txt"))
    except OSError:
        pass
    if err or R.broken:
        for b in R.broken + ([err] if err else []):
            print("ANALYSIS-ERROR property=%s %s" % (pid, b))
        return 3
    print("PASS property=%s obligations=%d discharged=%d known=%d wall=%.1fs" % (pid, ob, di, len(listed), time.time() - t0))
    return 0
