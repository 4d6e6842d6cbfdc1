"""Runs one registered check: evidence, known findings, verdict lines, exit status.

exit 0  the property held on everything analysed
exit 1  a violation that the known-findings file does not list
exit 2  the analysis could not be carried out"""
import json, os, sys, time, traceback
from extract import AnalysisError, VERIF

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    """what a check covered and what it found"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations = []       # (key, text, detail)
        self.cov = {"explanation": "", "obligations": 0, "discharged": 0, "undecided": 0}
        self.assumptions = []
        self.samples = []

    def ok(self, n=1):
        self.cov["obligations"] += n
        self.cov["discharged"] += n

    def undecided(self, what):
        self.cov["obligations"] += 1
        self.cov["undecided"] += 1
        self.cov.setdefault("undecided_samples", [])
        if len(self.cov["undecided_samples"]) < 40:
            self.cov["undecided_samples"].append(what)

    def bad(self, key, text, detail=None):
        self.cov["obligations"] += 1
        self.violations.append((key, text, detail))


def known(pid):
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                r[key.removeprefix("key=")] = text
    return r


def main(registry):
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    if pid not in registry:
        print("no such check", pid)
        return 2
    rep = Report(pid, tier)
    try:
        registry[pid](rep)
        if rep.cov["obligations"] == 0:
            raise AnalysisError("nothing was analysed")
    except AnalysisError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    kf = known(pid)
    new = []
    for key, text, detail in rep.violations:
        if key in kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, kf[key] or key))
        else:
            new.append((key, text, detail))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if rep.samples:
        rep.cov["samples"] = rep.samples[:12]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": rep.cov, "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(new), "findings": [{"key": k, "what": t, "detail": d} for k, t, d in rep.violations[:200]]}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, t, d in new:
                f.write("%s\n  %s\n" % (k, t))
                if d:
                    f.write("  %s\n" % (d if isinstance(d, str) else json.dumps(d)))
        for k, t, d in new[:20]:
            print("VIOLATION property=%s replay=%s %s: %s" % (pid, rp, k, t[:300]))
        return 1
    print("property=%s held: %d obligations, %d discharged, %d undecided, %.1fs" % (
        pid, rep.cov["obligations"], rep.cov["discharged"], rep.cov["undecided"], time.time() - t0))
    return 0
