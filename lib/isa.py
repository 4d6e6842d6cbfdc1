"""Compare every documented instruction with the manual's description."""
import importlib, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec"))
import uc
from extract import AnalysisError

KINDS = ("eq", "exh", "samp", "unk", "ne")


def check(modname, only=None, rounds=None):
    m = importlib.import_module(modname) if isinstance(modname, str) else modname
    table = m.runs()
    arch = set(getattr(m, "ARCH", []))
    for _, _, specs, *_ in table:
        for s in specs:
            arch |= set(s.fields)
    runs = []
    for id, by, specs, *extra in table:
        if only and id not in only:
            continue
        x = [s.json() for s in specs]
        for e in x:
            e["arch"] = sorted(arch)
            if rounds:
                e["rounds"] = rounds
        runs.append(dict({"id": id, "call": m.CPU.call, "bytes": by, "expect": x}, **(extra[0] if extra else {})))
    res = uc.analyse(m.CPU, runs)
    for r in runs:
        if r["id"] not in res:
            raise AnalysisError("no result for " + r["id"])
    return m, res


def deviations(res):
    """(totals, violations, undecided) of a run"""
    tot = {k: 0 for k in KINDS}
    vio, und = [], []
    for id, r in sorted(res.items()):
        exits = r["exits"]
        if not exits:
            raise AnalysisError("%s: no way out of the instruction was found" % id)
        seen = {}
        for e in exits:
            for i, x in enumerate(e["expect"]):
                for k in KINDS:
                    tot[k] += x[k]
                if x.get("vacuous"):
                    raise AnalysisError("%s: contradictory description" % id)
                for d in x.get("d", []):
                    key = (id, i, d["t"])
                    if d["v"] == "ne":
                        if key not in seen:
                            seen[key] = 1
                            vio.append((id, d["t"], d.get("w", "")))
                    else:
                        und.append((id, d["t"], d["v"]))
    return tot, vio, und


def main(res, t):
    for id, r in sorted(res.items()):
        diag = {k: v for k, v in r.items() if k in ("unknown_calls", "unknown_stores", "nonconv", "budget")}
        if len(r["exits"]) != 1:
            print(id, "EXITS", len(r["exits"]))
        for e in r["exits"]:
            for i, x in enumerate(e["expect"]):
                if x.get("vacuous"):
                    print(id, i, "VACUOUS")
                for d in x.get("d", []):
                    print(id, i, d["v"], d["t"], d.get("w", "")[:300], ("ACT " + d.get("act", "")[:150] + " EXP " + d.get("exp", "")[:150]) if d["v"] != "ne" and os.environ.get("LONG") else "", diag or "")
    print(deviations(res)[0], "%.1fs" % (time.time() - t))


if __name__ == "__main__":
    t = time.time()
    for q in ([sys.argv[1]] if not sys.argv[1].endswith(":") else [q for q in importlib.import_module(sys.argv[1][:-1]).cpus() if sys.argv[2] in q.CPU.name]):
      m, res = check(q, set(sys.argv[2:]) or None if isinstance(q, str) else None)
      print(m.CPU.name)
      main(res, t)
