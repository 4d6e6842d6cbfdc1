"""Runs the drivers of one area: obligations on objects the program's own code builds."""
import os, sys, re
from concurrent.futures import ThreadPoolExecutor
import extract, uc
from extract import AnalysisError, VERIF

OPAQUE = ["^cl_console[a-z_]*::", "^cl_commander[a-z_]*::", "^cl_cmd[a-z_]*::", "^cl_gui::"]


def drivers(src):
    """driver functions of a file"""
    return re.findall(r'extern "C" void (d_\w+)\(\)', open(src).read())


def module(area, sim):
    src = os.path.join(VERIF, "drivers", area + ".cc")
    return extract.bitcode(sim, extra=[src])[0]


def statics(src):
    """translation units whose static objects the drivers of a file need"""
    m = re.search(r'// statics: (.*)', open(src).read())
    return ["_GLOBAL__sub_I_" + f for f in m.group(1).split()] if m else []


def run(area, sim, only=None, opaque=(), opts=None, jobs=8, timeout=800):
    """driver -> {obligation: counts}"""
    with ThreadPoolExecutor(2) as ex:
        t = ex.submit(uc.tool)
        mod = module(area, sim)
        t.result()
    src = os.path.join(VERIF, "drivers", area + ".cc")
    ds = [d for d in drivers(src) if not only or d in only]

    def one(d):
        s = {"driver": True, "opaque": OPAQUE + list(opaque), "inline": [], "steps": 60000000, "unroll": 300, "prelude": statics(src), "runs": [{"id": d, "call": d, "static": True}]}
        s.update(opts or {})
        return uc.engine(mod, s, int(os.environ.get("UCSA_T", timeout)))["results"][0]
    with ThreadPoolExecutor(jobs) as ex:
        return dict(zip(ds, ex.map(one, ds)))


if __name__ == "__main__":
    import time
    t = time.time()
    r = run(sys.argv[1], sys.argv[2], set(sys.argv[3:]) or None)
    for d, x in r.items():
        print(d, "steps", x["steps"], {k: (v if not isinstance(v, list) else v[:12]) for k, v in x.items() if k in ("unknown_calls", "unknown_stores", "nonconv", "budget", "opaque", "notes")})
        for k, c in x["checks"].items():
            print("   %-70s n=%d eq=%d exh=%d samp=%d unk=%d ne=%d %s" % (k[:70], c["n"], c["eq"], c["exh"], c["samp"], c["unk"], c["ne"], c.get("w", "")[:300]))
    print("%.1fs" % (time.time() - t))
