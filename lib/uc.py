"""Runs the analysis engine on one simulator's program."""
import json, os, sys, subprocess, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
import extract
from extract import AnalysisError, Lock, BUILD, VERIF

OPAQUE = ["^cl_(list|console|commander|app|error|f|option|cvar|var|var_list|sim|cmd|event)[a-z_]*::", "^chars::",
          "^cl_(commander|cmdset|strings|ustrings|options|error_registry|error_class)", "stack_(write|read|check)",
          "^cl_uc::(tick_hw|error|address_space|build_cmdset|mk_.*hw.*|set_analyzer|analyze)", "^object_|^application",
          "^cl_hw[a-z_]*::", "^cl_stack_[a-z]+::(?!cl_stack_)"]
COUNTERS = [{"re": "^cl_uc::do_brk", "name": "brk", "opaque": True, "ret": "0"},
            {"re": "::tick\\(int\\)$", "name": "ticks", "arg": 1, "opaque": True},
            {"re": "^cl_uc::fetch\\(\\)$", "name": "fetch"}]


class Cpu:
    def __init__(self, name, sim, cls, ctor=("ptr",), init=("init",), code="rom", pcbits=16, call="exec_inst", **kw):
        self.name, self.sim, self.cls, self.ctor, self.init = name, sim, cls, list(ctor), list(init)
        self.code, self.pcbits, self.call, self.kw = code, pcbits, call, kw

    def scenario(self, runs):
        s = {"class": self.cls, "ctor": self.ctor, "init": self.init, "opaque": OPAQUE + self.kw.get("opaque", []),
             "inline": self.kw.get("inline", []), "counters": COUNTERS + self.kw.get("counters", []),
             "keep": ["PCmask"] + self.kw.get("keep", []), "code": self.code, "pc": self.kw.get("pc", "PC"),
             "pcbits": self.pcbits, "runs": runs}
        for k in ("set", "noalias", "unroll", "steps", "initsteps", "watch", "dumpbase", "raw", "events", "diff", "prelude", "same", "aliases", "parity"):
            if k in self.kw:
                s[k] = self.kw[k]
        return s


def tool():
    """build the engine (once per engine source)"""
    src = [os.path.join(VERIF, "engine", f) for f in sorted(os.listdir(os.path.join(VERIF, "engine")))]
    h = extract.tree_hash(src)[:16]
    out = os.path.join(BUILD, "ucsa-" + h)
    with Lock("tool"):
        if not os.path.exists(out):
            os.makedirs(BUILD, exist_ok=True)
            extract.run(["bash", os.path.join(VERIF, "engine", "build.sh"), out + ".tmp"])
            os.replace(out + ".tmp", out)
    return out


def engine(module, scen, timeout=800):
    with tempfile.TemporaryDirectory(prefix="ucsa-") as d:
        a, b = os.path.join(d, "s.json"), os.path.join(d, "o.json")
        json.dump(scen, open(a, "w"))
        try:
            p = subprocess.run([tool(), module, a, b], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise AnalysisError("analysis ran out of time")
        if p.returncode != 0:
            raise AnalysisError("engine: rc %d %s" % (p.returncode, p.stderr.decode(errors="replace")[-800:]))
        return json.load(open(b))


def analyse(cpu, runs, jobs=8, chunk=None):
    """id -> result of every run"""
    with ThreadPoolExecutor(2) as ex:
        t = ex.submit(tool)
        mod = extract.bitcode(cpu.sim)[0]
        t.result()
    n = chunk or max(1, (len(runs) + jobs - 1) // jobs)
    parts = [runs[i::(len(runs) + n - 1) // n] for i in range((len(runs) + n - 1) // n)]
    res = {}
    with ThreadPoolExecutor(jobs) as ex:
        for o in ex.map(lambda p: engine(mod, cpu.scenario(p)), parts):
            for r in o["results"]:
                res[r["id"]] = r
    return res



def const(name):
    """an enumerator of the program, resolved by the engine from the debug information"""
    return "enum:" + name
