"""Extraction of the resolved program: compile /repo's current sources to LLVM
bitcode (one module per simulator), using the project's own object lists.

Nothing is written inside /repo.  The configured headers (ddconfig.h) and the
lex/yacc output are regenerated from /repo's templates in our own build folder.
"""
import os, re, sys, hashlib, subprocess, shutil, glob, fcntl, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("UCSA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("UCSA_BUILD", os.path.join(VERIF, ".build"))
CLANGXX = "clang++"
CORE = ["sim", "cmd", "utils", "gui", "motorola"]
SIMS = ["avr", "f8", "i8048", "i8085", "m6800", "m6809", "m68hc08", "m68hc11",
        "m68hc12", "mos6502", "oisc", "p1516", "pblaze", "pdk", "rxk", "s51",
        "st7", "stm8", "tlcs", "xa", "z80"]


class AnalysisError(Exception):
    """The analysis could not be carried out (never a pass, never a violation)."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" % (cmd if isinstance(cmd, str) else " ".join(cmd), p.stdout[-4000:]))
    return p.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def ensure_config():
    """configure the project in our own folder; returns the folder holding ddconfig.h"""
    with Lock("config"):
        tmpl = [p for p in glob.glob(REPO + "/**/*_in.*", recursive=True) if "/_build/" not in p]
        tmpl += [p for p in glob.glob(REPO + "/**/*.in", recursive=True) if "/_build/" not in p]
        tmpl += [REPO + "/configure"]
        h = tree_hash([p for p in tmpl if os.path.isfile(p)])
        d = os.path.join(BUILD, "cfg")
        stamp = os.path.join(d, "stamp")
        if not (os.path.exists(stamp) and open(stamp).read() == h):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
            for v in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
                env.pop(v, None)
            run(["bash", REPO + "/configure", "CC=gcc", "CXX=g++"], cwd=d, env=env)
            if not os.path.exists(d + "/src/core/utils.src/ddconfig.h"):
                raise AnalysisError("configure produced no ddconfig.h")
            open(stamp, "w").write(h)
        gd = os.path.join(BUILD, "gen")
        os.makedirs(gd, exist_ok=True)
        c = REPO + "/src/core/cmd.src/"
        gh = tree_hash([c + "cmdlex.l", c + "cmdpars.y"])
        gs = os.path.join(gd, "stamp")
        if not (os.path.exists(gs) and open(gs).read() == gh):
            run(["bison", "-d", c + "cmdpars.y", "-o", gd + "/cmdpars.cc"])
            if os.path.exists(gd + "/cmdpars.hh"):
                shutil.copy(gd + "/cmdpars.hh", gd + "/cmdpars.h")
            run(["flex", "-o" + gd + "/cmdlex.cc", c + "cmdlex.l"])
            open(gs, "w").write(gh)
    return d


def objs_of(srcdir):
    """object list of a source folder as its objs.mk states it (posix variant)"""
    txt = open(os.path.join(srcdir, "objs.mk")).read()
    txt = re.sub(r"#.*", "", txt).replace("\\\n", " ")
    names = []
    cond = []
    for line in txt.splitlines():
        s = line.strip()
        if s.startswith("ifeq"):
            cond.append("WINSOCK_AVAIL" not in s)
            continue
        if s.startswith("else"):
            cond[-1] = not cond[-1]
            continue
        if s.startswith("endif"):
            cond.pop()
            continue
        if all(cond):
            m = re.match(r"\s*OBJECTS\w*\s*\+?=(.*)", line)
            if m:
                names += re.findall(r"([\w.+-]+)\.o\b", m.group(1))
    if not names:
        raise AnalysisError("no objects listed in " + srcdir)
    return names


def include_flags(srcdir):
    cfg = ensure_config()
    fl = ["-I" + srcdir, "-I" + cfg + "/src/core/utils.src"]
    for c in ("utils", "sim", "cmd", "gui", "motorola"):
        fl.append("-I%s/src/core/%s.src" % (REPO, c))
    fl.append("-I" + os.path.join(BUILD, "gen"))
    return fl


def sources(kind, name):
    sd = "%s/src/%s/%s.src" % (REPO, kind, name)
    res = []
    for o in objs_of(sd):
        p = os.path.join(sd, o + ".cc")
        if not os.path.exists(p):
            p = os.path.join(BUILD, "gen", o + ".cc")
        if not os.path.exists(p):
            raise AnalysisError("no source for object %s of %s" % (o, sd))
        res.append((sd, p))
    return res


CXXFLAGS = ["-std=gnu++17", "-w", "-fno-exceptions", "-O0", "-g", "-fno-limit-debug-info",
            "-Xclang", "-disable-O0-optnone", "-fno-delete-null-pointer-checks"]


def _headers():
    hs = [p for p in glob.glob(REPO + "/src/**/*.h", recursive=True) if "/test/" not in p]
    hs += glob.glob(BUILD + "/gen/*.h") + [BUILD + "/cfg/src/core/utils.src/ddconfig.h"]
    return hs


_hdrhash = {}


def hdr_hash(sd):
    if sd not in _hdrhash:
        hs = [h for h in _headers() if "/core/" in h or "/gen/" in h or h.startswith(sd + "/")]
        _hdrhash[sd] = tree_hash(hs)
    return _hdrhash[sd]


def included(sd, src, seen):
    """the source and every file it includes that is not covered by hdr_hash"""
    if src not in seen:
        seen.append(src)
        for n in re.findall(r'^[ \t]*#[ \t]*include[ \t]*"([^"]+)"', open(src, encoding="latin-1").read(), re.M):
            for d in (os.path.dirname(src), sd):
                p = os.path.join(d, n)
                if (not n.endswith(".h") or d.startswith(VERIF)) and os.path.exists(p):
                    included(sd, p, seen)
                    break
    return seen


def compile_tu(item):
    sd, src = item
    h = hashlib.sha256()
    for p in included(sd, src, []):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    h.update(hdr_hash(sd).encode())
    h.update(" ".join(CXXFLAGS).encode())
    out = os.path.join(BUILD, "bc", h.hexdigest()[:24] + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run([CLANGXX] + CXXFLAGS + include_flags(sd) + ["-emit-llvm", "-c", src, "-o", tmp])
        tmp2 = tmp + "2"
        run(["/usr/lib/llvm-18/bin/opt", "-passes=sroa,mem2reg", tmp, "-o", tmp2])
        os.remove(tmp)
        os.replace(tmp2, out)
    return out


LOCK = threading.Lock()


def bitcode(*a, **k):
    with LOCK:
        return bitcode_(*a, **k)


def bitcode_(sim, jobs=8, extra=()):
    """module of one simulator: its own objects + all core libraries it links"""
    ensure_config()
    os.makedirs(BUILD + "/bc", exist_ok=True)
    items = list(sources("sims", sim)) if sim != "core" else []
    mot = sim in ("m6800", "m68hc11", "m6809", "m68hc12", "core")
    for c in CORE:
        if c == "motorola" and not mot:
            continue
        items += sources("core", c)
    main = sources("sims", sim)[0][0] if sim != "core" else REPO + "/src/core/sim.src"
    items += [(main, e) for e in extra]
    with ThreadPoolExecutor(jobs) as ex:
        bcs = list(ex.map(compile_tu, items))
    key = hashlib.sha256(" ".join(bcs).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "bc", "mod-%s-%s.bc" % (sim, key))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run(["/usr/lib/llvm-18/bin/llvm-link", "-o", tmp] + bcs)
        os.replace(tmp, out)
    return out, [i[1] for i in items]


if __name__ == "__main__":
    import time
    t = time.time()
    for s in sys.argv[1:]:
        print(s, bitcode(s)[0], time.time() - t)
