#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in seeds.py, and tries them.

  mkseed.py write [ids]   patch.diff, demo.sh, demo.py, meta.json
  mkseed.py try [ids]     apply, build, test, demo, check, undo"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
V = "/verif"

DEMO = '''import os, re, subprocess, sys
SIM, ARGS, CMDS, WANT = %r, %r, %r, %r
exe = os.path.join(os.getcwd(), "_build/src/sims/%%s.src/ucsim_%%s" %% (SIM, "51" if SIM == "s51" else SIM))
text = "\\n".join(CMDS + ["expr 7654321"] + ["expr " + e for e, _ in WANT]) + "\\nquit\\n"
p = subprocess.run([exe] + ARGS, input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, cwd=os.environ.get("TMPDIR", "/tmp"))
nums = [int(l) for l in re.sub("\\x1b\\\\[[0-9;]*[A-Za-z]", "", p.stdout).splitlines() if re.fullmatch(r"-?\\d+", l.strip())]
at = max([i for i, n in enumerate(nums) if n == 7654321] + [-1])
got = nums[at + 1:at + 1 + len(WANT)]
bad = 0
for (e, w), g in zip(WANT, got + [None] * len(WANT)):
    print("%%-28s %%s expected %%s" %% (e, g, w))
    bad |= g != w
sys.exit(1 if bad else 0)
'''


def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def write(i, s):
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain -uno").stdout == "", "dirty /repo"
    for f, a, b in s["edits"]:
        p = "/repo/src/" + f
        t = open(p).read()
        assert t.count(a) == 1, (i, f, t.count(a))
        open(p, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    sh("git -C /repo checkout -- .")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(s["demo"] if "demo" in s else DEMO % (s["sim"], s.get("args", []), s["cmds"], s["want"]))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def one(i, s, check=True):
    d = V + "/seeded/" + i
    r = sh("git -C /repo apply " + d + "/patch.diff")
    try:
        if r.returncode:
            return i, "APPLY FAILED " + r.stdout
        b = sh("bash /opt/vp/build.sh").returncode
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json").returncode
        passed = set(json.load(open("/tmp/seedtest.json"))["passed"])
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        dm = sh("bash %s/demo.sh" % d, cwd="/repo")
        c = sh("python3 %s/checks/run.py %s" % (V, s["property"]), cwd=V) if check else None
    finally:
        sh("git -C /repo checkout -- .")
    return i, "build %d tests %s demo %d check %s\n   %s" % (b, "ok" if st <= passed else "FAIL", dm.returncode, c.returncode if c else "-", (c.stdout.strip().splitlines() or [""])[0][:220] if c else "")


if __name__ == "__main__":
    ids = sys.argv[2:] or list(SEEDS)
    if sys.argv[1] == "write":
        for i in ids:
            write(i, SEEDS[i])
    else:
        for i in ids:
            print(*one(i, SEEDS[i]), flush=True)
        sh("bash /opt/vp/build.sh")
        for i in ids:
            r = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd="/repo")
            print(i, "clean demo", r.returncode, "" if r.returncode == 0 else r.stdout)
