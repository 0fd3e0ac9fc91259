#!/usr/bin/env python3
"""seedtest.py [--nocheck] ID...: is the planted bug valid, and do the checks see it?"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, HOME="/root", PATH="/usr/local/go/bin:" + os.environ["PATH"], GOENV="off", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod", GODEBUG="randautoseed=0")
def run(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, env=dict(env, **k), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
base = set()
b = json.load(open("/opt/vp/BASELINE.json"))
def names(x):
    if isinstance(x, dict):
        for v in x.values(): yield from names(v)
    elif isinstance(x, list):
        for v in x: yield from names(v)
    elif isinstance(x, str): yield x
nocheck = "--nocheck" in sys.argv
for i in [a for a in sys.argv[1:] if not a.startswith("--")]:
    d = os.path.join(H, "seeded", i)
    t = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(t, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r)
    o1 = run(["bash", d + "/demo.sh"], r)
    a = run(["git", "apply", d + "/patch.diff"], r)
    bl = run(["go", "build", "./..."], r)
    tests = run(["go", "test", "-vet=off", "-count=1", "./..."], r)
    tfail = [l for l in tests.stdout.split("\n") if l.startswith("--- FAIL") or l.startswith("FAIL") or "panic:" in l]
    o2 = run(["bash", d + "/demo.sh"], r)
    valid = o1.returncode == 0 and a.returncode == 0 and bl.returncode == 0 and o2.returncode != 0
    print(i, "demo-clean", o1.returncode, "apply", a.returncode, "build", bl.returncode, "tests", tfail[:4], "demo-patched", o2.returncode, o2.stdout.strip().split("\n")[-1][:150])
    if a.returncode or bl.returncode or o1.returncode: print(a.stdout, bl.stdout[-800:], o1.stdout[-800:])
    if valid and not nocheck:
        p = json.load(open(d + "/meta.json"))["property"]
        c = run([sys.executable, H + "/check.py", p], H, VERIF_REPO=r)
        ls = c.stdout.strip().split("\n")
        print("   check", p, "exit", c.returncode, "|", ls[-1][:160])
        for l in ls:
            if "undischarged" in l or "failing input" in l or "CHECK ERROR" in l: print("     ", l.strip()[:200])
    shutil.rmtree(t, ignore_errors=True)
