#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<spec  — spec: OLD\n=====\nNEW\n=====\nneeds\n=====\nbreaks\n=====\ndemo.go body"""
import json, os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, file = sys.argv[1:4]
old, new, needs, breaks, demo = [x.strip("\n") for x in sys.stdin.read().split("\n=====\n")]
t = tempfile.mkdtemp(prefix="mks-"); r = t + "/repo"
shutil.copytree("/repo", r, symlinks=True)
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r)
s = open(r + "/" + file).read()
for o, n in zip(old.split("\n++\n"), new.split("\n++\n"), strict=True):
    o, n = o.strip("\n"), n.strip("\n")
    assert s.count(o) == 1, "old text occurs %d times" % s.count(o)
    s = s.replace(o, n)
open(r + "/" + file, "w").write(s)
subprocess.run(["gofmt", "-l", file], cwd=r)
d = H + "/seeded/" + sid
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout)
open(d + "/demo.go", "w").write(demo + "\n")
shutil.copy(H + "/scripts/demo.sh.tmpl", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(t)
