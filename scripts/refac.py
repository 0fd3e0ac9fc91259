#!/usr/bin/env python3
"""refac.py FILE... : apply each behaviour-preserving edit of the files to a copy
of /repo, run the tests and the checks of the packages it touches, and say
whether the checks stay quiet.

A file holds blocks: '#### id props file', then 'old', a line '=====', 'new';
a block with several edits separates them by a line '&&&&&' ('@@ file' as the
first line of an edit changes the file)."""
import concurrent.futures as cf, os, subprocess, sys, tempfile, shutil

only = set(os.environ.get("ONLY", "").split()) 
jobs = []
for f in sys.argv[1:]:
    for blk in open(f).read().split("#### ")[1:]:
        head, body = blk.split("\n", 1)
        rid, props, file = head.split()
        if only and rid not in only:
            continue
        jobs.append((rid, props.split(","), file, body))


def run(job):
    rid, props, file, body = job
    d = tempfile.mkdtemp(prefix="refac-%s-" % rid)
    out = []
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        for e in body.split("\n&&&&&\n"):
            e = e.strip("\n")
            if e.startswith("@@ "):
                l, e = e.split("\n", 1)
                file = l[3:].strip()
            old, new = e.split("\n=====\n") if "\n=====\n" in e else (e.split("\n=====")[0], "")
            p = os.path.join(d, file)
            s = open(p).read()
            if s.count(old) < 1:
                return "%s: OLD NOT FOUND: %s" % (rid, old[:60])
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        b = subprocess.run(". /opt/vp/env.sh; go build ./... && go test ./... 2>&1 | grep FAIL", shell=True, cwd=d, capture_output=True, text=True, executable="/bin/bash")
        if b.stderr.strip() or b.stdout.strip():
            return "%s: INVALID %s %s" % (rid, b.stderr[:400], b.stdout[:200])
        for prop in props:
            r = subprocess.run(["python3", "/verif/check.py", prop], env=dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick", VERIF_SEED="1", VERIF_SEARCH="5"), capture_output=True, text=True, cwd="/verif")
            o = (r.stdout + r.stderr).strip().split("\n")
            if r.returncode == 0:
                out.append("%s %s quiet" % (rid, prop))
            else:
                kind = "ERROR" if r.returncode != 1 else "alarm-nf" if "no-failing-input" in r.stdout else "ALARM-INPUT"
                out.append("%s %s %s\n    %s" % (rid, prop, kind, "\n    ".join(x[:260] for x in o if "undischarged" in x or "failing input" in x or "ERROR" in x or r.returncode not in (0, 1))[:1500]))
    except Exception as e:
        out.append("%s: %r" % (rid, e))
    finally:
        shutil.rmtree(d)
    return "\n".join(out)


with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for r in ex.map(run, jobs):
        print(r, flush=True)
