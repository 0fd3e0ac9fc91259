#!/usr/bin/env python3
"""Decide one property of zyedidia/generic.

usage: check.py PROPERTY

The functions the property depends on are translated mechanically from /repo's
working tree, joined with the contracts in /verif/contracts, and every
obligation is handed to Verus. The property holds when every obligation that
belongs to it is discharged. When one is not, the replay program searches the
real code for an input that shows the failure.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

# property -> packages whose functions carry it (their dependencies come along)
OWN = {
    "G01": ["generic"], "G02": ["generic"], "A01": ["array2d"], "A02": ["array2d"],
    "V01": ["avl"], "V02": ["avl"], "B01": ["bimap"], "T01": ["btree"], "T02": ["btree"], "C01": ["cache"],
    "H01": ["hashmap"], "H02": ["hashmap", "hashset"], "S01": ["hashset"], "P01": ["heap"],
    "I01": ["interval"], "I02": ["interval"], "I03": ["interval"], "L01": ["list"],
    "M01": ["mapset"], "U01": ["multimap"], "O01": ["prope"], "O02": ["prope"],
    "Q01": ["queue"], "R01": ["rope"], "R02": ["rope"], "E01": ["set"], "K01": ["stack"], "D01": ["trie"],
    "D02": ["trie"], "N01": ["ulist"],
}

ENV = dict(os.environ)
ENV.update({
    "HOME": os.environ.get("HOME", "/root"),
    "PATH": "/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""),
    "GOENV": "off", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOWORK": "off", "GOFLAGS": "-mod=readonly",
    "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": os.environ.get("GOCACHE", "/root/.cache/go-build"),
})

VERUS_FLAGS = ["--num-threads", "8", "--multiple-errors", "10", "--time-expanded", "--output-json",
               "--error-format=json", "--no-auto-recommends-check", "--triggers-mode", "silent"]


class Broken(Exception):
    """The check itself cannot run."""


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace", timeout=timeout)
    return p.returncode, p.stdout, p.stderr


def build_gov():
    out = os.path.join(HERE, "bin", "gov")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    rc, o, e = sh(["go", "build", "-o", tmp, "."], cwd=os.path.join(HERE, "tool"))
    if rc != 0:
        raise Broken("cannot build the translator: " + e)
    os.replace(tmp, out)
    return out


def build_replay(work):
    """The replay program, linked against the packages of REPO's working tree."""
    src = os.path.join(HERE, "replay")
    out = os.path.join(work, "replay")
    flags = []
    if REPO != "/repo":
        mod = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(os.path.join(work, "replay.mod"), "w").write(mod)
        shutil.copy(os.path.join(src, "go.sum"), os.path.join(work, "replay.sum"))
        flags = ["-modfile", os.path.join(work, "replay.mod")]
    rc, o, e = sh(["go", "build", *flags, "-o", out, "."], cwd=src)
    if rc != 0:
        raise Broken("cannot build the replay program against the working tree:\n" + e)
    return out


def srcdirs(prop):
    """Where the replay program looks for the literals of the code (sizes at which code changes its ways)."""
    pkgs = OWN[prop] + {"E01": ["mapset", "hashset", "hashmap"], "U01": ["avl"], "S01": ["hashmap"], "C01": ["list"]}.get(prop, [])
    return ",".join(REPO if p == "generic" else os.path.join(REPO, p) for p in pkgs)


def run_replay(exe, prop, secs, seed, out):
    try:
        rc, o, e = sh([exe, "-src", srcdirs(prop), "-prop", prop, "-seed", str(seed), "-time", str(secs), "-out", out], timeout=secs + 60)
    except subprocess.TimeoutExpired:
        return {"failed": False, "reason": "replay timed out", "cases": 0}
    try:
        r = json.load(open(out))
    except Exception:
        r = {"failed": rc not in (0,), "reason": "replay program died (exit %d): %s" % (rc, e[-2000:]), "cases": 0}
        if rc == 2 and "no scenario" in (o + e):
            raise Broken("no replay scenario for " + prop)
    return r


MARK = re.compile(r"//@(fn|endfn|ob|ens|req|ret|inv)\b ?(.*)$")


class Program:
    """One generated Verus file with its markers."""

    def __init__(self, path, report):
        self.path = path
        self.rep = json.load(open(report))
        self.lines = open(path).read().split("\n")
        self.fn_at = [None] * (len(self.lines) + 2)
        self.mark = {}
        self.edges = {}
        cur = None
        for i, l in enumerate(self.lines, 1):
            m = MARK.search(l)
            if m:
                kind, rest = m.group(1), m.group(2).strip()
                if kind == "fn":
                    cur = rest.split(" ")[0]
                elif kind == "endfn":
                    self.fn_at[i] = cur
                    cur = None
                    continue
                else:
                    self.mark[i] = (kind, rest)
                    if kind == "ob":
                        for w in re.findall(r"precondition-of (\S+)", rest):
                            self.edges.setdefault(base(cur), set()).add(w)
            self.fn_at[i] = cur
        self.info = {f["Pkg"] + "." + f["Key"]: f for f in self.rep["Functions"] or []}


def base(fn):
    return (fn or "").split("!")[0]


def tags_of(rest):
    return re.findall(r"\[([A-Z0-9, ]+)\]", rest)


class Failure:
    def __init__(self, fn, kind, where, tags, msg, text):
        self.fn, self.kind, self.where, self.tags, self.msg, self.text = fn, kind, where, tags, msg, text

    def as_dict(self):
        return {"function": self.fn, "obligation": self.kind, "at": self.where, "verifier": self.msg, "output": self.text}

    def name(self):
        return "%s: %s (%s)" % (self.fn, self.kind, self.where)


def run_gov(gov, work, tag, pkgs, nohints=(), degrade=(), vacuity=False):
    rs = os.path.join(work, tag + ".rs")
    js = os.path.join(work, tag + ".json")
    cmd = [gov, "-repo", REPO, "-contracts", os.path.join(HERE, "contracts"), "-pkgs", ",".join(pkgs), "-out", rs, "-json", js]
    if nohints:
        cmd += ["-nohints", ",".join(sorted(nohints))]
    if degrade:
        cmd += ["-degrade", ",".join(sorted(degrade))]
    if vacuity:
        cmd += ["-vacuity"]
    rc, o, e = sh(cmd)
    if rc != 0:
        return None, (o + e)[-4000:]
    return Program(rs, js), ""


def run_verus(prog, work, modules, extra=(), timeout=600):
    cmd = ["verus", *VERUS_FLAGS, *extra]
    cmd.append(os.path.basename(prog.path))
    for m in modules:
        cmd += ["--verify-module", m]
    t0 = time.time()
    try:
        rc, o, e = sh(cmd, cwd=work, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"timeout": True, "cmd": cmd, "wall": time.time() - t0, "failures": [Failure("*", "verification", "", [], "the verifier ran out of time", "")],
                "verified": 0, "errors": 1, "compile": [], "smt_ms": 0, "slow": []}
    fails, compile_errs = [], []
    vir = False
    try:
        j = json.loads(o)
    except Exception:
        j = {}
    vr = j.get("verification-results", {})
    vir = bool(vr.get("encountered-vir-error"))
    for line in e.split("\n"):
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except Exception:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting due to") or d["message"].startswith("could not compile"):
            continue
        fails.append((d["message"], d.get("spans", []), d.get("rendered", "")))
    if not vr or vir or vr.get("verified") is None:
        compile_errs = fails
        fails = []
    out = []
    for msg, spans, text in fails:
        out.append(locate(prog, msg, spans, text))
    smt, slow = 0, []
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) or []:
        for f in m.get("function-breakdown", []) or []:
            smt += f.get("time", 0)
            slow.append((f.get("time", 0), f.get("function", "")))
    slow.sort(reverse=True)
    return {"timeout": False, "cmd": cmd, "wall": time.time() - t0, "failures": out, "compile": compile_errs,
            "verified": vr.get("verified") or 0, "errors": vr.get("errors") or 0, "smt_ms": smt, "slow": slow[:5],
            "raw": e if (not vr) else "", "rc": rc}


def locate(prog, msg, spans, text):
    """The function and the obligation a verifier error belongs to."""
    fn = None
    # the erroneous function is that of the exit or the call; an ensures clause lies in the same
    # function, a failed precondition names a clause of the callee.
    cand = []
    for s in spans:
        ln = s["line_start"]
        if ln < len(prog.fn_at):
            cand.append((prog.fn_at[ln], ln, prog.mark.get(ln, ("", "")), s))
    kind, where, tags = msg, "", []
    for f, ln, mk, s in cand:
        if mk[0] == "ob":
            fn = f
            parts = mk[1].split(" ", 1)
            where = parts[0]
            kind = parts[1] if len(parts) > 1 else msg
            tags = tags_of(mk[1])
    ens = [c for c in cand if c[2][0] == "ens"]
    if ens and fn is None:
        f, ln, mk, s = ens[0]
        fn = f
        kind = "postcondition: " + re.sub(r"//@.*", "", prog.lines[ln - 1]).strip()
        where = re.sub(r"^\[[^\]]*\] *", "", mk[1])
        tags = tags_of(mk[1])
    if fn is None:
        # no marker: take the enclosing function, the callee's clauses last
        order = [c for c in cand if c[2][0] not in ("req",)] or cand
        order.sort(key=lambda c: not c[3].get("is_primary"))
        for c in order:
            if c[0]:
                fn = c[0]
                where = "generated line %d" % c[1]
                kind = msg + ": " + prog.lines[c[1] - 1].strip()[:300]
                tags = tags_of(c[2][1]) if c[2][0] == "inv" else []
                break
    return Failure(fn or "?", kind, where, tags, msg, text)


def closure(prog, prop, own):
    """The functions this property's obligations live in."""
    todo = []
    for k, f in prog.info.items():
        if f["Pkg"] in own and (not f.get("Prop") or prop in f["Prop"].split(",")):
            todo.append(k)
    seen = set(todo)
    while todo:
        k = todo.pop()
        for c in prog.edges.get(k, ()):
            if c not in seen:
                seen.add(c)
                todo.append(c)
    pk = {k.split(".")[0] for k in seen} | set(own)
    return seen, pk


def relevant(f, prop, seen, pk):
    if f.tags and not any(prop in t.replace(" ", "").split(",") for t in f.tags):
        return False
    b = base(f.fn)
    if b in ("?", "*"):
        return True
    if b in seen:
        return True
    if b.endswith(".lemmas"):
        return b.split(".")[0] in pk or b.startswith("prelude")
    # interface contracts and anything else of the packages concerned
    if "." in b and b not in seen:
        return False
    return True


def verify(gov, work, prop, own, log):
    """All obligations; returns the open failures and the statistics."""
    st = {"runs": [], "smt_ms": 0, "nohints": [], "degraded": []}
    nohints, degrade = set(), set()
    prog = res = None
    for attempt in range(8):
        prog, err = run_gov(gov, work, "main%d" % attempt, own, nohints, degrade)
        if prog is None:
            return None, [Failure("*", "translation of the working tree", "", [], err, err)], st
        mods = [p for p in prog.rep["Packages"]]
        res = run_verus(prog, work, mods + ["prelude"] if has_mod(prog, "prelude") else mods, ["--verify-root"])
        st["runs"].append(res)
        if not res["compile"] and not res.get("raw"):
            break
        # the front end rejects some function: leave its hints out, then the function itself
        bad = set()
        for msg, spans, text in res["compile"]:
            for s in spans:
                ln = s["line_start"]
                f = prog.fn_at[ln] if ln < len(prog.fn_at) else None
                if f:
                    bad.add(base(f))
        log("front end rejects: %s %s" % (sorted(bad), [c[0] for c in res["compile"]][:3]))
        progress = False
        for b in bad:
            if b not in prog.info:
                continue
            if b not in nohints:
                nohints.add(b)
                progress = True
            elif b not in degrade:
                degrade.add(b)
                progress = True
        if not progress:
            txt = "\n".join(c[2] for c in res["compile"])[:6000] or res.get("raw", "")[-4000:]
            return prog, [Failure("*", "the verifier's front end accepts the translation", "", [], "rejected", txt)], st
    st["nohints"], st["degraded"] = sorted(nohints), sorted(degrade)
    st["smt_ms"] += res["smt_ms"]
    seen, pk = closure(prog, prop, own)
    fails = [f for f in res["failures"] if relevant(f, prop, seen, pk)]
    for k, f in prog.info.items():
        if f["Failed"] and k in seen:
            fails.append(Failure(k, "translation", f["Pos"], [], f["Failed"], f["Failed"]))
    for m in prog.rep["Missing"] or []:
        fails.append(Failure(m, "a function under contract is gone or changed its signature", "", [], "missing", m))
    st["first_failures"] = [f.as_dict() for f in fails]
    retry = {base(f.fn) for f in fails if base(f.fn) in prog.info and f.kind != "translation"}
    retry_l = {f.fn for f in fails if f.fn.endswith(".lemmas")}
    if retry or retry_l:
        log("retrying %s" % sorted(retry | retry_l))
        ok = set()
        variants = [("hintless", retry | nohints, []), ("deeper", nohints, ["--rlimit", "60"]),
                    ("seeded", nohints, ["--rlimit", "40", "--smt-option", "smt.random_seed=%d" % (7 + SEED)])]

        def one(v):
            name, nh, extra = v
            p, err = run_gov(gov, work, name, own, nh, degrade)
            if p is None:
                return None
            r = run_verus(p, work, [m for m in p.rep["Packages"]] + (["prelude"] if has_mod(p, "prelude") else []), ["--verify-root", *extra], timeout=240)
            if r["compile"] or r.get("raw") or r["timeout"]:
                return None
            return r

        with cf.ThreadPoolExecutor(3) as ex:
            for v, r in zip(variants, ex.map(one, variants)):
                if r is None:
                    continue
                st["smt_ms"] += r["smt_ms"]
                bad = {base(f.fn) for f in r["failures"] if relevant(f, prop, seen, pk)}
                if "?" in bad or "*" in bad:
                    continue
                for f in retry | retry_l:
                    if f not in bad:
                        ok.add(f)
        if ok:
            log("discharged on retry: %s" % sorted(ok))
            st["retried_ok"] = sorted(ok)
        fails = [f for f in fails if base(f.fn) not in ok or f.kind == "translation"]
    st["seen"] = seen
    return prog, fails, st


def has_mod(prog, name):
    return any(l.startswith("pub mod %s " % name) or l.startswith("mod %s " % name) for l in prog.lines)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    own = OWN[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    outdir = os.path.join(HERE, "out", "replay")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        return decide(prop, own, t0, work, outdir)
    except Broken as e:
        print("CHECK ERROR: %s" % e)
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def decide(prop, own, t0, work, outdir):
    thorough = TIER == "thorough"

    def log(s):
        print("[%6.1fs] %s" % (time.time() - t0, s), flush=True)

    with cf.ThreadPoolExecutor(3) as ex:
        fr = ex.submit(build_replay, work)
        gov = build_gov()
        log("translator built")
        exe = fr.result()
        cross = ex.submit(run_replay, exe, prop, 120 if thorough else 8, SEED, os.path.join(work, "cross.json"))
        prog, fails, st = verify(gov, work, prop, own, log)
        log("verifier done: %d open obligations" % len(fails))
        vac = None
        if not fails:
            vac = vacuity(gov, work, prop, own, prog, st, log)
            if thorough:
                st["stability"] = stability(prog, work, prop, own, st)
        rep = cross.result()
    log("cross-check: %s cases, failed=%s" % (rep.get("cases"), rep.get("failed")))
    search = []
    if fails and not rep.get("failed"):
        secs = float(os.environ.get("VERIF_SEARCH") or (180 if thorough else 75))
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(run_replay, exe, prop, secs, SEED * 1000 + i + 17, os.path.join(work, "s%d.json" % i)) for i in range(4)]
            for f in fs:
                search.append(f.result())
        for r in search:
            if r.get("failed") and not rep.get("failed"):
                rep = r
        log("search: %s cases, failed=%s" % (sum(r.get("cases") or 0 for r in search), rep.get("failed")))

    # findings on record: they explain the obligations and the histories they name
    known = known_findings(prop)
    shown = []

    def is_known(text):
        for pat, what in known:
            if re.search(pat, text):
                if what not in shown:
                    shown.append(what)
                return True
        return False

    fails = [f for f in fails if not is_known(f.name())]
    if rep.get("failed") and is_known(rep.get("reason") or ""):
        rep["failed"] = False
    for what in shown:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))

    bad = bool(fails) or bool(rep.get("failed"))
    evidence(prop, own, prog, fails, st, vac, rep, search, t0, bad)
    if not bad:
        print("OK property=%s" % prop)
        return 0
    path = os.path.join(outdir, prop + ".json")
    json.dump({
        "property": prop,
        "failed_obligations": [f.as_dict() for f in fails],
        "failing_input": {k: rep.get(k) for k in ("reason", "operations", "scenario", "iter", "seed", "stack")} if rep.get("failed") else None,
        "rerun": "cd /verif/replay && go build -o /tmp/replay . && /tmp/replay -src %s -prop %s -seed %s -scenario %s -iter %s" % (
            srcdirs(prop), prop, rep.get("seed"), rep.get("scenario"), rep.get("iter")) if rep.get("failed") else "no failing input found; the failed obligation above is the report",
    }, open(path, "w"), indent=1)
    for f in fails[:12]:
        print("  undischarged: " + f.name()[:300])
    if rep.get("failed"):
        print("  failing input: %s" % rep.get("reason"))
        for o in (rep.get("operations") or [])[-12:]:
            print("    " + o)
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if rep.get("failed") else " no-failing-input-found"))
    return 1


def vacuity(gov, work, prop, own, prog, st, log):
    """Every contract must be satisfiable: 'false' may not be provable at any exit."""
    p, err = run_gov(gov, work, "vac", own, st["nohints"], st["degraded"], vacuity=True)
    if p is None:
        return {"error": err}
    r = run_verus(p, work, p.rep["Packages"], ["--rlimit", "3"], timeout=120)
    if r["compile"] or r.get("raw") or r["timeout"]:
        return {"error": "vacuity run did not complete"}
    want = set()
    for i, (k, rest) in p.mark.items():
        if k == "ob" and "vacuity" in rest:
            want.add(p.fn_at[i])
    got = {f.fn for f in r["failures"] if "vacuity" in f.kind}
    return {"functions_probed": len(want), "refuted_as_required": len(want & got), "reachable_exit_not_shown": sorted(want - got)}


def stability(prog, work, prop, own, st):
    """The proof again under other solver seeds: how robust it is."""
    out = []
    for s in (11, 23):
        r = run_verus(prog, work, prog.rep["Packages"], ["--smt-option", "smt.random_seed=%d" % s], timeout=400)
        out.append({"seed": s, "verified": r["verified"], "errors": r["errors"], "wall_s": round(r["wall"], 1)})
    return out


def evidence(prop, own, prog, fails, st, vac, rep, search, t0, bad):
    seen = st.get("seen") or set()
    fns = []
    total = 0
    trusted_fns = []
    if prog:
        for k in sorted(seen):
            f = prog.info.get(k)
            if not f:
                continue
            if f["Trusted"]:
                trusted_fns.append(k)
                continue
            total += f["Obligations"]
            fns.append("%s (%s): %d obligations%s" % (k, f["Pos"], f["Obligations"], ", inlines " + ", ".join(f["Inlined"]) if f["Inlined"] else ""))
    last = st["runs"][-1] if st["runs"] else None
    total = max(total, len(fails))
    cov = {
        "obligations": total,
        "discharged": total - len(fails),
        "checker_cmd": " ".join(last["cmd"]) if last else "translation failed",
        "trusted_base": [
            "Verus 0.2026.09.13 and its bundled Z3 (the only back end; every obligation is discharged by it)",
            "the mechanical translation /verif/tool from Go to Verus (what it drops and models is stated in DESIGN.md)",
            "the Go compiler, its runtime and its garbage collector",
        ] + ["trusted contract: " + t for t in (prog.rep["Trusted"] or [] if prog else [])] + ["trusted function: " + t for t in trusted_fns],
        "functions_under_contract": fns,
        "functions_without_contract": (prog.rep["Uncovered"] or []) if prog else [],
        "inlined_into_callers": (prog.rep["Inlined"] or []) if prog else [],
        "verifier_items": {"verified": last["verified"], "errors": last["errors"]} if last else {},
        "solver_ms": st["smt_ms"],
        "slowest": last["slow"] if last else [],
        "failed_obligations": [f.name() for f in fails],
        "discharged_on_retry": st.get("retried_ok", []),
        "front_end_rejected": st.get("degraded", []),
        "vacuity": vac,
        "solver_seed_stability": st.get("stability"),
        "cross_check": {"histories_on_real_code": rep.get("cases"), "distinct": rep.get("distinct"), "failed": rep.get("failed"),
                        "label": "bounded cross-check of the contracts against the running code; not counted as proof"},
        "samples": (rep.get("samples") or [])[:3],
        "source_sha256": source_hash(prog),
        "notes": (prog.rep["Notes"] or []) if prog else [],
    }
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov,
        "assumptions": ASSUMPTIONS + [t for t in (prog.rep["Trusted"] or [] if prog else [])],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if bad else 0,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def source_hash(prog):
    out = {}
    if prog:
        for p in prog.rep["Packages"]:
            d = REPO if p == "generic" else os.path.join(REPO, p)
            for f in sorted(glob.glob(d + "/*.go")):
                if not f.endswith("_test.go"):
                    out[os.path.relpath(f, REPO)] = hashlib.sha256(open(f, "rb").read()).hexdigest()[:16]
    return out


ASSUMPTIONS = [
    "machine integers: every signed operation is proved not to overflow, given that what exists in memory has at most 2^48 elements per slice and 2^60 per container or rope (counter fields and local variables stepped by one are not checked); unsigned arithmetic is exact",
    "memory does not run out and the stack does not overflow",
    "callbacks passed by the user do not modify the structure they are called on, terminate and do not panic",
    "comparison callbacks are strict weak orders, equality callbacks equivalences, and hash callbacks give equal keys equal hashes",
    "no data races: single-threaded use",
]

if __name__ == "__main__":
    sys.exit(main())
