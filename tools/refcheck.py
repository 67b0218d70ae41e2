#!/usr/bin/env python3
"""refcheck.py [-t] [-n] [-c C01,C02] FILE.py|NAME...: applies each behaviour-preserving
edit of /verif/refactors/*.py to a scratch copy and runs every claimed check on
it; all must stay quiet.  -n runs only the
checks near the edited files, -t also runs the stable tests."""
import concurrent.futures as cf, glob, json, os, runpy, shutil, subprocess, sys, tempfile, time
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
G = "C10 C13 C14 C15 C16 C17 C18 C20 C24 C25 C26".split()
NEAR = {"fq.go": "C02 C04 C09 C10 C25 C26".split(), "fr.go": "C03 C04 C09 C10 C25 C26".split(),
        "fqrepr.go": "C01 C02 C05 C26".split(), "frrepr.go": "C03 C05 C26".split(), "stub_fallback.go": "C01 C02 C03 C05".split(),
        "fq2.go": "C04 C06 C08 C09 C10 C26".split(), "fq6.go": "C04 C07 C08 C26".split(), "fq12.go": "C04 C07 C08 C09 C19 C26".split(),
        "pairing.go": "C18 C19 C20 C26".split(), "g1.go": ["C11"] + G, "g2.go": ["C12"] + G, "hash.go": "C23 C24 C26 C28".split(),
        "g1pubs/bls.go": "C21 C22 C25 C26".split(), "g2pubs/bls.go": "C21 C22 C25 C26".split()}
def main():
    a = sys.argv[1:]
    tests = "-t" in a
    if tests: a.remove("-t")
    checks = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
    near = "-n" in a
    if near: a.remove("-n")
    slow = "-s" in a
    if slow: a.remove("-s")
    if "-c" in a:
        i = a.index("-c"); checks = a[i+1].split(","); del a[i:i+2]
    refs = {}
    for f in sorted(glob.glob("/verif/refactors/*.py")):
        r = runpy.run_path(f)["R"]
        if not a or os.path.basename(f) in a: refs.update(r)
        else: refs.update({k: v for k, v in r.items() if k in a})
    pool = cf.ThreadPoolExecutor(int(os.environ.get("REFJ", "7")))
    bad = 0
    dirs, jobs = {}, []
    for name, edits in refs.items():
        d = tempfile.mkdtemp(prefix="ref.", dir="/tmp"); shutil.rmtree(d)
        shutil.copytree("/repo", d, symlinks=True)
        ok = True
        for f, x, y in edits:
            s = open(d + "/" + f).read()
            if s.count(x) != 1: print(name, "EDIT", f, s.count(x), repr(x[:60])); ok = False; break
            open(d + "/" + f, "w").write(s.replace(x, y))
        if ok:
            p = subprocess.run(["sh", "-c", "go build ./... && go vet . ; GOARCH=386 CGO_ENABLED=0 go build ./..."], cwd=d, env=ENV, capture_output=True, text=True)
            if p.returncode: print(name, "BUILD", p.stderr[-600:]); ok = False
        if ok and tests:
            p = subprocess.run(["go", "test", "./..."], cwd=d, env=ENV, capture_output=True, text=True)
            if p.returncode: print(name, "TESTS", p.stdout[-600:]); ok = False
        if not ok: shutil.rmtree(d); bad = 1; continue
        dirs[name] = d
        print(name, d, flush=True)
        rel = checks
        if near: rel = [c for c in checks if c in (("C34",) if slow else ("C27", "C32", "C34")) or any(c in NEAR.get(f, checks) for f, *_ in edits)]
        for c in rel: jobs.append((name, c, pool.submit(one, d, c)))
    res, last = {}, None
    for name, c, j in jobs:
        rc, o = j.result()
        if name != last: print("...", name, flush=True); last = name
        if rc:
            bad = 1
            res.setdefault(name, []).append(c)
            print("ALARM", name, c, rc, "\n".join([l[:500] for l in o.splitlines() if "VIOLATION" in l or "error" in l or "panic" in l][:4]) or o[-500:], flush=True)
    for name, d in dirs.items():
        shutil.rmtree(d)
        print(name, res.get(name, "quiet"))
    return bad
def one(d, c):
    vd = tempfile.mkdtemp(prefix="ev.", dir="/tmp")
    shutil.copy("/verif/known_findings.txt", vd)
    try:
        t0 = time.time()
        p = subprocess.run(["timeout", "880", "/verif/bin/analyzer", c], env=dict(ENV, GOMAXPROCS="2", VERIF_DIR=vd, VERIF_REPO=d), capture_output=True, text=True)
        if time.time() - t0 > 240: print("SLOW", os.path.basename(d), c, int(time.time() - t0), flush=True)
        return p.returncode, p.stdout + p.stderr
    finally: shutil.rmtree(vd)
sys.exit(main())
