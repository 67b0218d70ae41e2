#!/usr/bin/env python3
"""mut.py CHECK FILE.py: FILE.py defines M = {name: [(file, old, new), ...]}, edits
that break the property; prints which the built analyzer misses."""
import runpy, sys, os, shutil, subprocess, tempfile, concurrent.futures as cf
chk, f = sys.argv[1:3]
an = os.environ.get("AN", "/verif/bin/analyzer")
M = runpy.run_path(f)["M"]
def one(n):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp"); v = tempfile.mkdtemp(prefix="mutv.", dir="/tmp")
    try:
        r = d + "/r"; shutil.copytree("/repo", r, symlinks=True); shutil.copy("/verif/known_findings.txt", v)
        for fn, a, b in M[n]:
            s = open(r + "/" + fn).read()
            if s.count(a) < 1: return n, "EDIT " + a[:50]
            open(r + "/" + fn, "w").write(s.replace(a, b, 1))
        p = subprocess.run(["sh", "-c", "go vet ."], cwd=r, capture_output=True, text=True)
        if p.returncode: return n, "BUILD " + p.stderr[-300:]
        p = subprocess.run(["timeout", "800", an, chk], env=dict(os.environ, VERIF_DIR=v, VERIF_REPO=r, GOMAXPROCS="3"), capture_output=True, text=True, errors="replace")
        l = [x for x in p.stdout.splitlines() if "FAILED" in x]
        return n, ("caught " if p.returncode == 1 else "MISSED rc=%d " % p.returncode) + (l[0].strip()[:150] if l else "")
    finally: shutil.rmtree(d); shutil.rmtree(v)
with cf.ThreadPoolExecutor(3) as ex:
    for n, r in ex.map(one, M): print(n, r, flush=True)
