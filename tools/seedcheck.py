#!/usr/bin/env python3
"""seedcheck.py ID...: confirms planted bugs in scratch copies of /repo.
For each: demo passes on the tree, patch applies, builds, stable tests pass,
demo fails; then runs every claimed check (or the property's own with -q)."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
def run(cmd, cwd, timeout=900, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
def passed(d):
    base = json.load(open("/opt/vp/BASELINE.json"))
    t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + d)
    sh = os.path.join(d + ".test.sh"); open(sh, "w").write(t)
    out = d + ".json"
    run(["bash", sh, out], d, 1200)
    res = json.load(open(out))
    os.remove(sh); os.remove(out)
    return base, res
def names(j):
    if isinstance(j, dict):
        for k in ("passed", "stable"):
            if k in j: return set(j[k])
    return set(j)
def main():
    quick = "-q" in sys.argv
    notest = "-n" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if not ids: ids = sorted(os.listdir("/verif/seeded"))
    checks = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
    def one(i):
        sd = "/verif/seeded/" + i
        meta = json.load(open(sd + "/meta.json"))
        d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
        shutil.rmtree(d); shutil.copytree("/repo", d, symlinks=True)
        dd = tempfile.mkdtemp(prefix="demo.", dir="/tmp")
        for f in os.listdir(sd):
            if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(sd + "/" + f, dd)
        msg = []
        try:
            if not notest:
                rc, o = run(["bash", dd + "/demo.sh"], d, 300)
                if rc: msg.append("DEMO FAILS ON TREE: " + o[-400:])
            rc, o = run(["git", "apply", sd + "/patch.diff"], d)
            if rc: msg.append("PATCH: " + o[-300:]); print(i, msg); return
            rc, o = run(["sh", "-c", "go build ./... && GOARCH=386 CGO_ENABLED=0 go build ./... && go vet . >/dev/null 2>&1; go build ./..."], d)
            if rc: msg.append("BUILD: " + o[-300:])
            if not notest:
                rc, o = run(["bash", dd + "/demo.sh"], d, 300)
                if rc == 0: msg.append("DEMO PASSES WITH PATCH")
                base, res = passed(d)
                lost = names(base) - names(res)
                if lost: msg.append("TESTS LOST: %s" % sorted(lost)[:5])
            caught = []
            todo = [meta["property"]] if quick else checks
            for c in todo:
                vd = tempfile.mkdtemp(prefix="ev.", dir="/tmp")
                shutil.copy("/verif/known_findings.txt", vd)
                rc, o = run(["/verif/bin/analyzer", c], "/verif", 900, dict(ENV, VERIF_DIR=vd, VERIF_REPO=d))
                shutil.rmtree(vd)
                if rc == 1 and "VIOLATION property=" + c in o: caught.append(c)
                elif rc != 0: msg.append("CHECK %s rc %d: %s" % (c, rc, o[-300:]))
            print(i, "property", meta["property"], "CAUGHT" if meta["property"] in caught else "MISSED", "by", caught, msg, flush=True)
        finally:
            shutil.rmtree(d); shutil.rmtree(dd)
    with cf.ThreadPoolExecutor(int(os.environ.get('REFJ', '1'))) as ex: list(ex.map(one, ids))
main()
