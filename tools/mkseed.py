"""seed(...) writes /verif/seeded/<id>/ from edits to a scratch copy of /repo."""
import json, os, shutil, subprocess, tempfile
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the current directory's module.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/ov.json" <<J
{"Replace": {"$repo/%(dir)szz_demo_test.go": "$here/demo_test.go"%(extra)s}}
J
%(env)s go test -vet=off -count=1 -timeout 250s -run '^TestDemo' -overlay "$tmp/ov.json" ./%(dir)s
'''
def seed(id, prop, needs, breaks, edits, demo, dir="", pkg="bls", arch="amd64", extra=None, imports=("testing",)):
    d = tempfile.mkdtemp(prefix="mk.", dir="/tmp"); shutil.rmtree(d)
    shutil.copytree("/repo", d, symlinks=True)
    try:
        for f, a, b in edits:
            p = os.path.join(d, f); s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
        assert diff
    finally:
        shutil.rmtree(d)
    sd = "/verif/seeded/" + id
    os.makedirs(sd, exist_ok=True)
    open(sd + "/patch.diff", "w").write(diff)
    ex = ""
    for k, v in (extra or {}).items():
        open(sd + "/" + k, "w").write(v)
        ex += ', "$repo/%szz_%s": "$here/%s"' % (dir, k, k)
    env = "GOARCH=386 CGO_ENABLED=0" if arch == "386" else ""
    open(sd + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, dir=dir, env=env, extra=ex))
    imp = "\n".join('\t"%s"' % i for i in imports)
    if not demo.startswith("package"):
        demo = "package %s\n\nimport (\n%s\n)\n\n%s" % (pkg, imp, demo)
    open(sd + "/demo_test.go", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(sd + "/meta.json", "w"), indent=1)
