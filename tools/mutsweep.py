#!/usr/bin/env python3
"""mutsweep.py [-s SEED] [-k FRACTION] [-j JOBS] [-f FUNCREGEX] FILE...: one-token mutants
of the statements of /repo's FILEs, analysed by the checks near the file (cheapest
first) until one reports a violation.  Prints the survivors; they are either
equivalent mutants or gaps."""
import concurrent.futures as cf, difflib, os, queue, random, re, shutil, subprocess, sys, tempfile, time
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
ORDER = {
 "fq.go": "C02 C10 C23 C25 C04 C26 C27 C09", "fr.go": "C03 C10 C25 C04 C26 C27 C09", "fqrepr.go": "C05 C01 C02 C26 C27 C25 C28", "frrepr.go": "C05 C03 C26 C27 C25",
 "stub_fallback.go": "C01 C02", "bititerator.go": "C27 C26 C09", "fq2.go": "C06 C08 C10 C04 C25 C26 C23 C27 C09", "fq6.go": "C07 C08 C04 C26", "fq12.go": "C07 C08 C04 C26 C19 C09",
 "pairing.go": "C18 C19 C20 C26 C27", "g1.go": "C14 C15 C16 C17 C24 C25 C10 C28 C26 C27 C11 C13", "g2.go": "C14 C15 C16 C17 C18 C24 C23 C25 C10 C28 C26 C27 C12 C13",
 "hash.go": "C24 C23 C28 C26 C27", "g1pubs/bls.go": "C21 C22 C25 C16 C26 C27", "g2pubs/bls.go": "C21 C22 C25 C16 C26 C27"}
OPS = [(r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"==", "!="), (r"!=", "=="), (r"(?<![<-])<(?![<=-])", "<="), (r"(?<![>])>(?![>=])", ">="),
 (r"<=", "<"), (r">=", ">"), (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r"<<", ">>"), (r">>", "<<"), (r"(?<=[^&])&(?=[^&^=a-zA-Z])", "|"),
 (r"AddAssign", "SubAssign"), (r"SubAssign", "AddAssign"), (r"\bc0\b", "c1"), (r"\bc1\b", "c0"), (r"\bc2\b", "c1"), (r"\.x\b", ".y"), (r"\.y\b", ".x"),
 (r"!(?=[a-z])", ""), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"(?<![\w.\[])([0-9]+)(?![\w.])", lambda m: str(int(m.group(1)) + 1)),
 (r"(?<=\[)([0-9]+)(?=\])", lambda m: str(int(m.group(1)) ^ 1)), (r"\.Copy\(\)", ""), (r"\b0x([0-9a-f]{1,2})\b", lambda m: "0x%x" % (int(m.group(1), 16) ^ 0x10)),
 (r"\+\+", "--"), (r"--", "++"), (r"\bnil\b(?= &&)", "nil"), (r" \+= ", " -= "), (r" -= ", " += "), (r" \|= ", " &= ")]
DEL = re.compile(r"^\s+(?!return|var|if|for|func|case|default|switch|[}\)]|type|const|//)[\w.\[\]*,+ ]+(\(.*\)|(\+=|-=|\|=|&\^?=|[^:!<>=]=) .*|\+\+|--)$")
def mutants(f, fre):
    L = open("/repo/" + f).read().split("\n")
    fn, out = None, []
    for i, l in enumerate(L):
        if l.startswith("func "): fn = l; continue
        if l.startswith("}"): fn = None
        if fn is None or l.strip().startswith("//") or not re.search(fre, fn): continue
        code = l.split(" //")[0]
        for r, s in OPS:
            for m in re.finditer(r, code):
                n = code[:m.start()] + (s(m) if callable(s) else s) + code[m.end():]
                if n != code: out.append((f, i, n))
        if DEL.match(code): out.append((f, i, re.match(r"\s*", code).group(0)))
    return L, out
def main():
    a = sys.argv[1:]
    o = {"-s": "1", "-k": "0.3", "-j": "6", "-f": "."}
    while a and a[0] in o: o[a[0]] = a[1]; a = a[2:]
    rnd = random.Random(int(o["-s"]))
    jobs = []
    for f in a or ORDER:
        L, ms = mutants(f, o["-f"])
        rnd.shuffle(ms)
        jobs += [(L, m) for m in ms[:max(1, int(len(ms) * float(o["-k"])))]]
    q = queue.Queue()
    ds = []
    for _ in range(int(o["-j"])):
        d = tempfile.mkdtemp(prefix="msw.", dir="/tmp"); ds.append(d)
        shutil.copytree("/repo", d + "/r", symlinks=True); os.mkdir(d + "/v"); shutil.copy("/verif/known_findings.txt", d + "/v")
        shutil.copy("/verif/bin/analyzer", d + "/an")
        q.put(d)
    st = {"build": 0, "caught": 0, "other": 0, "survived": 0}
    def one(job):
        L, (f, i, n) = job
        d = q.get(); p = d + "/r/" + f
        try:
            M = list(L); M[i] = n
            open(p, "w").write("\n".join(M))
            c = "go build ./... && GOARCH=386 CGO_ENABLED=0 go build ./..."
            if subprocess.run(["sh", "-c", c], cwd=d + "/r", env=ENV, capture_output=True).returncode: return job, "build", ""
            for c in ORDER[f].split():
                r = subprocess.run(["timeout", "700", d + "/an", c], env=dict(ENV, GOMAXPROCS="2", VERIF_DIR=d + "/v", VERIF_REPO=d + "/r"), capture_output=True, text=True, errors="replace")
                if r.returncode == 1: return job, "caught", c
                if r.returncode: 
                    if c == "C27" and "unknown" in r.stdout + r.stderr: continue
                    return job, "other", "%s rc=%d %s" % (c, r.returncode, (r.stdout + r.stderr)[-200:])
            return job, "survived", ""
        finally:
            open(p, "w").write("\n".join(L)); q.put(d)
    t0 = time.time()
    with cf.ThreadPoolExecutor(len(ds)) as ex:
        for k, ((L, (f, i, n)), what, c) in enumerate(ex.map(one, jobs)):
            st[what] += 1
            if what in ("survived", "other"): print("%s %s %s:%d\n  - %s\n  + %s" % (what.upper(), c, f, i + 1, L[i].strip(), n.strip()), flush=True)
            if k % 50 == 49: print(k + 1, len(jobs), st, int(time.time() - t0), flush=True)
    print(len(jobs), st, int(time.time() - t0))
    for d in ds: shutil.rmtree(d)
main()
