#!/usr/bin/env python3
"""Develop planted bugs: seed.py DEFS.py [ids...]

DEFS.py calls S(id, property, needs, breaks, edits, pkg, test) where edits is
a list of (file, old, new) and test the body of a Go test file that is laid
over package pkg.  Each one is built, tested and demonstrated in a scratch copy
of /repo and written to /verif/seeded/<id>/ only when all of that holds."""
import json, os, shutil, subprocess, sys, tempfile
SEEDS = {}
def S(id, prop, needs, breaks, edits, pkg, test):
    SEEDS[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, pkg=pkg, test=test)
DEMO = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated case, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
printf '{"Replace":{"%%s/%s/zz_seeded_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$o"
GOFLAGS=-mod=mod timeout 250 go test -count=1 -vet=off -overlay "$o" -run TestSeededDemo "./%s"
rc=$?
rm -f "$o"
exit $rc
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def stable(repo):
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh(["go", "test", "-json", "-count=1", "./..."], repo)
    ok, seen = set(), set()
    for l in r.stdout.split("\n"):
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add((e["Package"], e["Test"]))
    return ok, base
def names(base):
    s = set()
    def walk(x):
        if isinstance(x, dict):
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
        elif isinstance(x, str): s.add(x)
    walk(base)
    return s
def one(s):
    d = tempfile.mkdtemp(prefix="seed_")
    repo = os.path.join(d, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        out = os.path.join(d, "out"); os.makedirs(out)
        pkg = s["pkg"]
        demo = DEMO % (pkg if pkg != "." else ".", pkg)
        demo = demo.replace("/./zz", "/zz")
        open(out + "/demo.sh", "w").write(demo); os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo_test.go.txt", "w").write(s["test"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r = sh(["bash", out + "/demo.sh"], repo)
        if r.returncode != 0: return "demo fails on the unchanged tree:\n" + r.stdout[-1500:]
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f); t = open(p).read()
            if t.count(old) < 1: return "not found in %s: %s" % (f, old)
            open(p, "w").write(t.replace(old, new, 1))
        diff = sh(["git", "diff", "--no-color"], repo).stdout
        open(out + "/patch.diff", "w").write(diff)
        # the lines taken away are those of the original
        for f in {e[0] for e in s["edits"]}:
            bl = sh(["git", "blame", "-s", "-l", "HEAD", "--", f], repo).stdout.split("\n")
            orig = [l.startswith("^") for l in bl]
            h = sh(["git", "diff", "-U0", "--no-color", f], repo).stdout
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", h, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for k in range(a, a + n):
                    if not orig[k - 1]: print("   note: %s line %d is not of the original" % (f, k))
        r = sh(["go", "build", "./..."], repo)
        if r.returncode: return "does not build\n" + r.stdout[-800:]
        r = sh(["go", "vet", "./..."], repo)
        r = sh(["bash", out + "/demo.sh"], repo)
        if r.returncode == 0: return "demo passes with the patch"
        if "build failed" in r.stdout or "setup failed" in r.stdout: return "demo does not build:\n" + r.stdout[-800:]
        fail = [l for l in r.stdout.split("\n") if l.strip()][:6]
        ok, base = stable(repo)
        want = names(base)
        miss = [w for w in want if "Test" in w and not any(p + "::" + t == w or p + "." + t == w or p + "/" + t == w or p + " " + t == w or t == w for p, t in ok)]
        if miss: return "tests fail: %s" % miss[:6]
        dst = "/verif/seeded/" + s["id"]
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return "kept | " + " / ".join(fail)[:300]
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
    ids = sys.argv[2:] or list(SEEDS)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        for i, r in zip(ids, ex.map(lambda i: one(SEEDS[i]), ids)):
            print(i, ":", r, flush=True)
