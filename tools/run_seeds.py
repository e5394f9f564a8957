#!/usr/bin/env python3
"""run_seeds.py [ids...]: run the check of every planted bug's property against a scratch copy of /repo that has it."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
def one(i):
    d = tempfile.mkdtemp(prefix="rs_")
    try:
        repo = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        a = subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (V, i)], cwd=repo, stderr=subprocess.PIPE, text=True)
        if a.returncode: return i, "?", "does not apply: " + a.stderr[:200], 0
        p = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
        t = time.time()
        r = subprocess.run(["python3", V + "/check.py", p], env=dict(os.environ, VERIF_REPO=repo, VERIF_EVID=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        caught = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
        l = [x for x in r.stdout.split("\n") if x.startswith("  ") or x.startswith("ERROR") or x.startswith("note")]
        return i, p, ("caught" if caught else "MISSED rc=%d" % r.returncode) + " | " + (l[0].strip()[:200] if l else ""), time.time() - t
    finally:
        shutil.rmtree(d)
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
ids = [i for i in ids if os.path.isdir(V + "/seeded/" + i)]
with ThreadPoolExecutor(2) as ex:
    for i, p, r, s in ex.map(one, ids):
        print("%-26s %s %4.0fs %s" % (i, p, s, r), flush=True)
