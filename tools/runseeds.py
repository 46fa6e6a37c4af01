#!/usr/bin/env python3
"""runseeds.py [-j N] [ids...]: runs each planted change's own check on a scratch copy of /repo with the change applied."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
j = 3
if a and a[0] == "-j":
    j = int(a[1]); a = a[2:]
ids = a or sorted(os.listdir(ROOT + "/seeded"))

def one(i):
    d = tempfile.mkdtemp(prefix="seedrun_", dir="/tmp")
    try:
        r = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        p = subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (ROOT, i)], cwd=r, capture_output=True, text=True)
        if p.returncode:
            return i, "", "PATCH DOES NOT APPLY", 0, p.stderr[-300:]
        prop = json.load(open("%s/seeded/%s/meta.json" % (ROOT, i)))["property"]
        t = time.time()
        e = dict(os.environ, VERIF_REPO=r, VERIF_EVID=d, VERIF_SEED="1", VERIF_TIER="quick")
        p = subprocess.run(["python3", ROOT + "/check.py", prop, "--tier", "quick"], env=e, capture_output=True, text=True)
        v = {0: "MISSED", 1: "caught"}.get(p.returncode, "CHECK ERROR")
        return i, prop, v, time.time() - t, p.stdout.strip().splitlines()[-2:][0][:260] if p.stdout.strip() else p.stderr[-300:]
    finally:
        shutil.rmtree(d, ignore_errors=True)

n = {}
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, ids):
        print(r[0], r[1], r[2], "%.0fs" % r[3], r[4] if r[2] != "caught" or "-v" in sys.argv else "", flush=True)
        n[r[2]] = n.get(r[2], 0) + 1
print(n)
