"""demoseeds.py [ids...]: every planted change still applies to /repo's HEAD and its demonstration still tells it from the unchanged tree."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def one(i):
    d = tempfile.mkdtemp(prefix="demo_", dir="/tmp")
    try:
        r = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        s = "%s/seeded/%s" % (ROOT, i)
        run = lambda: subprocess.run(["bash", s + "/demo.sh"], cwd=r, capture_output=True).returncode
        if run():
            return i, "fails on the unchanged tree"
        if subprocess.run(["git", "apply", s + "/patch.diff"], cwd=r, capture_output=True).returncode:
            return i, "does not apply"
        return i, "ok" if run() else "passes with the change"
    finally:
        shutil.rmtree(d, ignore_errors=True)

ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
with ThreadPoolExecutor(6) as ex:
    res = list(ex.map(one, ids))
for i, t in res:
    if t != "ok":
        print(i, t)
print(len(res), "planted,", sum(t == "ok" for _, t in res), "ok")
