#!/usr/bin/env python3
"""plant.py BUGFILE.py [ids...]: confirms planted changes in scratch copies of /repo and keeps them under /verif/seeded.
BUGFILE defines BUGS = [dict(id, property, file, edits=[(old, new), ...] (or files={file: edits}), demo=python text, needs, breaks)]."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def env(d):
    e = dict(os.environ)
    e.update(PYTHONPATH=d + ":/opt/vp/plugins", MPLBACKEND="Agg", MPLCONFIGDIR=d + "/.mpl", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    return e

def tests(d):
    os.makedirs(d + "/.mpl", exist_ok=True)
    p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:warnings", "-p", "fixed_seed", "--timeout=180", "-rA",
                        "--deselect", "test/test_main.py::test_equalization", "."], cwd=d + "/test", env=env(d), capture_output=True, text=True)
    ok = set()
    for line in p.stdout.splitlines():
        if line.startswith("PASSED "):
            ok.add("test.test_main::" + line.split("::")[-1].strip())
    return sorted(STABLE - ok)

def plant(b):
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        r = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        out = os.path.join(ROOT, "seeded", b["id"])
        tmp = d + "/seed"
        os.makedirs(tmp)
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        open(tmp + "/demo.py", "w").write(b["demo"].strip() + "\n")
        demo = lambda: subprocess.run(["bash", tmp + "/demo.sh"], cwd=r, capture_output=True, text=True)
        p = demo()
        if p.returncode != 0:
            return b["id"], "demo fails on the unchanged tree: " + (p.stdout + p.stderr)[-400:]
        files = b.get("files") or {b["file"]: b["edits"]}
        for f, edits in files.items():
            s = open(os.path.join(r, f), newline="").read()
            for old, new in edits:
                if s.count(old) == 0:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if s.count(old) != 1:
                    return b["id"], "text occurs %d times in %s: %r" % (s.count(old), f, old)
                s = s.replace(old, new)
            open(os.path.join(r, f), "w", newline="").write(s)
        if demo().returncode == 0:
            return b["id"], "demo does not fail with the change"
        bad = tests(r)
        if bad:
            return b["id"], "tests fail: %s" % bad
        import re
        orig = 0
        for f in files:
            bl = subprocess.run(["git", "blame", "-l", "--root", "HEAD", "--", f], cwd=r, capture_output=True, text=True).stdout.splitlines()
            base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=r, capture_output=True, text=True).stdout.strip()
            for m in re.finditer(r"(?m)^@@ -(\d+)(?:,(\d+))?", subprocess.run(["git", "diff", "-U0", "--", f], cwd=r, capture_output=True, text=True).stdout):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                orig += sum(bl[i - 1].lstrip("^").startswith(base[:38]) for i in range(a, a + n))
        if not orig:
            return b["id"], "no original line is changed"
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True).stdout
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "wb").write(diff)
        shutil.copy(tmp + "/demo.sh", out)
        shutil.copy(tmp + "/demo.py", out)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
        return b["id"], "kept"
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    with ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(plant, [b for b in ns["BUGS"] if not want or b["id"] in want]):
            print(i, m)
