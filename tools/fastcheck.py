#!/usr/bin/env python3
"""fastcheck.py PROP: check.py with the (repository-independent) MC_ model runs cached on disk; for mutation campaigns only."""
import hashlib, os, pickle, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
from harness import tlc
real = tlc.run
CACHE = os.environ.get("VERIF_VECCACHE", "/tmp/veccache")


def spechash():
    h = hashlib.md5()
    for f in sorted(os.listdir(tlc.SPEC)):
        if f.endswith(".tla") and not f.startswith("TR_"):
            h.update(open(os.path.join(tlc.SPEC, f), "rb").read())
    return h.hexdigest()


def run(mod, cfg, **k):
    if not mod.startswith("MC_"):
        k["workers"] = 2
        return real(mod, cfg, **k)
    os.makedirs(CACHE, exist_ok=True)
    p = os.path.join(CACHE, hashlib.md5((mod + cfg + spechash()).encode()).hexdigest())
    if os.path.exists(p):
        return pickle.load(open(p, "rb"))
    r = real(mod, cfg, **k)
    pickle.dump(r, open(p + ".%d" % os.getpid(), "wb"))
    os.replace(p + ".%d" % os.getpid(), p)
    return r


tlc.run = run
rdrive = check.drive


def drive(*a, **k):
    m = rdrive(*a, **k)
    if m.get("mismatch") or m.get("import_error") or m.get("hanging") or m.get("raised"):
        print("VIOLATION early", str(m.get("mismatch"))[:300])
        sys.exit(1)
    return m


check.drive = drive
sys.exit(check.main())
