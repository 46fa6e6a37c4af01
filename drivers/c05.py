import numpy as np
import CommDspy as cdsp
from harness.drv import *


def replay(ctx, vecs):
    by = {}
    for v in vecs:
        by.setdefault(tuple(v["lv"]), []).append(v)
    for lv, vs in by.items():            # one call per level list, one element per vector
        o, e = call(cdsp.rx.slicer, np.array([v["x"] for v in vs]) / 2.0, np.array(lv) / 2.0)
        got = flat(o, 2)
        for i, v in enumerate(vs):
            g = got[i] if i < len(got) else BADINT
            ctx.check(v, "nearest level (any of set)", ["", True], [e, g in v["set"]])


def record(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(300, 2000)):
        scale = int(rng.choice([1, 10, 1000]))
        n = int(rng.choice([1, 2, 2, 3, 4, 4, 5, 8, 16, 64, 300]))
        lv = np.sort(rng.choice(np.arange(-20 * scale, 20 * scale), n, replace=False)) if 40 * scale > n else np.arange(n)
        shp = [(1,), (7,), (3, 4), (5, 1), (1, 6), (2, 3, 2), (40,), (2, 1, 3, 2)][rng.integers(8)]
        mode = rng.integers(4)
        if rep % 4 == 0:
            lv_arg, lv_rec = None, []
            base = np.array([-3, -1, 1, 3]) * scale
        else:
            lv_arg, lv_rec, base = lv / scale, ilist(lv), lv
        x = rng.integers(-30 * scale, 30 * scale, shp)
        if mode == 1:       # on the levels and next to midpoints
            mids = np.concatenate([base, (base[1:] + base[:-1]) // 2, (base[1:] + base[:-1] + 1) // 2, (base[1:] + base[:-1]) // 2 - 1])
            x = rng.choice(mids, shp)
        if mode == 2:
            x = rng.integers(base[0] - 3 * scale, base[-1] + 3 * scale + 1, shp)
        if mode == 3:
            x = rng.choice([-400000, 400000, base[0] - 1, base[-1] + 1], shp)
        xin = x / scale
        if rep % 5 == 1:
            xin = xin.tolist()
        elif scale == 1 and rep % 5 == 2:
            xin = x.copy()
        if not isinstance(xin, list):
            xin = lay(rng, xin)
        args = (xin,) if lv_arg is None else (xin, lv_arg)
        if lv_arg is not None and rep % 7 == 3 and scale == 1:
            args = (xin, lv.copy())
        o, e = call(cdsp.rx.slicer, *args)
        ctx.add(dict(scale=scale), {"in": ilist(x), "out": flat(o, scale), "lv": lv_rec, "shp": shape(o), "ishp": list(shp), "exc": e})
    # far levels and inputs a millionth off the thresholds
    for rep in range(ctx.n(24, 150)):
        sc = [10 ** 6, 2 ** 20][rep % 2]
        lv = np.sort(2 * np.unique(rng.integers(-150 * sc, 150 * sc, int(rng.choice([2, 3, 4, 8])))) if rep % 3 else 2 * sc * np.sort(rng.choice(150, 4, replace=False)))
        x = np.concatenate([(lv[1:] + lv[:-1]) // 2 + k for k in (-2, -1, 0, 1, 2)] + [lv])
        o, e = call(cdsp.rx.slicer, lay(rng, x / sc), lv / sc)
        ctx.add(dict(scale=sc), {"in": ilist(x), "out": flat(o, sc), "lv": ilist(lv), "shp": shape(o), "ishp": [len(x)], "exc": e})
    # whole numbers of short and unsigned types, signal and levels alike
    for rep in range(ctx.n(60, 300)):
        t = [np.int8, np.uint8, np.int16, np.uint16, np.uint32, np.int32][rep % 6]
        lo, hi = max(np.iinfo(t).min, -400000), min(np.iinfo(t).max, 400000)
        lv = np.sort(rng.choice(np.arange(lo, hi + 1, 1 if hi < 1000 else 97), int(rng.choice([1, 2, 4, 9])), replace=False))
        x = rng.integers(lo, hi + 1, 30)
        if rep % 2:
            x = np.clip(rng.choice(lv, 30) + rng.integers(-40, 41, 30), lo, hi)
        a = lv.astype(t) if rep % 4 < 3 else lv
        o, e = call(cdsp.rx.slicer, lay(rng, x.astype(t)), a)
        ctx.add(dict(scale=1), {"in": ilist(x), "out": flat(o, 1), "lv": ilist(lv), "shp": shape(o), "ishp": [30], "exc": e})
    # very long inputs, as repetitions of a short one
    for reps in (211, 1009, 2003, 8009, 60013):
        lv = [-9, -2, 0, 1, 30] if reps % 4 == 1 else [-3, -1, 1, 3]
        sc = 10 ** 6
        mids = np.array([(a + b) * sc // 2 for a, b in zip(lv, lv[1:])] + [-40 * sc, 40 * sc, 17])
        x = rng.choice(mids, int(rng.integers(5, 12))) + rng.integers(-9, 10)
        x[:2] = mids[:2] + [1, -1]
        o, e = call(cdsp.rx.slicer, np.tile(x / sc, reps), *([np.array(lv) * 1.0] if len(lv) == 5 else []))
        for t in tiles(o, reps, e):
            ctx.add(dict(scale=sc), {"in": ilist(x), "out": flat(t, sc), "lv": [v * sc for v in lv] if len(lv) == 5 else [], "shp": shape(t), "ishp": [len(x)], "exc": e})
    # a long block mixes everything: the decision of an element does not depend on its neighbours
    for lvs in (None, [-9, -2, 0, 1, 30]):
        x = rng.integers(-400, 400, 3000)
        args = (x / 10.0,) if lvs is None else (x / 10.0, np.array(lvs) / 10.0)
        o, e = call(cdsp.rx.slicer, *args)
        ctx.add(dict(scale=10), {"in": ilist(x), "out": flat(o, 10), "lv": lvs or [], "shp": shape(o), "ishp": [3000], "exc": e})
    # scalar input (0-dimensional): one decision
