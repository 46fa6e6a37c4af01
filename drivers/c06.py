import numpy as np
import CommDspy as cdsp
from harness.drv import *


def replay(ctx, vecs):
    by = {}
    for v in vecs:
        by.setdefault((v["b"], v["f"], v["ty"]), []).append(v)
    for (b, f, ty), vs in by.items():
        o, e = call(cdsp.rx.quantize, np.array([v["x"] for v in vs]) / 2.0 ** 4, b, f, ty)
        got = flat(o, 2 ** 4)
        for i, v in enumerate(vs):
            g = got[i] if i < len(got) else BADINT
            ctx.check(v, "nearest grid value (any of set)", ["", True], [e, g in v["set"]])


def record(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(300, 2500)):
        b = int(rng.integers(1, 11) if rep % 8 else rng.integers(11, 17))
        f = int(rng.integers(-5, 7))
        U = 6
        if rep % 6 == 0 and b <= 10:
            f = int(rng.integers(-8, 13)); U = max(1, f + int(rng.integers(0, 3)))
        ty = str(rng.choice(["u", "s", "ss"]))
        if ty != "u":
            b = max(b, 2 if ty == "ss" else 1)
        shp = [(1,), (9,), (3, 4), (2, 2, 3), (40,), (1, 5), (2, 1, 3, 2)][rng.integers(7)]
        step = 2 ** (U - f)
        lo, hi = {"u": (0, 2 ** b - 1), "s": (-2 ** (b - 1), 2 ** (b - 1) - 1), "ss": (1 - 2 ** (b - 1), 2 ** (b - 1) - 1)}[ty]
        m = rng.integers(4)
        if m == 0:
            x = rng.integers((lo - 3) * step, (hi + 3) * step + 1, shp)
        elif m == 1:
            x = rng.integers(lo, hi + 1, shp) * step
        elif m == 2:
            x = rng.integers(lo, hi + 1, shp) * step + rng.integers(-step // 2 - 1, step // 2 + 2, shp)
        else:
            x = rng.choice([(lo - 50) * step, (hi + 50) * step, hi * step + 1, lo * step - 1, lo * step, hi * step], shp)
        if ty == "u" and rep % 3 == 0:
            args = (x / 2.0 ** U, b, f)          # the default type
        elif f == 0 and rep % 2 == 0 and ty == "u":
            args = (x / 2.0 ** U, b)
        else:
            args = (x / 2.0 ** U, b, f, ty)
        if rep % 5 == 0 and not (x % 2 ** U).any():
            args = (x // 2 ** U,) + args[1:]         # an integer signal
        args = (lay(rng, args[0]),) + args[1:]
        o, e = call(cdsp.rx.quantize, *args)
        ctx.add(dict(u=U), {"op": "quant", "in": ilist(x), "out": flat(o, 2 ** U), "b": b, "f": f, "ty": ty, "shp": shape(o),
                            "ishp": list(shp), "exc": e})
    for ty in ["x", "S", "U", "us", "", "signed", "sss"]:
        o, e = call(cdsp.rx.quantize, np.array([0.3]), 3, 0, ty)
        ctx.add(dict(u=6), dict(op="reject", exc=e))
    x = rng.integers(-700, 700, 4000)
    o, e = call(cdsp.rx.quantize, x / 4.0, 8, 0, "s")
    ctx.add(dict(u=2), {"op": "quant", "in": ilist(x), "out": flat(o, 4), "b": 8, "f": 0, "ty": "s", "shp": shape(o), "ishp": [4000], "exc": e})
    for reps in (509, 2003, 9001, 60013):         # very long inputs, as repetitions of a short one
        ty = ["u", "s", "ss"][reps % 3]
        b, f = int(rng.integers(3, 9)), int(rng.integers(0, 3))
        U = 16                                     # and close to the middle between two values
        x = rng.integers(-2 ** b, 2 ** b, int(rng.integers(5, 12))) * 2 ** (U - f) + 2 ** (U - f - 1) + rng.choice([-1, 1])
        o, e = call(cdsp.rx.quantize, np.tile(x / 2.0 ** U, reps), b, f, ty)
        for t in tiles(o, reps, e):
            ctx.add(dict(u=U), {"op": "quant", "in": ilist(x), "out": flat(t, 2 ** U), "b": b, "f": f, "ty": ty, "shp": shape(t), "ishp": [len(x)], "exc": e})
