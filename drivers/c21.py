import numpy as np
import CommDspy as cdsp
from harness.drv import *


def step(x, r, **k):
    v, e = call(cdsp.rx.mueller_muller_step, x, r, **k)
    f = flat(v)
    return (f[0] if len(f) == 1 else BADINT), e


def replay(ctx, vecs):
    for v in vecs:
        x, r = np.array(v["x"], float), np.array(v["r"])
        k = {}
        if v["wpost"] != 1:
            k["post_weight"] = v["wpost"]
        if v["wpre"] != 1:
            k["pre_weight"] = v["wpre"]
        a, e = step(x, r, **k)
        ctx.check(v, "step", ["", True], [e, a in v["s"]])
        a, e = step(x, r, tol=2.5, **k)
        ctx.check(v, "step with tolerance", ["", True], [e, a in v["s2"]])


def record(ctx):
    rng = ctx.rng
    for d in (5, 8, 12, 20, 15, 50, 3):           # around the default tolerance, in 1e-4 units of the mean difference
        for sg in (1, -1):
            x, r = np.array([0, 10000, 10000 + sg * d]), np.array([1, 1, 1])
            x = np.array([10000, 0, 10000 + sg * 2 * d])
            v, e = step(x / 10000, r)
            ctx.add({}, dict(x=ilist(x), r=ilist(r), wpost=1, wpre=1, u=10000, tn=1, td=1000, step=v, exc=e))
    for rep in range(ctx.n(300, 2000)):
        n = int(rng.choice([2, 3, 5, 10, 40, 100, 400]))
        if rep % 60 == 7:
            n = int(rng.integers(2000, 6000))
        us, uw = int(rng.choice([1, 2, 8])), int(rng.choice([1, 4]))
        r = rng.choice([[-1, 1], [-3, -1, 1, 3], [0, 1], [-1, 0, 1]][rng.integers(4)], n)
        x = rng.integers(-30, 31, n)
        if rep % 4 == 0:     # nearly balanced chunks
            x = r * 4 * us + rng.integers(-1, 2, n)
        wpost, wpre = (uw, uw) if rng.random() < .5 else (int(v) for v in rng.integers(-6, 9, 2))
        tn, td = [(1, 1000), (0, 1), (1, 2), (1, 10), (5, 1), (1, 8)][rng.integers(6)]
        k = {}
        if (tn, td) != (1, 1000):
            k["tol"] = tn / td
        if (wpost, wpre) != (uw, uw):
            k.update(post_weight=wpost / uw, pre_weight=wpre / uw)
        if us == 1 and rep % 3 == 0:                  # short integers, unsigned ones included
            if rep % 2 and n * td > 9000:             # what is judged stays within 32 bits
                tn, td, k["tol"] = 1, 2, .5
            x = rng.integers(0, 120, n) if rep % 2 else x
            r = np.abs(r) * 40 if rep % 2 else r
            t = [np.int8, np.uint8, np.int16][rng.integers(3 if rep % 2 else 1)]
            v, e = step(x.astype(t), r.astype(t), **k)
        else:
            v, e = step(lay(rng, x / us if us > 1 else x), lay(rng, r.astype(float) if rep % 5 == 2 else r), **k)
        ctx.add({}, dict(x=ilist(x), r=ilist(r), wpost=wpost, wpre=wpre, u=us * uw, tn=tn, td=td, step=v, exc=e))
