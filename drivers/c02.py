import numpy as np
import CommDspy as cdsp
from harness.drv import *
from drivers.c01 import gen_ev, NAMED
from drivers.c01 import next_ev

TAPS = {7: (6, 7), 9: (5, 9), 11: (9, 11), 13: (1, 2, 12, 13), 15: (14, 15), 31: (28, 31)}


def replay(ctx, vecs):
    pass


def record(ctx):
    rng = ctx.rng
    for n in NAMED:
        spec_poly = [1 if i + 1 in TAPS[n] else 0 for i in range(n)]     # only to name the trace's configuration
        r, exc = call(cdsp.get_polynomial, cdsp.PrbsEnum(n))
        cfg = lambda s: dict(poly=spec_poly, seed=ilist(s))
        ctx.add(cfg(np.ones(n, int)), dict(op="poly", n=n, exc=exc, out=flat(r) if not exc else []))
        if exc:
            continue
        # whole periods, the code's own polynomial against the standard recurrence
        seeds = [np.ones(n, int)] + [np.maximum(bits(rng, n), np.eye(n, dtype=int)[rng.integers(n)]) for _ in range(ctx.n(2, 8))]
        p = 2 ** n - 1
        for i, s in enumerate(seeds):
            ev, cur = [], s
            lens = [p] if n <= 13 and i else ([p + n] if n <= 15 and i == 0 else [400, 1000])
            if n == 15 and i:
                lens = [3000, 29767]
            if n == 31 and i == 1:            # far beyond the periods of the other types
                lens = [ctx.n(150000, 1100000)]
            for k in lens:
                e, cur = gen_ev(r, cur, k)
                ev.append(e)
                if cur is None:
                    break
            ctx.add(cfg(s), ev)
        for s in np.eye(n, dtype=int):        # every unit seed: a basis of all seeds
            e, _ = gen_ev(r, s, 3 * n)
            ctx.add(cfg(s), [e])
