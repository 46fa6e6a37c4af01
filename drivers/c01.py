import numpy as np
import CommDspy as cdsp
from harness.drv import *

NAMED = [7, 9, 11, 13, 15, 31]


def gen_ev(poly, seed, n):
    r, exc = call(cdsp.tx.prbs_gen, poly, seed, n)
    if exc or not (isinstance(r, tuple) and len(r) == 2):
        return dict(op="gen", n=int(n), exc=exc or "NotAPair", out=[], oseed=[]), None
    return dict(op="gen", n=int(n), exc="", out=flat(r[0]), oseed=flat(r[1])), r[1]


def next_ev(it):
    r, exc = call(next, it)
    return dict(op="next", exc=exc, out=flat([r]) if not exc else [], oseed=flat(call(lambda: it.get_seed())[0]),
                oprev=flat(call(lambda: it.get_prev_seed())[0]))


def history(ctx, poly, seed, steps):
    """steps: list of ('gen', n) or ('next', n): carries the seed the code returned"""
    ev, s = [], seed
    for kind, n in steps:
        if kind == "gen":
            e, s2 = gen_ev(poly, s, n)
            ev.append(e)
            if s2 is None:
                break
            s = s2
        else:
            it, exc = call(cdsp.tx.PrbsIterator, poly, s)
            if exc:
                ev.append(dict(op="next", exc=exc, out=[], oseed=[], oprev=[]))
                break
            it, exc = call(iter, it)
            if exc:
                ev.append(dict(op="next", exc=exc, out=[], oseed=[], oprev=[]))
                break
            for _ in range(n):
                ev.append(next_ev(it))
            s, exc = call(it.get_seed)
            if exc or s is None:
                break
    ctx.add(dict(poly=ilist(poly), seed=ilist(seed)), ev)


def replay(ctx, vecs):
    for v in vecs:
        poly, s = np.array(v["poly"]), np.array(v["seed"])
        out, oseed = [], flat(s)
        for n in v["cuts"]:
            e, s = gen_ev(poly, s, n)
            out += e["out"]
            oseed = e["oseed"]
            if s is None:
                break
        ctx.check(v, "stream", [v["out"], v["oseed"]], [out, oseed])


def record(ctx):
    rng = ctx.rng
    # named types: any seed, any cut, also beyond a period for the short ones
    for n in NAMED:
        poly = cdsp.get_polynomial(cdsp.PrbsEnum(n))
        seeds = [np.ones(n, int), np.eye(n, dtype=int)[0], np.eye(n, dtype=int)[-1], np.zeros(n, int)] + \
                [bits(rng, n) for _ in range(ctx.n(4, 20))]
        for s in seeds:
            cuts = []
            for _ in range(ctx.n(6, 12)):
                k = rng.integers(0, 6)
                cuts.append([("gen", 0), ("gen", int(rng.integers(1, n))), ("gen", n), ("gen", int(rng.integers(n, 3 * n + 2))),
                             ("next", int(rng.integers(1, 6))), ("gen", int(rng.integers(1, 120)))][k])
            history(ctx, poly, s, cuts)
            history(ctx, poly, s, [("gen", 1)] * 5 + [("gen", n - 1), ("gen", n + 1), ("next", 3), ("gen", 2 * n)])
        p = 2 ** n - 1
        if n <= 9:
            for k in [p - 1, p, p + 1, p + n - 1, p + n, 2 * p - 1, 2 * p, 2 * p + 1, 2 * p + n + 3] + ([3 * p + 5] if n == 7 else []):
                history(ctx, poly, bits(rng, n), [("gen", k), ("gen", int(rng.integers(1, n))), ("gen", 40)])
        elif n <= 15:
            for k in [p, p + 3, 2 * p + 1] if n == 11 or not ctx.quick else [2 * p + 1 if n == 13 else p + 1 + int(rng.integers(n))]:
                history(ctx, poly, bits(rng, n), [("gen", k), ("gen", 5), ("gen", 50)])
        else:
            history(ctx, poly, bits(rng, n), [("gen", 6000), ("next", 2), ("gen", 70)])
        # several iterators at once, each with its own state
        its = [(s, call(cdsp.tx.PrbsIterator, poly, s)[0], []) for s in (bits(rng, n), np.ones(n, int), bits(rng, n))]
        for _ in range(60):
            s, it, ev = its[int(rng.integers(3))]
            ev.append(next_ev(it))
        for s, it, ev in its:
            ctx.add(dict(poly=ilist(poly), seed=ilist(s)), ev)
    # arbitrary polynomials of any degree, up to their nominal period
    for _ in range(ctx.n(150, 800)):
        n = int(rng.integers(1, 41))
        poly = bits(rng, n, rng.choice([0.1, 0.3, 0.5, 0.9]))
        lim = 2 ** n - 1 if n < 12 else 4096
        steps = []
        for _ in range(int(rng.integers(1, 6))):
            if rng.random() < 0.25:
                steps.append(("next", int(rng.integers(1, 8))))
            else:
                steps.append(("gen", int(rng.integers(0, min(lim, 90 if rng.random() < .9 else 1500) + 1))))
        history(ctx, narrow(rng, poly), narrow(rng, bits(rng, n)), steps)
