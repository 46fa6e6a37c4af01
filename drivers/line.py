import numpy as np
import CommDspy as cdsp
from harness.drv import *

CONST = {2: ["NRZ", "OOK"], 3: ["PAM3"], 4: ["PAM4"]}


def enc_fn(code, m, pick=0):
    t = cdsp.tx
    if code == "diff":
        c = getattr(cdsp.ConstellationEnum, CONST[m][pick % len(CONST[m])])
        return lambda x: t.coding_differential(x, c)
    return dict(man=t.coding_manchester, bip=t.coding_bipolar, mlt3=t.coding_mlt3, dman=t.coding_differential_manchester)[code]


def dec_fns(code, m, pick=0):
    r = cdsp.rx
    if code == "diff":
        c = getattr(cdsp.ConstellationEnum, CONST[m][pick % len(CONST[m])])
        return [lambda x: r.decoding_differential(x, c)]
    if code == "bip":
        return [r.decoding_bipolar, lambda x: r.decoding_bipolar(x, True), lambda x: r.decoding_bipolar(x, error_detection=False)]
    return [dict(man=r.decoding_manchester, mlt3=r.decoding_mlt3, dman=r.decoding_differential_manchester)[code]]


KINDS = [("diff", 2), ("diff", 3), ("diff", 4), ("man", 2), ("bip", 2), ("mlt3", 2), ("dman", 2)]


def shapes(rng):
    a, b, c = (int(v) for v in rng.integers(1, 6, 3))
    return [(1,), (int(rng.integers(1, 9)),), (int(rng.integers(9, 70)),), (a, b), (a, 1), (1, b), (a, b, c), (2, a, b, 2), (4, 5)][rng.integers(9)]


def inputs(ctx):
    """(code, m, array) of every kind, shape, length, density"""
    rng = ctx.rng
    for code, m in KINDS:
        for rep in range(ctx.n(40, 250)):
            shp = shapes(rng)
            p = rng.choice([0.0, 0.1, 0.5, 0.5, 0.9, 1.0])
            x = rng.integers(0, m, shp) * (rng.random(shp) < p) if p < 1 else np.full(shp, m - 1)
            x = narrow(rng, x)
            yield code, m, x, rep
        for n in (257, 1500, 5000):
            yield code, m, rng.integers(0, m, n), 0
        yield code, m, np.ones(700, dtype=int), 1
        yield code, m, np.full(300, m - 1), 0


def loops(rng, code, m):
    """a short input after which the encoder is back where it started"""
    n = int(rng.integers(4, 9)) * 2
    x = rng.integers(0, m, n)
    if code == "diff":
        x[-1] = 0; x[-1] = -int(x.sum()) % m
    elif code in ("bip", "mlt3"):
        x = np.concatenate([x, np.ones(-int(x.sum()) % 4, int)])
    elif code == "dman" and (x == 0).sum() % 2:
        x[-1] = 1 - x[-1]
    return x


LONG = (509, 4001, 20011)
