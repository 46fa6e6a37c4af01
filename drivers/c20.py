import numpy as np
import CommDspy as cdsp
from harness.drv import *


def eye(*a, **k):
    r, e = call(cdsp.eye_diagram, *a, **k)
    if not e and not (isinstance(r, tuple) and len(r) == 2):
        e = "NotAPair"
    return (r if not e else (None, None)), e


def counts(m):
    """what a logarithmic diagram says the counts are"""
    return np.power(10.0, np.asarray(m, float)) - 0.1


def replay(ctx, vecs):
    for i, v in enumerate(vecs):
        x = np.array(v["s"]) / 2.0
        log = i % 3 == 0
        (m, a), e = eye(x, v["osr"], v["osr"], fs_value=2, quantization=v["q"], **(dict(logscale=True) if log else {}))
        f, s = enc(counts(m) if log and not e else m)
        ctx.check(v, "eye", ["", sum(v["eye"], []), [v["q"], 2 * v["osr"]]], [e, f, s])


def record(ctx):
    rng = ctx.rng
    U = 100000
    for rep in range(ctx.n(120, 800)):
        osr_in = int(rng.integers(1, 9))
        ratio = 1 if rep % 2 else int(rng.choice([2, 3, 4]))
        osr = osr_in * ratio
        nsym = int(rng.integers(1, 20)) + (2 if ratio > 1 else 0)
        fs = float(rng.choice([1, 2, 0.5, 3]))
        q = int(rng.choice([1, 2, 3, 5, 8, 16, 32, 100])) if osr < 8 or not ctx.quick else int(rng.choice([2, 8, 20]))
        x = np.round(rng.normal(0, fs / 2, nsym * osr_in) * 1000) / 1000 + 0.0003
        k = {}
        if fs != 1 or rng.random() < .5:
            k["fs_value"] = fs
        if q != 256:
            k["quantization"] = q
        log = rng.random() < .3
        if log:
            k["logscale"] = True
        (m, a), e = eye(lay(rng, x), osr_in, osr, **k)
        s = x
        if ratio > 1:
            r, e2 = call(cdsp.digital_oversample, x, ratio, osr_in, "sinc")
            e = e or e2
            s = r[0] if not e2 else x
        f, shp = enc(counts(m) if log and not e else m)
        ctx.add({}, dict(osr=osr, F=int(round(fs * U)), q=q, eps=2, rep=1, s=flat(s, U, False), eye=f, shp=shp, amp=flat(a, U, False), exc=e))
    for osr, nsym, q, fs in ((1, 6000, 4, 1), (2, 3000, 3, 2), (3, 400, 64, 1), (1, 600, 256, 3), (16, 12, 40, 1), (40, 3, 10, 1)):
        lev = rng.choice([-.71, .33, .08, -1.2], nsym * osr, p=[.6, .2, .1, .1]) * fs + 0.0003
        log = bool(rng.integers(2))
        (m, a), e = eye(lev, osr, osr, fs, q, **dk(rng, logscale=(log, False)))
        f, shp = enc(counts(m) if log and not e else m)
        ctx.add({}, dict(osr=osr, F=fs * U, q=q, eps=2, rep=1, s=flat(lev, U, False), eye=f, shp=shp, amp=flat(a, U, False), exc=e))
    for rep in range(ctx.n(20, 120)):                         # whole samples, as integers of some type
        osr, nsym, fs, q = int(rng.integers(1, 5)), int(rng.integers(1, 15)), int(rng.choice([3, 7, 100])), int(rng.choice([2, 4, 9, 16]))
        x = retype(rng, rng.integers(0, fs + 3, nsym * osr) if rep % 2 else rng.integers(-fs - 2, fs + 3, nsym * osr), rep % 2)
        V = U // (1 if fs < 10 else 10)
        (m, a), e = eye(x, osr, osr, **dk(rng, fs_value=(fs, 1), quantization=(q, 256)))
        f, shp = enc(m)
        ctx.add({}, dict(osr=osr, F=fs * V, q=q, eps=2, rep=1, s=flat(x, V, False), eye=f, shp=shp, amp=flat(a, V, False), exc=e))
    (m, a), e = eye(np.linspace(-.99, .99, 40), 2, 2)          # defaults: 256 bins, range one
    f, shp = enc(m)
    ctx.add({}, dict(osr=2, F=U, q=256, eps=2, rep=1, s=flat(np.linspace(-.99, .99, 40), U, False), eye=f, shp=shp, amp=flat(a, U, False), exc=e))
    for osr, q, R in ((1, 3, 70000), (2, 5, 40000), (3, 2, 12000), (1, 8, 140000)):      # a short pattern over and over: counts beyond any small integer type
        p = rng.choice([-.71, .33, .08, -1.2], 3 * osr) + 0.0003
        log = bool(rng.integers(2))
        (m, a), e = eye(np.tile(p, R), osr, osr, 1, q, **dk(rng, logscale=(log, False)))
        f, shp = enc(counts(m) if log and not e else m)
        ctx.add({}, dict(osr=osr, F=U, q=q, eps=2, rep=R, s=flat(p, U, False), eye=f, shp=shp, amp=flat(a, U, False), exc=e))
