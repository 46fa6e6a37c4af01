import numpy as np
import CommDspy as cdsp
import CommDspy.auxiliary as aux
from harness.drv import *


def replay(ctx, vecs):
    for v in vecs:
        x = np.array(v["x"])
        for clip, key in ((False, "rows"), (True, "crows")):
            r, e = call(cdsp.buffer, x, v["len"], overlap=v["ov"], delay=v["d"], clip=clip)
            f, s = enc(r)
            ctx.check(v, key, ["", sum(v[key], []), [len(v[key]), v["len"]]], [e, f, s])


def fr(ctx, op, res_, e, **k):
    f, s = enc(res_) if not e else ([], [])
    ctx.add({}, dict(op=op, out=f, shp=s, exc=e, **k))


def record(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(150, 1000)):
        big = rng.random() < .15
        ln = int(rng.integers(1, 12) if not big else rng.integers(12, 70))
        ov = int(rng.integers(-6 if not big else -40, ln))
        d = int(rng.choice([0, 0, 1, 2, 5, 17, 64]))
        n = int(rng.integers(max(1, ov - d + 1), 50 if not big else 300))
        x = rng.integers(-2 if rng.random() < .5 else -100, 3, n)      # repeated values make rows look alike
        clip = bool(rng.random() < .5)
        k = {}
        if ov or rng.random() < .5:
            k["overlap"] = ov
        if d or rng.random() < .5:
            k["delay"] = d
        if clip:
            k["clip"] = True
        xin = x.astype(float) if rng.random() < .5 else x
        fr(ctx, "buffer", *call(cdsp.buffer, lay(rng, xin), ln, **k), x=ilist(x), len=ln, ov=ov, d=d, clip=int(clip))
    for ln, ov, d, n in ((64, 16, 0, 5000), (5, 2, 300, 3000), (7, -3, 1, 4200), (2500, 100, 0, 6000), (1, 0, 0, 4100)):
        x = rng.integers(-100, 100, n)
        clip = bool(rng.random() < .5)
        fr(ctx, "buffer", *call(cdsp.buffer, lay(rng, x), ln, overlap=ov, delay=d, clip=clip), x=ilist(x), len=ln, ov=ov, d=d, clip=int(clip))
    for rep in range(ctx.n(40, 200)):
        x = rng.integers(-50, 50, int(rng.integers(1, 30) if rep > 2 else 3000))
        r = int(rng.integers(1, 10) if rng.random() < .8 or rep < 3 else rng.integers(10, 70))
        if rep % 5 == 4:
            x = x * 30000001 // 3
        xin = x.astype(float) if rng.random() < .5 else x
        fr(ctx, "upsample", *call(cdsp.upsample, lay(rng, xin), r), x=ilist(x), r=r)
        fr(ctx, "zoh", *call(cdsp.zoh, lay(rng, xin), r), x=ilist(x), r=r)
    for reps in (1021, 9001, 30011):                # very long inputs, as repetitions of a short one
        x = rng.integers(-1800000000, 1800000000, int(rng.integers(4, 12))) | 1
        r = int(rng.integers(2, 6))
        for op, fn in (("upsample", cdsp.upsample), ("zoh", cdsp.zoh)):
            o, e = call(fn, np.tile(x, reps), r)
            for t in tiles(o, reps, e):
                fr(ctx, op, t, e, x=ilist(x), r=r)
        k = int(rng.choice([3, 8, 12]))
        x = rng.integers(0, 2 ** k, 4)
        o, e = call(aux.uint2bin, np.tile(x, reps), k)
        for t in tiles(o, reps, e):
            fr(ctx, "uint2bin", t.reshape(-1, k) if t is not None and t.size % k == 0 else t, e, x=ilist(x), ishp=[4], k=k)
        b = bits(rng, [4, k])
        o, e = call(aux.bin2uint, np.tile(b, (reps, 1)))
        for t in tiles(o, reps, e):
            fr(ctx, "bin2uint", t, e, x=ilist(b), ishp=[4], k=k)
        x = rng.integers(-8, 9, 5)
        p, e = call(cdsp.power, np.tile(x * 1.0, reps))
        q, e2 = call(cdsp.rms, np.tile(x * 1.0, reps))
        ctx.add({}, dict(op="power", x=ilist(x), im=[0] * 5, u=1, p=flat(p, 5)[0], r=flat(q, 1000, False)[0], exc=e or e2))
    for k in range(1, ctx.n(9, 12)):
        fr(ctx, "perm", *call(cdsp.get_bin_perm, k), k=k)
    for _ in range(ctx.n(80, 500)):
        k = int(rng.choice([1, 2, 3, 5, 8, 12, 20, 27, 30]))
        shp = [int(v) for v in rng.integers(1, 4, int(rng.integers(1, 4)))]
        x = rng.integers(0, 2 ** k, shp)
        xin, b = x, bits(rng, shp + [k])
        bin_ = b
        if rng.random() < .5:                          # other integer types
            fit = [t for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32) if np.iinfo(t).max >= 2 ** k - 1]
            xin = x.astype(fit[rng.integers(len(fit))])
            bin_ = b.astype([bool, np.int8, np.uint8, np.int16, np.uint32][rng.integers(5)])
        fr(ctx, "uint2bin", *call(aux.uint2bin, lay(rng, xin), k), x=ilist(x), ishp=shp, k=k)
        fr(ctx, "bin2uint", *call(aux.bin2uint, lay(rng, bin_)), x=ilist(b), ishp=shp, k=k)
    for _ in range(ctx.n(30, 200)):                   # words wider than the specification's integers, judged in two halves
        k = int(rng.integers(31, 61))
        b = bits(rng, [int(rng.integers(1, 5)), k])
        t = [int, bool, np.int8, np.uint8, np.int32][rng.integers(5)]
        r, e = call(aux.bin2uint, lay(rng, b.astype(t)))
        v = [int(z) for z in np.asarray(r).reshape(-1)] if not e and np.asarray(r).dtype.kind in "iu" else []
        lo = 30
        ctx.add({}, dict(op="wide", x=ilist(b), n=len(b), k=k, lo=lo, hi_=[z >> lo for z in v], lo_=[z & (2 ** lo - 1) for z in v], exc=e))
        x = [int(z) for z in rng.integers(0, 2 ** k, 3)]
        r, e = call(aux.uint2bin, np.array(x), k)
        ctx.add({}, dict(op="wide", x=flat(r) if not e else [], n=3, k=k, lo=lo, hi_=[z >> lo for z in x], lo_=[z & (2 ** lo - 1) for z in x], exc=e))
    for _ in range(ctx.n(50, 300)):
        M, N, k = (int(v) for v in (rng.integers(1, 9, 3) if rng.random() < .8 else rng.integers(1, [40, 40, 60], 3)))
        cb, x = bits(rng, [M, k]), bits(rng, [N, k])
        t = [int, int, np.int8, np.uint8, np.uint16, bool][rng.integers(6)]
        r, e = call(aux.hamming, lay(rng, x.astype(t)), lay(rng, cb.astype(t)))
        if not e and not (isinstance(r, tuple) and len(r) == 2):
            e = "NotAPair"
        fr(ctx, "hamming", r[0] if not e else None, e, idx=flat(r[1]) if not e else [], cb=ilist(cb), x=ilist(x), M=M, N=N, k=k)
    for _ in range(ctx.n(50, 300)):
        n = int(rng.integers(1, 25))
        u = int(rng.choice([1, 2, 4, 10]))
        x, im = rng.integers(-8, 9, n), (rng.integers(-8, 9, n) if rng.random() < .4 else np.zeros(n, int))
        if rng.random() < .25:
            n = min(n, 6); x, im, u = rng.integers(-18, 19, n), np.zeros(n, int), 1
        s = (x + 1j * im) / u if im.any() else (x / u if rng.random() < .7 or u > 1 else narrow(rng, x))
        p, e = call(cdsp.power, s)
        r, e2 = call(cdsp.rms, s)
        pf, rf = flat(p, u * u * n), flat(r, 1000, False)
        ctx.add({}, dict(op="power", x=ilist(x), im=ilist(im), u=u, p=pf[0], r=rf[0], exc=e or e2))
