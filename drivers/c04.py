import numpy as np
import CommDspy as cdsp
from harness.drv import *

LV = {"NRZ": [-1, 1], "OOK": [0, 1], "PAM3": [-1, 0, 1], "PAM4": [-3, -1, 1, 3]}


def en(c):
    return getattr(cdsp.ConstellationEnum, c)


def replay(ctx, vecs):
    for v in vecs:
        s = np.array(v["syms"], dtype=int)
        kw = dict(levels=np.array(v["lv"])) if v["lv"] else {}
        o, e = call(cdsp.tx.mapping, s, en(v["c"]), pn_inv=bool(v["pn"]), **kw)
        ctx.check(v, "map", [v["out"], ""], [flat(o), e])
        if not v["lv"]:
            d, e = call(cdsp.rx.demapping, np.array(v["out"], dtype=float), en(v["c"]), pn_inv=bool(v["pn"]))
            ctx.check(v, "demap", [v["syms"], ""], [flat(d), e])
        if v["c"] != "PAM3":
            g, e = call(cdsp.tx.coding_gray, s, en(v["c"]))
            d, e2 = call(cdsp.rx.decoding_gray, np.array(v["gray"], dtype=int), en(v["c"]))
            ctx.check(v, "gray", [v["gray"], v["syms"], "", ""], [flat(g), flat(d), e, e2])


def anyshape(rng):
    return [(1,), (int(rng.integers(1, 12)),), (3, 4), (4, 1), (1, 5), (2, 3, 2), (2, 2, 2, 2), (60,)][rng.integers(8)]


def record(ctx):
    rng = ctx.rng
    for c in LV:
        n = len(LV[c])
        for fs in (0, 1):
            o, e = call(cdsp.get_levels, en(c), **dk(rng, full_scale=(bool(fs), False)))
            ctx.add({}, dict(op="levels", c=c, fs=fs, out=flat(o, 10000, False) if fs else flat(o), exc=e))
            if not fs:
                o, e = call(cdsp.get_levels, en(c))
                ctx.add({}, dict(op="levels", c=c, fs=fs, out=flat(o), exc=e))
            ind = np.array(LV[c], float) / (np.sqrt(np.mean(np.square(LV[c]))) if fs else 1)
            for pn in (0, 1):
                for rep in range(ctx.n(12, 80)):
                    s = rng.integers(0, n, anyshape(rng))
                    if rep == 0:
                        s = np.arange(n)
                    if rep == 1:
                        s = np.full((2, 3), n - 1)
                    if rep == 2:
                        s = rng.integers(0, n, [4500, (60, 75), 2100][rng.integers(3)])
                    o, e = call(cdsp.tx.mapping, narrow(rng, lay(rng, s)), en(c), **dk(rng, full_scale=(bool(fs), False), pn_inv=(bool(pn), False)))
                    ev = [dict(op="map", c=c, fs=fs, pn=pn, lv=[], syms=ilist(s), out=flat(o, 10000, False) if fs else flat(o),
                               shp=shape(o), ishp=list(s.shape), exc=e)]
                    if not e:
                        d, e = call(cdsp.rx.demapping, lay(rng, o), en(c), **dk(rng, full_scale=(bool(fs), False), pn_inv=(bool(pn), False)))
                        ev.append(dict(op="demap", syms=ilist(s), out=flat(d), shp=shape(d), ishp=list(s.shape), exc=e))
                    sig = (ind * (-1 if pn else 1))[s]
                    d, e = call(cdsp.rx.demapping, lay(rng, sig), en(c), **dk(rng, full_scale=(bool(fs), False), pn_inv=(bool(pn), False)))
                    ev.append(dict(op="demap", syms=ilist(s), out=flat(d), shp=shape(d), ishp=list(s.shape), exc=e))
                    ctx.add({}, ev)
        for rep in range(ctx.n(12, 60)):          # custom levels
            lv = rng.integers(-50, 50, n)
            if rep % 3 == 0:
                lv = np.sort(lv)
            s = rng.integers(0, n, anyshape(rng))
            pn = int(rng.integers(2))
            o, e = call(cdsp.tx.mapping, narrow(rng, lay(rng, s)), en(c), full_scale=bool(rng.integers(2)), levels=lv.astype(float), pn_inv=bool(pn))
            ctx.add({}, dict(op="map", c=c, fs=0, pn=pn, lv=ilist(lv), syms=ilist(s), out=flat(o), shp=shape(o), ishp=list(s.shape), exc=e))
        for m in range(1, 9):
            if m != n:
                o, e = call(cdsp.tx.mapping, np.array([0]), en(c), levels=np.arange(m).astype(float))
                ctx.add({}, dict(op="refuse", exc=e))
        for odd in (None, c, 1, cdsp.PrbsEnum.PRBS7, -1):            # no constellation at all
            o, e = call(cdsp.get_levels, odd, bool(rng.integers(2)))
            ctx.add({}, dict(op="refuse", exc=e))
            o, e = call(cdsp.tx.mapping, np.array([0, 1]), odd)
            ctx.add({}, dict(op="refuse", exc=e))
        if c != "PAM3":
            for rep in range(ctx.n(15, 60)):
                s = rng.integers(0, n, anyshape(rng) if rep else 5000)
                t, e0 = call(cdsp.tx.coding_gray, np.arange(n), en(c))
                own = () if c == "PAM4" and rep % 3 == 0 else (en(c),)          # PAM4 is the default
                o, e1 = call(cdsp.tx.coding_gray, narrow(rng, lay(rng, s)), *own)
                d, e2 = call(cdsp.rx.decoding_gray, o, *own) if not e1 else (None, e1)
                ctx.add({}, dict(op="gray", c=c, tab=flat(t), syms=ilist(s), out=flat(o), dec=flat(d), shp=shape(o), ishp=list(s.shape),
                                 dshp=shape(d), exc=e0 + e1 + e2))
    # very long sequences, as repetitions of a short one
    for c in LV:
        n = len(LV[c])
        for reps in (2003, 16001, 60013):
            fs, pn = int(rng.integers(2)), int(rng.integers(2))
            s = rng.integers(0, n, int(rng.integers(4, 9)))
            kw = dict(full_scale=bool(fs), pn_inv=bool(pn))
            o, e = call(cdsp.tx.mapping, np.tile(s, reps), en(c), **kw)
            for t in tiles(o, reps, e):
                ctx.add({}, dict(op="map", c=c, fs=fs, pn=pn, lv=[], syms=ilist(s), out=flat(t, 10000, False) if fs else flat(t), shp=shape(t), ishp=[len(s)], exc=e))
            ind = np.array(LV[c], float) / (np.sqrt(np.mean(np.square(LV[c]))) if fs else 1)
            d, e = call(cdsp.rx.demapping, np.tile((ind * (-1 if pn else 1))[s], reps), en(c), **kw)
            for t in tiles(d, reps, e):
                ctx.add({}, dict(op="demap", syms=ilist(s), out=flat(t), shp=shape(t), ishp=[len(s)], exc=e))
    for k in range(1, ctx.n(12, 14)):
        t, e = call(cdsp.get_gray_level_vec, 2 ** k)
        ctx.add({}, dict(op="graytab", n=2 ** k, out=flat(t), exc=e))
