import numpy as np
import CommDspy as cdsp
from harness.drv import *
from drivers.c13 import chunks


def coeffs(zs, ps, dc, F, osr, signs):
    """roots given by c = 2F/w"""
    z = [s * 2.0 * F * osr / c for c, s in zip(zs, signs)]
    p = [s * 2.0 * F * osr / c for c, s in zip(ps, signs[::-1])]
    return z, p


def replay(ctx, vecs):
    rng = ctx.rng
    for i, v in enumerate(vecs):
        signs = [1, -1, 1, -1, -1, 1] if i % 2 else [1] * 6
        F, osr = [(1e9, 4), (5e9, 1), (1.0, 16), (53.125e9, 32)][i % 4]
        z, p = coeffs(v["zs"], v["ps"], 0, F, osr, signs)
        r, e = call(cdsp.rx.get_ctle_filter, z, p, 0, F, osr)
        if not e and not (isinstance(r, tuple) and len(r) == 2):
            e = "NotAPair"
        got = [e] if e else ["", flat(r[1], v["a"][0]), flat(r[0], v["a"][0])]
        ctx.check(v, "coefficients", ["", v["a"], v["b"]], got)


def record(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(150, 1000)):
        npol = int(rng.integers(1, 6)) if rep % 3 == 0 else int(rng.integers(1, 4))
        nz = int(rng.integers(1, npol + 1))
        top = [60, 60, 20, 7, 4][npol - 1]
        ps = [int(v) for v in rng.integers(1, top, npol)]
        zs = [int(v) for v in rng.integers(1, top, nz)]
        if rep % 4 == 2 and npol > 1:                   # roots that coincide
            ps[-1], zs[-1] = ps[0], ps[0] if rep % 8 == 2 else zs[0]
        dc = int(rng.integers(-6, 7))
        F = float(rng.choice([1e9, 5e9, 53.125e9]))
        osr = int(rng.choice([1, 2, 8, 32]))
        z, p = coeffs(zs, ps, dc, F, osr, [int(s) for s in rng.choice([-1, 1], 6)])
        if rep % 3 == 0:
            z, p = np.array(z), np.array(p)
        q = 1
        a0 = int(np.prod([1 + c for c in ps]))
        b0 = int(np.prod([1 + c for c in zs])) * 2 ** (npol - nz) * 2
        while max(a0, b0) // q > 20000:
            q *= 2
        r, e = call(cdsp.rx.get_ctle_filter, z, p, dc, F, osr)
        if not e and not (isinstance(r, tuple) and len(r) == 2):
            e = "NotAPair"
        ok = max(a0, b0) <= 60000
        if ok:
            ctx.add(dict(kind="coef", q=q), dict(op="coef", zs=zs, ps=ps, dc=dc, a=[] if e else flat(r[1], 1e4, False), b=[] if e else flat(r[0], 1e4, False), exc=e))
        # step response
        n = 3000
        y, e = call(cdsp.rx.ctle, np.ones(n) if rep % 2 else np.ones(n, int), z, p, dc if rep % 5 else float(dc), F, osr)
        ctx.add(dict(kind="settle"), dict(op="settle", dc=dc, tail=flat(y, 1e4, False)[-20:], exc=e))
    # the filter on signals, in chunks, against the integer difference equation
    for rep in range(ctx.n(60, 400)):
        npol = int(rng.integers(1, 3))
        nz = int(rng.integers(1, npol + 1))
        ps = [int(v) for v in rng.choice([1, 2, 3, 5, 7], npol)]
        zs = [int(v) for v in rng.choice([1, 2, 3, 4, 6], nz)]
        A, B = np.ones(1), np.ones(1)
        for c in ps:
            A = np.convolve(A, [1 + c, 1 - c])
        for c in zs:
            B = np.convolve(B, [1 + c, 1 - c])
        for _ in range(npol - nz):
            B = np.convolve(B, [1, 1])
        z, p = coeffs(zs, ps, 0, 1e9, 4, [1] * 6)
        S = 1024
        x = rng.integers(-3, 4, int(rng.choice([1, 5, 40, 40, 300]))) * S
        zi = np.zeros(npol)
        ev, pos = [], 0
        one = rep % 3 == 0
        for k in ([len(x)] if one else chunks(rng, len(x))):
            r, e = call(cdsp.rx.ctle, retype(rng, x[pos:pos + k] // S, False), z, p, 0, 1e9, 4, **({} if one else dict(zi=zi)))
            if not one and not e:
                if isinstance(r, tuple) and len(r) == 2:
                    r, zi = r
                else:
                    e = "NotAPair"
            ev.append(dict(op="chunk", x=ilist(x[pos:pos + k]), y=[] if e else flat(r, S, False), exc=e))
            pos += k
            if e:
                break
        ctx.add(dict(kind="filt", a=ilist(np.round(A)), b=ilist(np.round(B))), ev)
