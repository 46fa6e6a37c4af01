import numpy as np
import CommDspy as cdsp
from harness.drv import *


def grads(fn, x, y, lv, fi, di, **k):
    """(loss, forward, feedback, hasf, hasd, exc)"""
    kw = dict(k)
    if len(fi):
        kw["ffe_tap_idx"] = np.array(fi)
    if len(di):
        kw["dfe_tap_idx"] = np.array(di)
    r, e = call(fn, x, y, lv, **kw)
    if e:
        return None, [], [], 0, 0, e
    if not isinstance(r, tuple):
        return r, [], [], 0, 0, ""
    want = 1 + (len(fi) > 0) + (len(di) > 0)
    if len(r) != want:
        return r[0] if r else None, [], [], -1, -1, ""
    gf = np.asarray(r[1]).reshape(-1) if len(fi) else []
    gd = np.asarray(r[-1]).reshape(-1) if len(di) else []
    return r[0], gf, gd, int(len(fi) > 0), int(len(di) > 0), ""


def scaled(g, idx, N, s, exact=True):
    if len(g) != len(idx):
        return [BADINT]
    return [toint(float(v) * 2 * s * (N - abs(i)), exact) for v, i in zip(g, idx)]


def num(v, s, exact=True):
    f = flat(v, s, exact)
    return f[0] if len(f) == 1 else BADINT


def replay(ctx, vecs):
    for n, v in enumerate(vecs):
        x, y, lv = np.array(v["x"]) / 2, np.array(v["y"]) / 2, np.array([-1, 1])
        N = len(x)
        fi = [i for i in (-2, -1, 0, 1, 2) if abs(i) < N]
        di = [i for i in (1, 2) if i < N]
        ef = [v["f"][i + 2] for i in fi]
        eg = [v["g"][i - 1] for i in di]
        form = n % 4
        if form == 1:
            fi, ef = [], []
        if form == 2:
            di, eg = [], []
        k = dict(reference_vec=np.array(v["r"]) / 2) if n % 3 == 0 else {}
        l, gf, gd, hf, hd, e = grads(cdsp.rx.ddlms_grad, x, y, lv, fi, di, **k)
        ctx.check(v, "gradients", ["", v["sq"], ef, eg, int(bool(fi)), int(bool(di))],
                  [e, num(l, 4 * N), scaled(gf, fi, N, 4), scaled(gd, di, N, 4), hf, hd])


LV = [[-1, 1], [-3, -1, 1, 3], [-1, 0, 1], [0, 1]]


def record(ctx):
    rng = ctx.rng
    S = 8
    for rep in range(ctx.n(200, 1500)):
        N = int(rng.integers(1, 30) if rep % 18 else rng.integers(60, 250) if rep % 36 else rng.integers(1500, 4000))
        lv = [v * 2 * S for v in LV[rng.integers(4)]]
        y = rng.integers(-3 * S, 3 * S, N) * 2 + 1
        x = rng.integers(-4 * S, 4 * S, N)
        pool = [i for i in range(-5 if rep % 18 else -40, 9 if rep % 18 else 50) if abs(i) < N]
        if N > 1000:
            pool = [int(i) for i in rng.permutation(pool)[:6]]
        fi = [int(i) for i in rng.permutation(pool)[:int(rng.integers(0, len(pool) + 1))]]
        pd = [i for i in range(1, 8 if rep % 18 else 40) if i < N]
        di = [int(i) for i in rng.permutation(pd)[:int(rng.integers(0, len(pd) + 1))]] if pd else []
        ref = int(rng.random() < .4)
        r = rng.choice(lv, N)
        k = dict(reference_vec=r / S) if ref else {}
        xa, ya, la, u = lay(rng, x / S), lay(rng, y / S), np.array(lv) / S, S
        if rep % 5 == 2:                              # the same numbers in units of one, as short integers
            t = [np.int8, np.int16, np.int32][rep // 5 % 3]
            xa, ya, la, u = x.astype(t), y.astype(t), np.array(lv).astype(t), 1
            if ref:
                k = dict(reference_vec=r.astype(t))
        elif rep % 5 == 3:                            # and unsigned ones, everything moved up
            x, y, r, lv = x + 40, y + 60, r + 60, [v + 60 for v in lv]
            t = [np.uint8, np.uint16][rep // 5 % 2]
            xa, ya, la, u = x.astype(t), y.astype(t), np.array(lv).astype(t), 1
            if ref:
                k = dict(reference_vec=r.astype(t))
        l, gf, gd, hf, hd, e = grads(cdsp.rx.ddlms_grad, xa, ya, la, fi, di, **k)
        ctx.add({}, dict(op="hard", x=ilist(x), y=ilist(y), r=ilist(r), ref=ref, lv=lv, fi=fi, di=di, mse=num(l, u * u * N),
                         gf=scaled(gf, fi, N, u * u), gd=scaled(gd, di, N, u * u), hasf=hf, hasd=hd, exc=e))
    for d in (-1, 1, 5, -7):
        for fi, di in (([], []), ([0], []), ([0, 1], [1])):
            *_, e = grads(cdsp.rx.ddlms_grad, np.ones(8), np.ones(8), np.array([-1, 1]), fi, di, reference_vec=np.ones(8 + d))
            ctx.add({}, dict(op="refuse", exc=e))
    *_, e = grads(cdsp.rx.ddlms_grad, np.ones(1), np.ones(1), np.array([-1, 1]), [0], [], reference_vec=np.ones(6))
    ctx.add({}, dict(op="refuse", exc=e))
    for rep in range(ctx.n(20, 100)):                 # soft gradients do not depend on the integer type
        lv = np.array([v * int(rng.choice([1, 20])) for v in LV[rng.integers(4)]])
        N = int(rng.integers(2, 9))
        y, x = rng.choice(lv, N) + rng.integers(-2, 3, N), rng.integers(-50, 51, N)
        t = [np.int8, np.int16][rep % 2]
        if rep % 3 == 2:
            lv, y, x, t = lv + 70, y + 70, x + 70, np.uint8
        a = grads(cdsp.rx.soft_ddlms_grad, x * 1.0, y * 1.0, lv * 1.0, [0, 1], [1], sigma=2)
        b = grads(cdsp.rx.soft_ddlms_grad, x.astype(t), y.astype(t), lv.astype(t), [0, 1], [1], sigma=2)
        q = lambda g: [num(g[0], 1000, False)] + flat(g[1], 1000, False) + flat(g[2], 1000, False) if not g[5] else []
        ctx.add({}, dict(op="types", a=q(a), b=q(b), exc=a[5] or b[5]))
    for rep in range(ctx.n(60, 400)):                 # outputs far from every level
        lv = [v * 2 * S for v in LV[rng.integers(4)]]
        sn, sd = [(1, 1), (1, 2), (3, 2), (2, 1), (3, 4)][rng.integers(5)]
        s = sn / sd * S
        side = 1 if rep % 2 else -1
        top = max(lv) if side > 0 else min(lv)
        gap = min(abs(v - top) for v in lv if v != top)
        lo = max(4 * s, 10 * s * s / gap)              # from where the nearest level weighs alone
        d = int(rng.integers(int(lo) + 1, max(int(lo) + 2, int(22 * s))))
        y = top + side * d
        l, gf, _, _, _, e = grads(cdsp.rx.soft_ddlms_grad, np.array([2.0]), np.array([y / S]), np.array(lv) / S, [0], [], sigma=sn / sd)
        ctx.add({}, dict(op="far", y=int(y), lv=lv, S=S, sn=sn, sd=sd, e=num(gf[0] if len(gf) else None, 1000, False), loss=num(l, 1000, False), exc=e))
    for rep in range(ctx.n(60, 400)):
        base = LV[rng.integers(4)]
        lv = [v * 2 * S for v in base]
        sn, sd = [(1, 1), (1, 2), (3, 2), (2, 1), (3, 4)][rng.integers(5)]
        N = int(rng.integers(1, 8)) if rep != 5 else 1300
        # outputs near some level, so that the likelihood is not negligible
        y = rng.choice(lv, N) + np.array([int(v) for v in rng.integers(-S, S + 1, N) * 2 + 1]) * sn // sd
        y = y + (y % 2 == 0)
        x = rng.integers(-3 * S, 3 * S, N)
        es, ls, bad = [], [], ""
        kw = {} if (sn, sd) == (1, 1) else dict(sigma=sn / sd)
        for v in y:
            l, gf, _, _, _, e = grads(cdsp.rx.soft_ddlms_grad, np.array([2.0]), np.array([v / S]), np.array(lv) / S, [0], [], **kw)
            es.append(num(gf[0] if len(gf) else None, 1000, False))
            ls.append(num(l, 1000, False))
            bad = bad or e
            if N < 100:
              ctx.add({}, dict(op="soft1", y=int(v), lv=lv, S=S, sn=sn, sd=sd, e=es[-1],
                             lik=num(np.exp(-np.asarray(l, float)) if not e else None, 40000, False), exc=e))
        if bad:
            continue
        pool = [i for i in range(-3, 4) if abs(i) < N]
        fi = [int(i) for i in rng.permutation(pool)[:int(rng.integers(0, len(pool) + 1))]]
        pd = [i for i in range(1, 4) if i < N]
        di = [int(i) for i in rng.permutation(pd)[:int(rng.integers(0, len(pd) + 1))]] if pd else []
        ref = int(rng.random() < .4)
        r = rng.choice(lv, N)
        k = dict(kw, **(dict(reference_vec=r / S) if ref else {}))
        l, gf, gd, hf, hd, e = grads(cdsp.rx.soft_ddlms_grad, x / S, y / S, np.array(lv) / S, fi, di, **k)
        ctx.add({}, dict(op="soft", x=ilist(x), y=ilist(y), r=ilist(r), ref=ref, lv=lv, fi=fi, di=di, es=es, ls=ls, loss=num(l, 1000 * N, False),
                         gf=scaled(gf, fi, N, 1000 * S, False), gd=scaled(gd, di, N, 1000 * S, False), hasf=hf, hasd=hd, exc=e))
