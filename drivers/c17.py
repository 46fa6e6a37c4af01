import numpy as np
import CommDspy as cdsp
from harness.drv import *

P = cdsp.PrbsEnum


def unpack(r, e):
    if not e and not (isinstance(r, tuple) and len(r) == 3):
        e = "NotATriple"
    if e:
        return dict(lost=-1, correct=-1, mask=[], mlen=-1, exc=e)
    m = flat(r[2])
    lost = flat(r[0])
    cor = flat(r[1])
    if any(x not in (0, 1) for x in m):
        return dict(lost=-1, correct=-1, mask=[], mlen=-1, exc="MaskNotBinary")
    return dict(lost=lost[0] if len(lost) == 1 else BADINT, correct=cor[0] if len(cor) == 1 else BADINT,
                mask=[i + 1 for i, x in enumerate(m) if x], mlen=len(m), exc="")


def chk(n, data, lock, th, **k):
    kw = dict(k)
    if th != 100:
        kw["loss_th"] = th
    return unpack(*call(cdsp.rx.prbs_checker, P(n), data, lock, **kw))


def econ(n, data, th):
    kw = {} if th == 100 else dict(loss_th=th)
    return unpack(*call(cdsp.rx.prbs_checker_econ, P(n), data, **kw))


def replay(ctx, vecs):
    for v in vecs:
        d, w = np.array(v["data"]), v["v"]
        r = econ(7, d, v["th"]) if v["mode"] == "econ" else chk(7, d, v["mode"] == "free", v["th"])
        exp = [w["lost"], w["correct"], [i + 1 for i, x in enumerate(w["mask"]) if x], len(w["mask"])]
        got = [r["lost"], r["correct"], r["mask"], r["mlen"]]
        if v["mode"] == "econ" and w["lost"]:
            exp, got = exp[:1], got[:1]
        ctx.check(v, v["mode"], ["", exp], [r["exc"], got])


TAPS = {7: [5, 6], 9: [4, 8], 11: [8, 10], 13: [0, 1, 11, 12], 15: [13, 14], 31: [27, 30]}


def stream(n, seed, k):
    s, out = list(seed), []
    for _ in range(k):
        b = 0
        for t in TAPS[n]:
            b ^= int(s[t])
        out.append(b)
        s = [b] + s[:-1]
    return np.array(out, int)


def record(ctx):
    rng = ctx.rng
    full = {n: stream(n, [1] * n, 2 ** n - 1) for n in (7, 9, 11, 13, 15)}
    for rep in range(ctx.n(170, 900)):
        n = int(rng.choice([7, 7, 7, 9, 9, 11] if rep % 12 else [13, 15]))
        p = full[n]
        N = len(p)
        lock = bool(rep % 3 == 0)
        rot = 0 if lock else int(rng.integers(N))
        D = int(rng.choice([N, N - 1, N + 1, 2 * N, 2 * N + 5, int(rng.integers(N // 2 + 2, 3 * N))]))
        if n > 11:
            D = int(rng.choice([N, N + 7]))
        if lock and rng.random() < .5:
            D = int(rng.integers(1, N))
        d = np.tile(np.roll(p, -rot), D // N + 1)[:D]
        # errors inside what alignment uses stay below the bound, elsewhere they are arbitrary
        use = min(N, D)
        if lock:
            e = rng.permutation(D)[:int(rng.integers(0, min(D, 160) + 1))]
        else:
            b = max(0, (2 * use - N + 1 + 3) // 4 - 1)
            e = list(rng.permutation(use)[:int(rng.integers(0, min(b, 150) + 1))])
            if D > N:
                e += [int(N + i) for i in rng.permutation(D - N)[:int(rng.integers(0, min(D - N, 120) + 1))]]
        e = sorted(int(i) for i in e)
        d = d.copy()
        d[e] ^= 1
        th = int(rng.choice([100, 100, 1, 5, max(1, len(e)), len(e) + 1, max(1, len(e) - 1)]))
        kw = dict(prbs_seq=p.copy()) if rng.random() < .3 else {}
        r = chk(n, narrow(rng, lay(rng, d), True), lock, th, **kw)
        ctx.add({}, dict(op="chk", n=n, lock=int(lock), th=th, data=ilist(d), errs=[i + 1 for i in e], **r))
    for ne in (0, 98, 99, 100, 101, 130):      # the default threshold; and a reference of the caller's own, in any rotation
        for n in (9, 11):
            N = 2 ** n - 1
            for rot in (0, 5, int(rng.integers(N))):
                D = int(rng.choice([N, N - 7, 2 * N + 3]))
                ref = np.roll(full[n], -rot)
                e = sorted(int(i) for i in rng.permutation(D)[:ne])
                d = np.tile(ref, 3)[:D]
                d[e] ^= 1
                r = chk(n, lay(rng, d), True, 100, **({} if rot == 0 and ne % 2 else dict(prbs_seq=ref.copy())))
                ctx.add({}, dict(op="chk", n=n, lock=int(rot == 0), th=100, data=ilist(d), errs=[i + 1 for i in e], **r))
    for k in (4, 5, 7, 9):                       # many periods, errors of one polarity
        for pol in (0, 1):
            rot = 0 if k % 2 else int(rng.integers(127))
            d = np.tile(np.roll(full[7], -rot), k)[:127 * k - int(rng.integers(5))].copy()
            w = np.flatnonzero(d == pol)
            e = sorted(int(i) for i in rng.permutation(w)[:int(rng.integers(1, 20))])
            d[e] ^= 1
            r = chk(7, lay(rng, d), rot == 0, 100)
            ctx.add({}, dict(op="chk", n=7, lock=int(rot == 0), th=100, data=ilist(d), errs=[i + 1 for i in e], **r))
    for ne in (99, 100, 101, 30):                # the economy checker's default threshold
        for n in (9, 15, 31):
            D = 400
            d = stream(n, np.ones(n, int), D)
            e = 2 * n + rng.permutation(D - 2 * n)[:ne]
            d[e] ^= 1
            ctx.add({}, dict(op="econ", n=n, th=100, data=ilist(d), **econ(n, lay(rng, d), 100)))
    for n in (7, 15, 31):                        # long streams
        for ne in (0, 3, 40):
            D = int(rng.integers(3000, 9000))
            d = stream(n, np.ones(n, int), D)
            e = 2 * n + rng.permutation(D - 2 * n)[:ne]
            d[e] ^= 1
            th = int(rng.choice([100, 39, 121]))
            ctx.add({}, dict(op="econ", n=n, th=th, data=ilist(d), **econ(n, lay(rng, d), th)))
    for rep in range(ctx.n(150, 900)):
        n = int(rng.choice(list(TAPS)))
        seed = bits(rng, n)
        if not seed.any():
            seed[0] = 1
        D = int(rng.integers(2 * n, 2 * n + 100))
        d = stream(n, seed, D)
        k = rng.integers(5)
        if k == 1:
            d[rng.permutation(D)[:int(rng.integers(1, 4))]] ^= 1
        elif k == 2:
            d[int(rng.integers(n))] ^= 1             # the first seed is hit
        elif k == 3:
            d[rng.permutation(2 * n)[:2]] ^= 1
        elif k == 4:
            d = bits(rng, D)
        th = int(rng.choice([100, 1, 2, 3, 5, 10, 30]))
        ctx.add({}, dict(op="econ", n=n, th=th, data=ilist(d), **econ(n, narrow(rng, lay(rng, d)), th)))
