import numpy as np
import CommDspy as cdsp
from harness.drv import *


def shape_(sym, **k):
    r, e = call(cdsp.channel.pulse_shape, sym, **k)
    if not e and not (isinstance(r, tuple) and len(r) == 2):
        e = "NotAPair"
    return (None, None, e) if e else (r[0], r[1], "")


def replay(ctx, vecs):
    np.random.seed(ctx.seed + 3)
    for i, v in enumerate(vecs):
        kw = dict(osr=v["osr"], span=v["span"], pulse=v["kind"])
        x = np.array(v["sym"], float if i % 2 else int)
        y, _, e = shape_(x, rj_sigma=[0, 0.0][i // 2 % 2], **kw)
        ctx.check(v, "clean", ["", v["out"]], [e, flat(y)])
        k = 1 + i % (len(x) - 1)
        if v["osr"] * k < 4:                       # the cubic interpolation needs four points
            continue
        y, z, e = shape_(x[:k], rj_sigma=0.1, **kw)
        y2, _, e2 = ([], None, e) if e else shape_(x[k:], zi=z, **kw)
        ctx.check(v, "continued", ["", v["osr"] * k, v["out"][v["osr"] * k:]], [e or e2, len(flat(y)), flat(y2)])


def moments(d, d2, sigma, e=""):
    n = len(d)
    s = float(np.std(d))
    f = lambda x: toint(1e4 * x, False)
    z = d - d.mean()
    # correlation at every lag (circular), and of the spread with the position
    ac = np.fft.irfft(np.abs(np.fft.rfft(z)) ** 2, n)[1:] / (n * s * s) if s > 0 else np.ones(1)
    u = (z * z / (s * s) - 1) / np.sqrt(2) if s > 0 else np.ones(n)
    t = np.arange(n) - (n - 1) / 2
    vc = [np.mean(u * t) / np.sqrt(np.mean(t * t)), np.mean(u * (-1.0) ** np.arange(n))]
    return dict(op="moments", std=f(s / sigma), mean=f(np.mean(d) / sigma), acorr=f(np.max(np.abs(ac))), vcorr=f(np.max(np.abs(vc))),
                in1=f(np.mean(np.abs(d) < sigma)), in2=f(np.mean(np.abs(d) < 2 * sigma)), fresh=int(not np.any(d[:50] == d2[:50])),
                tol=int(np.ceil(1e4 * 6 / np.sqrt(2 * n))), lim=int(np.ceil(1e4 * 7 / np.sqrt(n))), exc=e)


def record(ctx):
    rng = ctx.rng
    np.random.seed(ctx.seed)
    for rep in range(ctx.n(24, 120)):
        sigma = float(rng.choice([0.02, 0.05, 0.1, 0.25]))
        if rep % 2:
            osr, span, kind = 1, int(rng.integers(1, 4)), "imp"
            if rep % 4 == 1:
                sigma = float(rng.choice([5e-3, 8e-4, 1e-4, 2e-6]))
        else:
            osr, span, kind = int(rng.integers(2, 9)) if rep % 6 else int(rng.choice([32, 40, 64])), 20, "rcos"
        n = 60000 // osr
        slope = float(rng.choice([1, 0.25, 3]))
        x = slope * np.arange(n)
        rows = np.arange(2, n - 8)
        if osr > 1:                                # ramps of 120 symbols, read in their middle
            n = n // 120 * 120
            x = slope * (np.arange(n) % 120 - 60.0)
            rows = np.arange(120, n - 120)
            rows = rows[np.abs((rows - span) % 120 - 60) < 20]
        kw = dict(osr=osr, span=span, pulse=kind, beta=1.0)
        y0, z0, e0 = shape_(x, **kw)
        y1, z1, e1 = shape_(x, rj_sigma=sigma, **kw)
        y2, _, e2 = shape_(x, rj_sigma=sigma, **kw)
        e = e0 or e1 or e2
        cfg = dict(osr=osr, sigma=toint(1e4 * sigma), res=2 if osr == 1 else 8, rres=2 if osr == 1 else 250)
        if e:
            ctx.add(cfg, dict(op="shape", n=0, nsym=n, z=[], z0=[], exc=e))
            continue
        N = len(flat(y1))
        ev = [dict(op="shape", n=N, nsym=n, z=flat(z1, 2 ** 8, False), z0=flat(z0, 2 ** 8, False), exc="")]
        if N == n * osr:
            D = lambda y: ((np.asarray(y, float) - y0) / slope).reshape(n, osr)[rows]
            a, b = D(y1), D(y2)
            ev.append(dict(op="disp", d=[[toint(1e4 * v, False) for v in r] for r in a[:60]], exc=""))
            ev.append(moments(a[:, 0], b[:, 0], sigma))
        ctx.add(cfg, ev)
    for rep in range(ctx.n(16, 80)):               # a tone: short and long signals
        osr, den = [(2, 7), (3, 5), (2, 5), (4, 5), (2, 7)][rep % 5]
        n = [120, 700, 3000, 9000][rep % 4]
        sigma = float(rng.choice([0.02, 0.1, 0.2, 0.3]))
        x = np.sin(2 * np.pi / den * np.arange(n) + rng.uniform(0, 6))
        cfg = dict(osr=osr, sigma=toint(1e4 * sigma), res=0, rres=0)
        y, _, e = shape_(x, rj_sigma=sigma, osr=osr, span=20, pulse="rcos", beta=.5)
        ok = not e and len(flat(y)) == n * osr
        rows = np.sort(rng.permutation(np.arange(50, n - 20))[:60])
        ctx.add(cfg, dict(op="tone", den=den, s=[[toint(1e4 * v, False) for v in r] for r in np.asarray(y, float).reshape(n, osr)[rows]] if ok else [],
                          exc=e or ("" if ok else "WrongLength")))
    for rep in range(ctx.n(4, 16)):                # many short calls
        sigma = float(rng.choice([0.02, 0.1, 0.3, 0.6]))
        n, N = int(rng.integers(4, 9)), 4000
        x = np.arange(n) * 1.0
        cfg = dict(osr=1, sigma=toint(1e4 * sigma), res=2, rres=2)
        rows, e = [], ""
        for _ in range(N):
            y, _, e = shape_(x, rj_sigma=sigma, osr=1, span=1 + rep % 2, pulse="imp")
            if e or len(flat(y)) != n:
                e = e or "WrongLength"
                break
            rows.append(np.asarray(y, float) - x)
        if e:
            ctx.add(cfg, dict(op="shape", n=0, nsym=n, z=[], z0=[], exc=e))
            continue
        a = np.array(rows)
        ctx.add(cfg, [moments(a.reshape(-1), a[::-1].reshape(-1), sigma), moments(a.T.reshape(-1), a[::-1].T.reshape(-1), sigma)])
    for rep in range(ctx.n(20, 100)):
        x = rng.choice([-3, -1, 1, 3], int(rng.integers(4, 30)))
        kw = dict(osr=int(rng.integers(1, 9)) if rep % 4 else int(rng.choice([16, 33, 64])), span=int(rng.integers(1, 5)), pulse=["rect", "sinc", "rcos", "rrc", "imp"][rep % 5])
        a, za, ea = shape_(x, rj_sigma=0, **kw)
        b, zb, eb = shape_(x, **kw)
        c, zc, ec = shape_(x, rj_sigma=float(rng.choice([0.01, 0.3])), **kw)
        cfg = dict(osr=kw["osr"], sigma=0, res=0, rres=0)
        ctx.add(cfg, [dict(op="clean", a=flat(a, 10000, False), b=flat(b, 10000, False), exc=ea or eb),
                      dict(op="shape", n=len(flat(c)), nsym=len(x), z=flat(zc, 10000, False), z0=flat(zb, 10000, False), exc=ec or eb)])
