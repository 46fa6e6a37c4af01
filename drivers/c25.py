import numpy as np
import CommDspy as cdsp
from harness.drv import *

N = 400000


def moments(ctx, clean, out, out2, snr, e):
    """the sensor readings of one noisy output"""
    ev = dict(op="moments", snr=int(snr), ps=0, pn=0, mean=0, xcorr=0, scorr=0, acorr=0, vcorr=0, in1=0, in2=0, shp=shape(out), ishp=shape(clean), fresh=0,
              tol=0, lim=0, exc=e)
    if e:
        return ev
    try:
        c = np.asarray(clean, float).reshape(-1)
        n = np.asarray(out, float).reshape(-1) - c
        m = np.asarray(out2, float).reshape(-1) - c
        k = len(n)
        p, q = float(np.mean(n * n)), float(np.mean(c * c))
        unit = 25.0 if np.max(np.abs(c)) == 15 else 1.0          # large levels: both powers in another unit
        s = np.sqrt(p)
        d = c - c.mean()
        dd = np.sqrt(np.mean(d * d)) or 1.0
        sg = np.sign(c) - np.mean(np.sign(c))
        # whiteness over every lag at once (circular autocorrelation)
        ac = np.fft.irfft(np.abs(np.fft.rfft(n - n.mean())) ** 2, k)[1:] / (k * p)
        # is the spread of the noise tied to the signal, its sign, its size or the position?
        u = (n * n / p - 1) / np.sqrt(2)
        vc = 0.0
        for w in (c, np.abs(c), d * d, np.sign(c), np.arange(k), np.arange(k) % 2, np.arange(k) % 200 if k > 400 else c):
            w = np.asarray(w, float) - np.mean(w)
            sd = np.sqrt(np.mean(w * w))
            if sd > 1e-9:
                r = float(np.mean(u * w) / sd)
                vc = r if not abs(r) <= abs(vc) else vc
        ev.update(ps=toint(1000 * q / unit, False), pn=toint(1000 * p / unit * 10.0 ** (snr // 10), False), mean=toint(1e4 * n.mean() / s, False),
                  xcorr=toint(1e4 * np.mean(n * d) / (s * dd), False), scorr=toint(1e4 * np.mean(n * sg) / s, False),
                  acorr=toint(1e4 * np.max(np.abs(ac)), False), vcorr=toint(1e4 * vc, False), in1=toint(1e4 * np.mean(np.abs(n) < s), False),
                  in2=toint(1e4 * np.mean(np.abs(n) < 2 * s), False), fresh=int(not np.any(n[:50] == m[:50])),
                  tol=int(np.ceil(1000 * 7 * np.sqrt(2.0 / k))) + 2, lim=int(np.ceil(1e4 * 7 / np.sqrt(k))) + 1)
    except Exception as x:
        ev["exc"] = type(x).__name__
    return ev


def chan(*a, **k):
    r, e = call(cdsp.channel.awgn_channel, *a, **k)
    if not e and not (isinstance(r, tuple) and len(r) == 2):
        e = "NotAPair"
    return (None, None, e) if e else (r[0], r[1], "")


def replay(ctx, vecs):
    np.random.seed(ctx.seed + 11)
    seen = set()
    for i, v in enumerate(vecs):
        x = np.array(v["x"], float if i % 2 else int)
        b = v["b"] if i % 3 else np.array(v["b"])
        y, z, e = chan(x, b, [1] if i % 4 else 1)
        ctx.check(v, "clean", ["", v["y"], v["z"]], [e, flat(y), flat(z)])
        y, z, e = chan(x, b, [1], snr=[-5, 0, 30][i % 3])
        ctx.check(v, "memory", ["", v["z"], len(x)], [e, flat(z), len(flat(y))])
        # the noise power of a short signal, over many calls
        key = (len(x) > 1, v["p"])
        short = len(x) == 1 and (key not in seen)
        seen.add(key)
        for way in (0, 1) if short else (i // 12 % 2,) if i % 12 == 0 else ():
            R = 2500
            s = 0.0
            for _ in range(R):
                if way:
                    o, e = call(cdsp.channel.awgn, np.array(v["y"], float), 10)
                else:
                    o, _, e = chan(np.array(v["y"], float), [1.0], 1, snr=10)
                if e:
                    break
                d = np.asarray(o, float).reshape(-1) - v["y"]
                s += float(np.dot(d, d)) if np.all(np.isfinite(d)) else np.inf
            got = s / R / len(x) * 10
            want = v["p"] / len(x)
            tol = 7 * np.sqrt(2.0 / (R * len(x)))
            ctx.check(v, "power", ["", True], [e, bool(abs(got - want) <= tol * want + 1e-12)])


def record(ctx):
    rng = ctx.rng
    np.random.seed(ctx.seed)
    for rep in range(ctx.n(30, 120)):
        kind = rep % 6
        n = N if rep % 4 else N // 4
        if kind == 0:
            x = retype(rng, rng.choice([-3, -1, 1, 3], n), False, False) if rep % 4 else rng.choice([-15, -5, 5, 15], n)
        elif kind == 1:
            x = (lambda v: v if v.dtype != bool else v.astype(int))(retype(rng, rng.choice([0, 1], n), fl=False))                      # with a DC component
        elif kind == 2:
            x = rng.standard_normal(n) * 2 + 1.5
        elif kind == 3:
            x = np.sort(rng.uniform(-1, 2, n))             # strongly ordered
        elif kind == 4:
            x = rng.choice([-1., 1.], (200, n // 200))
            if rep % 12 == 10:                             # rows and columns around different means
                x = x + np.arange(200)[:, None] % 3 - (np.arange(n // 200) % 2) * .5
        else:
            x = 1.0 + np.arange(n) % 2 * 0.01              # almost constant
        snr = int(rng.choice([-60, -30, -14, -7, 0, 3, 10, 14, 20, 25, 33, 48, 60] if rep % 5 < 3 else [-85, 63, 70, 86, 99, 120]))
        o, e = call(cdsp.channel.awgn, x, snr)
        o2, e2 = call(cdsp.channel.awgn, x, snr)
        ctx.add({}, moments(ctx, x, o, o2, snr, e or e2))
        if x.ndim == 1 and rep % 2 == 0:
            b = np.array([[1.0], [1, .5], [.5, 1, -.25]][rep // 2 % 3])
            a = [1, [1.0, -.5], 2][rep // 4 % 3]
            a = [2.0, 1.0] if a == 2 else a
            xs = x if kind != 2 else np.round(x * 8) / 8
            y0, z0, e0 = chan(xs, b, a)
            y1, z1, e1 = chan(xs, b, a, snr=snr)
            y2, _, e2 = chan(xs, b, a, snr=snr)
            e = e0 or e1 or e2
            ctx.add({}, [moments(ctx, y0, y1, y2, snr, e), dict(op="memory", z=flat(z1, 2 ** 16, False), z0=flat(z0, 2 ** 16, False), exc=e)])
    for rep in range(ctx.n(30, 200)):
        n = int(rng.choice([1, 2, 3, 17]))
        x = rng.integers(-3, 4, n)
        b = rng.integers(-3, 4, int(rng.integers(1, 5)))
        if rep % 3 == 0:                        # with many digits
            x = rng.integers(-140000000, 140000000, n)
        y, z, e = chan(retype(rng, x, False) if rep % 3 else x * 1.0, b.astype(float), 1 if rep % 2 else [1.0])
        want = np.convolve(x, b)[:n]
        ctx.add({}, dict(op="clean", y=flat(y), want=ilist(want), n=n, exc=e))
        o, e = call(cdsp.channel.awgn, np.zeros(n), int(rng.integers(-10, 40)))
        ctx.add({}, dict(op="silent", y=flat(o, 2 ** 20, False), n=n, exc=e))
    # chunks with noise: the memory continues the clean channel
    for rep in range(ctx.n(20, 100)):
        b = rng.integers(-3, 4, 4).astype(float)
        zi = z0 = None
        ev = []
        for k in range(4):
            x = rng.integers(-3, 4, int(rng.choice([1, 2, 9]))).astype(float)
            y, zi, e = chan(x, b, 1, snr=10, zi=zi)
            y0, z0, e0 = chan(x, b, 1, zi=z0)
            ev.append(dict(op="memory", z=flat(zi, 2 ** 10), z0=flat(z0, 2 ** 10), exc=e or e0))
            if e or e0:
                break
        ctx.add({}, ev)
