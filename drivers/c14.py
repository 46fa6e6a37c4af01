import numpy as np
import CommDspy as cdsp
from CommDspy.misc.help_classes import Filter, FilterTII
from harness.drv import *
from drivers.c13 import config, signal, tii, chunks


class Chan:
    """awgn_channel with the memory carried by the caller"""
    def __init__(self, b, a):
        self.b, self.a, self.z = b, a, None

    def __call__(self, x):
        y, self.z = cdsp.channel.awgn_channel(x, self.b, self.a, zi=self.z)
        return y


class Zeros0(Chan):
    def __init__(self, b, a):
        Chan.__init__(self, b, a)
        self.z = np.zeros(max(len(b), len(a)) - 1)


class Scalar(Chan):
    def __init__(self, b, a):
        Chan.__init__(self, b, 1 if len(a) == 1 and a[0] == 1 else a)


KINDS = dict(channel=Chan, channel0=Zeros0, scalar=Scalar, filter=Filter, tii=FilterTII)


def replay(ctx, vecs):
    for v in vecs:
        edges = [0] + v["cuts"] + ([len(v["x"])] if not v["cuts"] or v["cuts"][-1] != len(v["x"]) else [])
        for name in ("channel", "filter", "tii"):
            f, e = call(KINDS[name], np.array(v["b"], float), np.array(v["a"], float))
            y = []
            for p, q in zip(edges, edges[1:]):
                if e:
                    break
                o, e = call(f, np.array(v["x"][p:q], float if len(y) % 2 else int))
                y += flat1(o)
            ctx.check(v, name, ["", v["y"]], [e, y])


def stable(rng):
    """denominators with coefficients in 1/64 and poles inside the unit circle"""
    k = rng.integers(6)
    if k == 0:
        return [64]
    if k == 1:
        return [64, int(rng.integers(-58, 59))]
    if k == 2:
        r = int(rng.integers(10, 54))
        return [64, int(rng.integers(-r, r)), r * r // 64 if rng.random() < .5 else 0]
    if k == 3:
        return [128, int(rng.integers(-100, 100))]
    if k == 4:
        return [64, 0, int(rng.integers(-50, 50))]
    return [64, int(rng.integers(-20, 21)), int(rng.integers(-20, 21)), int(rng.integers(-15, 16))]


def record(ctx):
    rng = ctx.rng
    S = 4096
    for rep in range(ctx.n(160, 1200)):
        name = list(KINDS)[rep % len(KINDS)]
        a = stable(rng)
        b = [int(v) for v in rng.integers(-64, 65, int(rng.integers(1, 7)))]
        if not any(b):
            b[0] = 64
        n = int(rng.choice([1, 3, 10, 45]))
        x = rng.integers(-3, 4, n) * (S if rep % 3 else S // 4)
        cfg = dict(kind="res", b=b, a=a)
        f, e = call(KINDS[name], np.array(b) / 64.0, np.array(a) / 64.0)
        ev, p = [], 0
        for k in chunks(rng, n):
            if e:
                ev.append(dict(op="chunk", x=[], y=[], exc=e))
                break
            xin = x[p:p + k] / S
            if np.all(xin == np.round(xin)) and rep % 4 == 0:
                xin = xin.astype(int)
            y, e = call(f, xin)
            ev.append(dict(op="chunk", x=ilist(x[p:p + k]), y=flat1(y, S, False), exc=e))
            p += k
            if e:
                break
        ctx.add(cfg, ev)
    # long responses, long signals, several objects of one kind at work at the same time
    for rep in range(ctx.n(15, 80)):
        name = list(KINDS)[rep % len(KINDS)]
        obj = []
        for _ in range(3):
            a = stable(rng) if rng.random() < .6 else [64]
            b = [int(v) for v in rng.integers(-20, 21, int(rng.choice([2, 9, 20, 45])))]
            b[-1] = 7
            f, e = call(KINDS[name], np.array(b) / 64.0, np.array(a) / 64.0)
            obj.append([f, e, dict(kind="res", b=b, a=a), []])
        for k in [int(v) for v in rng.integers(1, 40, 10)] + [150]:
            o = obj[int(rng.integers(3))]
            if o[1]:
                o[3].append(dict(op="chunk", x=[], y=[], exc=o[1]))
                continue
            x = rng.integers(-3, 4, k) * S
            y, o[1] = call(o[0], x / S)
            o[3].append(dict(op="chunk", x=ilist(x), y=flat1(y, S, False), exc=o[1]))
        for f, e, cfg, ev in obj:
            if ev:
                ctx.add(cfg, ev)
    for rep in range(ctx.n(10, 40)):                # very long chunks, and very many of them
        name = list(KINDS)[rep % len(KINDS)]
        a = stable(rng)
        b = [int(v) for v in rng.integers(-64, 65, 4)]
        f, e = call(KINDS[name], np.array(b) / 64.0, np.array(a) / 64.0)
        ev = []
        for k in [1500, 1, 4200, 2] if rep < 5 else chunks(rng, 900):
            x = rng.integers(-3, 4, k) * S
            y, e = call(f, x / S) if not e else (None, e)
            ev.append(dict(op="chunk", x=ilist(x), y=flat1(y, S, False), exc=e))
            if e:
                break
        ctx.add(dict(kind="res", b=b, a=a), ev)
    for rep in range(ctx.n(10, 30)):                # calls of tens of thousands of samples: a short input repeated
        name = list(KINDS)[rep % len(KINDS)]
        b = [int(v) for v in rng.integers(-64, 65, 4)]
        x, reps = rng.integers(-3, 4, int(rng.integers(5, 12))) * S, int(rng.choice([1201, 9001, 15013]))
        f, e = call(KINDS[name], np.array(b) / 64.0, np.array([1.0]))
        y, e = call(f, np.tile(x / S, reps)) if not e else (None, e)
        y = y if not e and np.shape(y) == (len(x) * reps,) else np.zeros(0)
        for t in tiles(y[len(x):], reps - 1):
            ctx.add(dict(kind="res", b=b, a=[64]), [dict(op="chunk", x=ilist(x), y=flat1(y[:len(x)], S, False), exc=e),
                                                    dict(op="chunk", x=ilist(x), y=flat1(t, S, False), exc=e)])
    # started from given past inputs and outputs
    for rep in range(ctx.n(90, 600)):
        name = ["filter", "tii", "channel"][rep % 3]
        a = stable(rng)
        if a[0] != 64 and name != "filter":
            a = [64] + [v // 2 for v in a[1:]]
        b = [int(v) for v in rng.integers(-64, 65, int(rng.integers(1, 6)))]
        if not any(b):
            b[0] = 64
        past_x = [int(v) * 1024 for v in rng.integers(-8, 9, len(b))]
        past_y = [int(v) * 1024 for v in rng.integers(-8, 9, len(a) - 1)]
        fb, fa = np.array(b) / 64.0, np.array(a) / 64.0
        px, py = np.array(past_x) / S, np.array(past_y) / S
        m = max(len(b), len(a)) - 1
        z = np.zeros(m)
        for k in range(m):
            z[k] = sum(fb[i] * px[i - k - 1] for i in range(k + 1, len(b))) \
                 - sum(fa[i] * py[i - k - 1] for i in range(k + 1, len(a)))
        late = bool(rep // 3 % 2)
        cfg = dict(kind="res", b=b, a=a)
        ev = []
        form = [list, np.array, tuple][int(rng.integers(3))]
        if name == "filter":
            if late:
                f, e = call(Filter, fb, fa)
                if not e:
                    f0 = f
                    _, e = call(f0, np.ones(3))
                    if not e:
                        _, e = call(f0.set_z_fir, form(px.tolist()))
                    if not e:
                        _, e = call(f0.set_z_iir, form(py.tolist()))
            else:
                f, e = call(Filter, fb, fa, form(px.tolist()), form(py.tolist()))
        elif name == "tii":
            if late:
                f, e = call(FilterTII, fb, fa)
                if not e:
                    _, e = call(f, np.ones(3))
                    if not e:
                        _, e = call(f.set_z, form(z.tolist()))
            else:
                f, e = call(FilterTII, fb, fa, form(z.tolist()))
        else:
            f, e = Chan(fb, fa), ""
            f.z = z.copy()
        ev.append(dict(op="set", xs=past_x, ys=past_y, exc=e))
        n = int(rng.choice([1, 4, 15]))
        x = rng.integers(-3, 4, n) * S
        p = 0
        for k in chunks(rng, n) if not e else ():
            y, e = call(f, x[p:p + k] / S)
            ev.append(dict(op="chunk", x=ilist(x[p:p + k]), y=flat1(y, S, False), exc=e))
            p += k
            if e:
                break
        ctx.add(cfg, ev)
        wrong = int(rng.choice([-1, 1, 3]))
        if name == "filter" and len(b) + wrong >= 0 and len(a) - 1 + wrong >= 0:
            args = (np.zeros(len(b) + wrong), None) if rep % 2 else (None, np.zeros(len(a) - 1 + wrong))
            _, e = call(Filter, fb, fa, *args)
            ctx.add(cfg, dict(op="badset", exc=e))
        elif name == "tii" and m + wrong >= 0:
            _, e = call(FilterTII, fb, fa, np.zeros(m + wrong))
            ctx.add(cfg, dict(op="badset", exc=e))
    # pulse shaping and CTLE: chunks against one pass
    T = 2 ** 27
    for rep in range(ctx.n(60, 400)):
        kind = rep % 3
        n = int(rng.integers(2, 24) if rep % 10 else rng.integers(60, 120) if rep % 20 else rng.integers(1100, 2500))
        sym = rng.choice([-3, -1, 1, 3], n).astype(float)
        if kind < 2:
            osr, span = int(rng.integers(1, 9)), int(rng.integers(1, 7))
            pulse = ["rect", "sinc", "rcos", "rrc", "imp"][rng.integers(5)]
            beta = float(rng.choice([0.1, 0.25, 0.5, 0.9, 1.0]))
            one = lambda x, z: cdsp.channel.pulse_shape(x, osr=osr, span=span, pulse=pulse, beta=beta, zi=z)
            z, w = None, osr
        else:
            fs = float(rng.choice([1e9, 5e9]))
            osr = int(rng.integers(1, 9))
            ze = [float(v) for v in rng.uniform(0.05, 1.0, int(rng.integers(1, 3))) * fs]
            po = [float(v) for v in rng.uniform(0.05, 2.0, len(ze) + int(rng.integers(0, 2))) * fs]
            dc = float(rng.choice([-6, 0, 3]))
            one = lambda x, z: cdsp.rx.ctle(x, ze, po, dc, fs, osr, zi=z)
            z, w = np.zeros(len(po)), 1
        r, e = call(one, sym, z)
        if e or not (isinstance(r, tuple) and len(r) == 2):
            ctx.add(dict(kind="one", ref=[]), dict(op="part", y=[], n=0, exc=e or "NotAPair"))
            continue
        cfg = dict(kind="one", ref=flat1(r[0], T, False))
        ev, p = [], 0
        for k in chunks(rng, n):
            r, e = call(one, sym[p:p + k], z)
            if e or not (isinstance(r, tuple) and len(r) == 2):
                ev.append(dict(op="part", y=[], n=0, exc=e or "NotAPair"))
                break
            ev.append(dict(op="part", y=flat1(r[0], T, False), n=k * w, exc=""))
            z = r[1]
            p += k
        else:
            ev.append(dict(op="end", exc=""))
        ctx.add(cfg, ev)
    for rep in range(ctx.n(12, 60)):
        C = config(rng, int(rng.integers(1, 6)), int(rng.integers(1, 4)))
        x = signal(rng, C, 30)
        ev, p = [], 0
        parts = []
        for k in chunks(rng, 30):
            parts.append(x[p:p + k])
            p += k
        ctx.add(dict(C, kind="eq"), tii(C, 16, parts))
