from fractions import Fraction
import numpy as np
import CommDspy as cdsp
from harness.drv import *

TS = 40000


ARG = np.random.default_rng(15)


def shape_(sym, osr, span, kind, beta, **k):
    a = dk(ARG, osr=(osr, 1), span=(span, 1), pulse=(kind, "rect"), beta=(beta, 0.5))
    r, e = call(cdsp.channel.pulse_shape, sym, **a, **k)
    if not e and not (isinstance(r, tuple) and len(r) == 2):
        return None, "NotAPair"
    return (r[0] if not e else None), e


def replay(ctx, vecs):
    for n, v in enumerate(vecs):
        x = np.array(v["sym"], float if n % 2 else int)
        y, e = shape_(x, v["osr"], v["span"], v["kind"], 0.5)
        ctx.check(v, "shaped", ["", v["out"]], [e, flat1(y)])
        if v["kind"] == "rect" and len(v["sym"]) > v["span"] and n % 4 == 0:
            # at the symbol instants every interference-free pulse agrees with the rectangular one
            sl = slice(v["span"] * v["osr"], None, v["osr"])
            for k in ("sinc", "rcos"):
                y, e = shape_(x, v["osr"], v["span"], k, [0.5, 0.25, 1, 0.3][(n // 4) % 4])
                f = flat1(y, 1000, False)
                ctx.check(v, k, ["", [1000 * w for w in v["out"][sl]]], [e, f[sl]])


BETAS = ["1/2", "1/4", "1/5", "3/10", "7/20", "1/10", "1/20", "3/4", "1", "2/5", "1/3", "2/3", "9/10", "1/8", "5/8", "3/20"]


def record(ctx):
    rng = ctx.rng
    combos = []
    for osr in range(1, 17):
        for b in BETAS:
            for kind in ("rcos", "rrc"):
                combos.append((kind, osr, int(rng.integers(1, 9 if osr < 7 else 4)), Fraction(b)))
    combos = [combos[i] for i in rng.permutation(len(combos))[:ctx.n(260, 512)]]
    # roll-offs whose singular instant lies on the sample grid, not only the round ones
    hits = []
    for osr in range(1, 33):
        for p in range(1, 3 * osr):
            for kind, m in (("rcos", 2), ("rrc", 4)):
                b = Fraction(osr, m * p)
                if b <= 1 and b.denominator * osr <= 2400 and b.numerator <= 100:
                    hits.append((kind, osr, p // osr + 1, b))
    combos += [hits[i] for i in rng.permutation(len(hits))[:ctx.n(300, 1500)]]
    # ... and those whose singular instant lies beside a sample, as close as can be
    beside = []
    for osr in (2, 3, 5, 8, 11, 16, 21, 32):
        for v in range(3, 100):
            if v * osr > 2400:
                break
            for u in range(1, v + 1):
                for kind, m in (("rcos", 2), ("rrc", 4)):
                    p = (v * osr) // (m * u) + (v * osr % (m * u) * 2 > m * u)
                    d = abs(v * osr - m * u * p) / (v * osr)
                    if p and p < 3 * osr and 0 < d < .03 and np.gcd(u, v) == 1:
                        beside.append((d, (kind, osr, p // osr + 1, Fraction(u, v))))
    beside.sort(key=lambda z: z[0])
    beside = [z[1] for z in beside]
    combos += [beside[i] for i in rng.permutation(len(beside))[:ctx.n(100, 600)]] + [beside[i] for i in rng.permutation(400)[:ctx.n(60, 200)]]
    for osr in (17, 20, 24, 32, 48, 64):
        for kind in ("rect", "sinc", "rcos", "rrc", "imp"):
            combos.append((kind, osr, int(rng.integers(1, 3)), Fraction(int(rng.integers(1, 11)), 10)))
    combos += [("rcos", osr, 3, Fraction(0)) for osr in (1, 3, 8)]
    for osr, span in ((1, 12), (1, 40), (2, 16), (2, 33), (3, 10), (4, 20), (8, 9)):
        for kind in ("rect", "sinc", "rcos", "rrc", "imp"):
            combos.append((kind, osr, span, Fraction(int(rng.integers(1, 11)), 10)))
    for osr in range(1, 17):
        for kind in ("rect", "sinc", "imp"):
            for span in (1, 2, 5):
                combos.append((kind, osr, span, Fraction(1, 2)))
    for _ in range(ctx.n(0, 300)):
        combos.append((str(rng.choice(["rcos", "rrc"])), int(rng.integers(1, 17)), int(rng.integers(1, 5)), Fraction(int(rng.integers(1, 20)), 20)))
    for kind, osr, span, b in combos:
        u, v = b.numerator, b.denominator
        cfg = dict(kind=kind, osr=osr, span=span, u=u, v=v)
        n = 2 * span
        imp = np.zeros(n)
        imp[0] = 1
        beta = float(b)
        h, e = shape_(imp, osr, span, kind, beta)
        ev = [dict(op="pulse", h=flat1(h, TS, False), exc=e)]
        if kind != "imp":                                  # the pulse itself, on its own grid and on a given one
            fn, a = getattr(cdsp.channel, kind + "_pulse", None), ([beta] if kind in ("rcos", "rrc") else [])
            h, e = call(fn, osr, span, *a)
            ev.append(dict(op="pulse", h=flat1(h, TS, False), exc=e))
            h, e = call(fn, int(rng.integers(1, 9)), 1, *a, t=np.arange(-osr * span, osr * span) / osr)
            ev.append(dict(op="pulse", h=flat1(h, TS, False), exc=e))
        sym = rng.choice([-3, -1, 1, 3, 0, 5], int(rng.integers(1, 8) if rng.random() > .008 else rng.integers(1000, 2500)) + (span if rng.random() < .8 else 0))
        y, e = shape_(sym if rng.random() < .3 else sym.astype(float), osr, span, kind, beta, **({} if rng.random() < .5 else dict(zi=np.zeros(2 * osr * span - 1))))
        ev.append(dict(op="shape", sym=ilist(sym), y=flat1(y, TS, False), exc=e))
        ctx.add(cfg, ev)
    for kind in ("rect", "sinc", "rcos", "rrc", "imp"):
        for osr, span in ((1, 1), (4, 2), (3, 5)):
            for d in (-1, 1, 3):
                _, e = shape_(np.ones(3), osr, span, kind, .5, zi=np.zeros(max(0, 2 * osr * span - 1 + d)))
                ctx.add(dict(kind=kind, osr=osr, span=span, u=1, v=2), dict(op="refuse", exc=e))
    for name in ("square", "RECT", "", "rc", "gauss"):
        _, e = shape_(np.ones(3), 4, 2, name, .5)
        ctx.add(dict(kind=name, osr=4, span=2, u=1, v=2), dict(op="refuse", exc=e))
