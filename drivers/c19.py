from fractions import Fraction
import numpy as np
import CommDspy as cdsp
import CommDspy.digital_delay as dd
from harness.drv import *

TS = 40000


def over(x, osr, n, method, **k):
    r, e = call(cdsp.digital_oversample, x, osr, n, method, **k)
    if not e and not (isinstance(r, tuple) and len(r) == 3):
        e = "NotATriple"
    return (r if not e else (None,) * 3), e


def replay(ctx, vecs):
    for i, v in enumerate(vecs):
        x = np.array(v["x"], int if i % 2 else float)
        r, e = over(x, v["osr"], v["n"], "lagrange")
        ctx.check(v, "lagrange", ["", v["out"]], [e, flat1(r[0], v["osr"] ** v["deg"])])


COEF = dict(lagrange=lambda n, a, f, b: dd.dig_delay_lagrange_coeffs(n, a, *f.values()), sinc=lambda n, a, f, b: dd.dig_delay_sinc_coeffs(n, a, *f.values()),
            rcos=lambda n, a, f, b: dd.dig_delay_rcos_coeffs(n, a, **({"forward": f["fwd"]} if f else {}), **b))
BETAS = ["1/2", "1/4", "1/5", "3/10", "7/20", "1/10", "3/4", "1", "0"]


def record(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(220, 1500)):
        method = ["lagrange", "sinc", "rcos"][rep % 3]
        n = int(rng.integers(1, 8))
        q = int(rng.choice([1, 2, 3, 4, 5, 8, 10, 16]))
        a = 0 if rng.random() < .25 else int(rng.integers(q))
        fwd = int(rng.random() < .6)
        b = Fraction(BETAS[rng.integers(len(BETAS))])
        if method != "lagrange" and rng.random() < .15:
            n = int(rng.integers(8, 31))
        if method == "lagrange" and rng.random() < .35:
            n, q = int(rng.integers(8, 31)), int(rng.choice([2, 3, 4, 5]))
            a = int(rng.integers(q))
        r, e = call(COEF[method], n, a / q, dk(rng, fwd=(bool(fwd), True)), dk(rng, beta=(float(b), 0.5)))
        ctx.add({}, dict(op="coef", method=method, n=n, a=a, q=q, fwd=fwd, u=b.numerator, v=b.denominator, h=flat1(r, TS, False), exc=e))
    for rep in range(ctx.n(140, 900)):
        method = ["lagrange", "sinc", "rcos"][rep % 3]
        n = int(rng.integers(0 if method != "lagrange" else 1, 9 if method != "lagrange" else 7))
        osr = int(rng.choice([1, 2, 3, 4, 5, 8]))
        b = Fraction(BETAS[rng.integers(len(BETAS))])
        if rep % 8 == 0:
            osr = int(rng.choice([10, 16, 20, 32]))
        if rep % 9 == 0 and method != "lagrange":
            n = int(rng.integers(9, 25))
        if rep % 12 == 0 and method == "lagrange":
            n, osr = int(rng.integers(8, 29)), int(rng.choice([2, 3, 4, 5]))
        x = rng.integers(-5, 6, n + int(rng.integers(1, 12) if rep % 7 else rng.integers(12, 80) if rep % 49 else rng.integers(1100, 2600)))
        if method == "rcos" and rep % 4 == 0:
            b = Fraction(0)
        k = dk(rng, beta=(float(b), 0.0)) if method == "rcos" else {}
        if method == "rcos" and rep % 8 == 0:
            k = {}
        xin = x.astype(float) if rng.random() < .7 else x
        (y, t2, t1), e = over(lay(rng, xin), osr, n, method, **k)
        ctx.add({}, dict(op="over", method=method, n=n, osr=osr, u=b.numerator, v=b.denominator, x=ilist(x), y=flat1(y, TS, False),
                         t2=flat1(t2, osr), t1=flat1(t1, osr), exc=e))
    for rep in range(ctx.n(60, 400)):
        n = int(rng.integers(1, 6))
        deg = int(rng.integers(0, n + 1))
        osr = int(rng.integers(1, {0: 9, 1: 9, 2: 9, 3: 6, 4: 4, 5: 3}[deg]))
        N = n + int(rng.integers(1, 9))
        c = [int(v) for v in rng.integers(-4, 5, deg + 1)]
        if rep % 3 == 0:                        # with many digits
            c[0] += int(rng.integers(-700000000, 700000000)) // osr ** deg
        x = np.array([sum(ck * t ** k for k, ck in enumerate(c)) for t in range(N)], float)
        (y, _, _), e = over(x, osr, n, "lagrange")
        ctx.add({}, dict(op="poly", n=n, osr=osr, N=N, c=c, y=flat1(y, osr ** deg), exc=e))
    for name in ("Sinc", "linear", "", "lagrange ", "rrc", "rcos2", "cubic", None, 3):
        o, e = call(cdsp.digital_oversample, np.arange(20.0), int(rng.integers(2, 9)), int(rng.integers(1, 7)), name)
        ctx.add({}, dict(op="refuse", exc=e))
