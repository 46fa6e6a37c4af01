import numpy as np
from CommDspy.misc import least_squares as ls
from harness.drv import *

T = 4096


def pair(r, e):
    if not e and not (isinstance(r, tuple) and len(r) == 2):
        e = "NotAPair"
    return (None, None, e) if e else (r[0], r[1], "")


def ways(kind, lam, manual=True):
    """every way of asking for the same solution"""
    if kind == "ols":
        w = [lambda A, b: ls.ols(A, b), lambda A, b: ls.least_squares(A, b), lambda A, b: ls.least_squares(A, b, "None", 7), lambda A, b: ls.least_squares(A, b, reg_lambda=7),
             lambda A, b: ls.least_squares(A, b, regularization="None")]
        # a weight of zero, which is also the default, is no regularization
        return w + ([lambda A, b: ls.ols_manual(A, b), lambda A, b: ls.least_squares(A, b, "ridge"), lambda A, b: ls.least_squares(A, b, "ridge", 0),
                     lambda A, b: ls.ridge_regression(A, b, 0.0)] if manual else [])
    if kind == "ridge":
        w = [lambda A, b: ls.ridge_regression(A, b, lam), lambda A, b: ls.least_squares(A, b, "ridge", lam),
             lambda A, b: ls.least_squares(A, b, reg_lambda=lam, regularization="ridge")]
        return w + ([lambda A, b: ls.ridge_regression_manual(A, b, lam)] if manual else [])
    return [lambda A, b: ls.lasso_regression(A, b, lam), lambda A, b: ls.least_squares(A, b, "lasso", lam)]


def replay(ctx, vecs):
    for i, v in enumerate(vecs):
        A, b = np.array(v["A"]), np.array(v["b"])
        if i % 3:
            A, b = A.astype(float), b.astype(float)
        k, d = v["lam"], v["det"]
        fs = ways("ridge" if k else "ols", k if i % 2 else float(k))
        x, s, e = pair(*call(fs[i % len(fs)], A, b))
        f = np.asarray(x, float) * d if not e else []
        ctx.check(v, "weights", ["", v["num"]], [e, flat(f)])
        s = flat(s, d * d)
        if s == [] and not k and len(b) <= A.shape[1]:
            s = [v["ssr"]]                                   # numpy reports no residual for a square system
        ctx.check(v, "residual", [v["ssr"]], s)
        if v["orth"] and k:
            fs = ways("lasso", k)
            x, s, e = pair(*call(fs[i % 2], A, b))
            ctx.check(v, "lasso", ["", v["lnum"], [v["lssr"]]], [e, flat(np.asarray(x, float) * v["ldet"] if not e else []), flat(s, v["ldet"] ** 2)])


def record(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(240, 1500)):
        kind = ["ols", "ridge", "lasso"][rep % 3]
        N = int(rng.integers(1, 8)) if rep % 12 else int(rng.integers(8, 17))
        M = int(rng.choice([N, N + 1, 2 * N + 2, 25, 50] if rep % 12 else [2 * N, 100, 200]))
        if kind == "ridge" and rng.random() < .25:
            M = int(rng.integers(1, N + 1))
        while True:
            A = rng.integers(-4, 5, (M, N))
            if kind != "ols" or rng.random() < .4:
                A = A + rng.integers(-3, 4, N)              # columns with a mean
            if kind == "ols":
                sv = np.linalg.svd(A.astype(float), compute_uv=False)
                if sv[-1] < 1:
                    continue
            break
        w0 = rng.integers(-3, 4, N)
        b = A @ w0 + (rng.integers(-3, 4, M) if rep % 4 else 0) + (int(rng.integers(-6, 7)) if rep % 5 == 0 else 0)
        if kind == "ols":
            ln, ld = 0, 1
            w = np.linalg.lstsq(A.astype(float), b, rcond=None)[0]
            if np.max(np.abs(w)) > 10:
                continue
        elif kind == "ridge":
            ln, ld = int(rng.choice([1, 2, 5, 30, 100])), int(rng.choice([1, 1, 4]))
            w = np.linalg.solve(A.T @ A + ln / ld * np.eye(N), A.T @ b)
            if np.max(np.abs(w)) > 10:
                continue
        else:
            ln, ld = int(rng.choice([1, 2, 5, 9])), int(rng.choice([1, 4, 8]))
        lam = ln / ld if ld > 1 else ln
        A1, b1, sc, sb = A, b, 1.0, 1.0                     # the same problem in other (binary) units
        if rep % 4 == 1:
            sb = 2.0 ** int(rng.integers(-14, 8))
            sa = 2.0 ** int(rng.integers(-7, 5))
            b1, A1, sc = b * sb, A * sa, sa
            if kind == "ols" and rng.random() < .7:         # every unknown in its own unit
                sc = 2.0 ** rng.integers(-12, 8, N)
                A1 = A * sc
            lam = lam * sa * (sa if kind == "ridge" else sb)
        fs = ways(kind, lam)[:6 if A1 is not A else 9]
        f = fs[rep % len(fs)] if A1 is not A else fs[int(rng.integers(len(fs)))]
        fa = lay(rng, narrow(rng, A1) if rep % 2 else A1.astype(float))
        fb = lay(rng, narrow(rng, b1) if rep % 3 else b1.astype(float))
        x, s, e = pair(*call(f, fa, fb))
        if A1 is not A and not e:
            x, e = call(lambda: np.asarray(x, float) * sc / sb)
            s = np.asarray(s, float) / sb ** 2
        qs = 64
        while qs * qs * int(b @ b) > 5e8:
            qs //= 2
        ctx.add(dict(A=[ilist(r) for r in A], b=ilist(b), kind=kind, ln=ln, ld=ld, T=T, qs=qs), dict(op="solve", w=flat(x, T, False), ssr=flat(s, qs * qs, False) if not e else [], exc=e))
    for rep in range(ctx.n(24, 100)):                       # whole numbers of a short type, by every way
        kind = ["ols", "ridge", "lasso"][rep % 3]
        N, M = int(rng.integers(1, 4)), int(rng.integers(10, 41))
        A = rng.integers(-5, 6, (M, N)) + rng.integers(-2, 3, N)
        b = A @ rng.integers(-3, 4, N) + rng.integers(-3, 4, M)
        if kind == "ols" and np.linalg.svd(A.astype(float), compute_uv=False)[-1] < 1:
            continue
        ln = 0 if kind == "ols" else int(rng.choice([1, 2, 5]))
        t = [np.int8, np.int16][rep // 3 % 2]
        qs = 64
        while qs * qs * int(b @ b) > 5e8:
            qs //= 2
        for f in ways(kind, ln):
            x, s, e = pair(*call(f, A.astype(t), b.astype(t)))
            ctx.add(dict(A=[ilist(r) for r in A], b=ilist(b), kind=kind, ln=ln, ld=1, T=T, qs=qs), dict(op="solve", w=flat(x, T, False), ssr=flat(s, qs * qs, False) if not e else [], exc=e))
    A = rng.integers(-4, 5, (6, 2))
    for name in ("Ridge", "none", "l1", "", "elastic"):
        _, e = call(ls.least_squares, A, A[:, 0], name, 1)
        ctx.add(dict(A=[[1]], b=[1], kind="ols", ln=0, ld=1, T=T, qs=64), dict(op="refuse", w=[], ssr=[], exc=e))
