import numpy as np
import CommDspy as cdsp
from CommDspy.constants import PrbsEnum, ConstellationEnum as K
from harness.drv import *
from drivers.c23 import pattern

T = 16384
U = 8


FSC = dict(NRZ=1.0, PAM4=1 / np.sqrt(5))


def result(r, e, D, unit=1.0, sc=1.0, norm=0):
    if not e and not (isinstance(r, tuple) and len(r) == 5):
        e = "NotFive"
    if e:
        return dict(op="eqe", f=[], d=[], g=0, err=[], ratio=0, exc=e)
    ffe, dfe, g, err, mse = r
    try:
        # the signal in another unit: taps (or, when they are normalised, the gain) the other way round
        ffe, g = (np.asarray(ffe, float), np.asarray(g, float) * sc) if norm else (np.asarray(ffe, float) * sc, g)
        m = float(mse)
        ratio = 10 ** (m / 10) if not np.isnan(m) else -1
        return dict(op="eqe", f=flat(ffe, T, False), d=[] if dfe is None and D == 0 else flat(dfe, T, False), g=flat(g, 10000, False)[0],
                    err=flat(np.asarray(err, float) / unit ** 2, 100, False), ratio=toint(ratio * 1e4, False), exc="")
    except Exception as x:
        return dict(op="eqe", f=[], d=[], g=0, err=[], ratio=0, exc=type(x).__name__)


def replay(ctx, vecs):
    for i, v in enumerate(vecs):
        L, D = len(v["f"]), len(v["d"])
        post = i % L
        norm = i % 2 if max(v["f"]) == 2 else 0
        r, e = call(cdsp.equalization_estimation, np.array(v["r"], float), np.array(v["x"], float), post, L - 1 - post, D, bool(norm))
        ev = result(r, e, D)
        k = 2 if norm else 1
        want = ["", [x * 1000 // k for x in v["f"]], [x * 1000 // k for x in v["d"]], k]
        got = [e, flat(r[0], 1000, False), flat(r[1], 1000, False) if D and r[1] is not None else [], toint(r[2])] if not e and isinstance(r, tuple) and len(r) == 5 else [e or "NotFive"]
        ctx.check(v, "taps", want, got)


def channel(rng, hp, hq, budget):
    h = np.zeros(hp + hq + 1, int)
    h[hp] = U
    left = budget
    for i in rng.permutation(len(h)):
        if i != hp and left > 0:
            h[i] = int(rng.integers(-min(2, left), min(2, left) + 1))
            left -= abs(h[i])
    return h


def base(**k):
    c = dict(prbs=0, n=7, k=1, c="NRZ", f=dict(ord=0, msb=0, lsb=0, pn=0), gray=0, inv=0, rot=0, r=[], T=T, U=U, exact=0, norm=0, lam=0)
    c.update(k)
    return c


def regular(rng, exact):
    """(keyword arguments, ridge weight): off in three spellings, or ridge"""
    if exact or rng.random() < .4:
        return [({}, 0), (dict(regularization="None"), 0), (dict(regularization="None", reg_lambda=5), 0), (dict(regularization="ridge"), 0),
                (dict(regularization="ridge", reg_lambda=0), 0), (dict(regularization="lasso", reg_lambda=0), 0),
                (dict(reg_lambda=5), 0), (dict(reg_lambda=20), 0)][rng.integers(8)]
    if rng.random() < .15:
        return dict(regularization=str(rng.choice(["Ridge", "l2", "elastic", ""])), reg_lambda=1), -1
    lam = int(rng.choice([1, 2, 5, 20, 60]))
    return dict(regularization="ridge", reg_lambda=lam if rng.random() < .5 else float(lam)), lam


def record(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(60, 500)):            # PRBS driven
        c = ["NRZ", "PAM4", "PAM4"][rep % 3]
        k = 2 if c == "PAM4" else 1
        ord_, pn, gray, inv = (int(v) for v in rng.integers(0, 2, 4))
        if k == 1:
            ord_ = gray = 0
        pre, post, dfe = int(rng.integers(0, 4)), int(rng.integers(0, 6)), int(rng.integers(0, 5))
        exact = int(rep % 2 and dfe > 0 and rep % 15 != 8)
        if exact:                                # postcursors only, all cancelled by the feedback taps
            hp, hq = 0, int(rng.integers(0, dfe + 1)) if post == 0 else dfe
        else:
            hp, hq = int(rng.integers(0, 2)), int(rng.integers(0, 5))
        h = channel(rng, hp, hq, 5)
        if exact and post and h[-1] == 0:        # or else the samples before the cursor follow from the references: no unique solution
            h[-1] = 1
        nb = 9 if rep % 15 == 7 else 7
        if rep % 15 == 8:                        # many taps
            pre, post = (int(rng.integers(4, 9)), int(rng.integers(6, 20))) if rep % 30 == 8 else (4, 23)
        P = 2 ** nb - 1
        rot = int(rng.choice([0, P - 1, int(rng.integers(P))]))
        pat = pattern(nb, k, c, ord_, pn, gray) * (-1 if inv else 1)
        one = sum(int(h[i]) * np.roll(pat, -(rot - (i - hp))) for i in range(len(h)))
        reps = int(rng.integers(1, 4))
        sig = np.tile(one, reps)
        if not exact:
            n_ = rng.integers(-2, 3, P)
            sig = sig + np.tile(n_, reps)
        if reps == 2:
            e_ = rng.integers(-3, 4, P)
            sig = sig + np.concatenate([e_, -e_])
        if rep % 5 == 1:
            sig = np.concatenate([sig, one[:int(rng.integers(1, P))]])
        if rep % 7 == 3 and reps == 1:           # less than a period
            sig = sig[:int(rng.integers(90, P))]
        norm = int(rng.integers(2))
        cfg = base(prbs=1, n=nb, k=k, c=c, f=dict(ord=ord_, msb=0, lsb=0, pn=pn), gray=gray, inv=inv, rot=rot, x=ilist(sig), pre=pre, post=post, dfe=dfe,
                   exact=exact, norm=norm)
        kw, cfg["lam"] = regular(rng, exact)
        fs = rng.random() < .3 and cfg["lam"] <= 0            # the same problem with all levels scaled to unit power
        unit = FSC[c] if fs else 1.0
        kw.update(dk(rng, dfe_taps=(dfe, 0), normalize=(bool(norm), False), bit_order_inv=(bool(ord_), False), pn_inv_precoding=(bool(pn), False),
                     gray_coded=(bool(gray), True), pn_inv_postmapping=(bool(inv), False), prbs_full_scale=(bool(fs), False)))
        r, e = call(cdsp.equalization_estimation_prbs, PrbsEnum(nb), lay(rng, sig * unit / U), K[c], **({} if (pre, post) == (4, 23) else dict(ffe_postcursor=post, ffe_precursor=pre)), **kw)
        ctx.add(cfg, result(r, e, dfe, unit))
    for rep in range(ctx.n(50, 400)):            # an explicit reference, earliest sample of the window in step with it
        big = rep % 12 == 6                      # a long one, solved exactly
        n = int(rng.integers(50, 130)) if not big else int(rng.integers(1100, 2500))
        lv = [[-1, 1], [-3, -1, 1, 3]][rep % 2]
        s = rng.choice(lv, n + 20)
        pre, post, dfe = int(rng.integers(0, 4)), int(rng.integers(0, 5)), int(rng.choice([0, 0, 1, 2, 3, 4]))
        dfe = max(dfe, 1) if big else dfe
        exact = int(rep % 3 == 0 and dfe > 0)
        hq = dfe if exact else int(rng.integers(0, 5))
        h = channel(rng, 0, hq, 5)
        if exact and h[-1] == 0:
            h[-1] = 1
        x = sum(int(h[i]) * s[10 - i:10 - i + n] for i in range(len(h)))
        if not exact:
            x = x + rng.integers(-2, 3, n)
        sh = int(rng.integers(0, pre + post + 1)) if not big else 0
        ref = s[10 + sh:10 + sh + n]             # the main cursor anywhere in the window
        norm = int(rng.integers(2))
        cfg = base(x=ilist(x), r=ilist(ref * U), pre=pre, post=post, dfe=dfe, exact=0 if sh else exact, norm=norm)
        kw, cfg["lam"] = regular(rng, cfg["exact"])
        if rep % 4 == 3 and cfg["lam"] <= 0:     # everything in whole numbers, possibly of a short type
            a, q, unit = lay(rng, narrow(rng, ref * U)), lay(rng, narrow(rng, x)), U
        else:
            a, q, unit = lay(rng, ref.astype(float) if rep % 2 else narrow(rng, ref)), lay(rng, x / U), 1.0
        sc = 1.0
        if cfg["lam"] > 0 and dfe == 0 and unit == 1 and rng.random() < .6:      # the same ridge problem in another unit
            sc = float(rng.choice([.5, .02, .003, 20]))
            q, kw["reg_lambda"] = q * sc, cfg["lam"] * sc ** 2
        kw.update(dk(rng, dfe_taps=(dfe, 0), normalize=(bool(norm), False)))
        r, e = call(cdsp.equalization_estimation, a, q, post, pre, **kw)
        ctx.add(cfg, result(r, e, dfe, unit, sc, norm))
    for rep in range(ctx.n(3, 12)):              # the default window
        n = int(rng.integers(200, 400))
        s = rng.choice([[-1, 1], [-3, -1, 1, 3]][rep % 2], n + 20)
        x = sum(int(v) * s[10 - i:10 - i + n] for i, v in enumerate(channel(rng, 0, 3, 5))) + rng.integers(-2, 3, n)
        ref = s[10 + 23:] if len(s[10 + 23:]) >= n else np.concatenate([s[10 + 23:], rng.choice([-1, 1], n - len(s[10 + 23:]))])
        kw, lam = regular(rng, 0)
        cfg = base(x=ilist(x), r=ilist(ref[:n] * U), pre=4, post=23, dfe=0, lam=lam)
        r, e = call(cdsp.equalization_estimation, ref[:n], x / U, **kw)
        ctx.add(cfg, result(r, e, 0))
