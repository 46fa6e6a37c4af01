import numpy as np
import CommDspy as cdsp
from CommDspy.constants import PrbsEnum, ConstellationEnum as K
from harness.drv import *


def estimate(n, sig, c, pre, post, unit=1.0, **kw):
    win = {} if (pre, post) == (19, 500) else dict(channel_precursor=pre, channel_postcursor=post)       # the defaults
    r, e = call(cdsp.channel_estimation_prbs, PrbsEnum(n), sig, K[c], **win, **{k: v for k, v in kw.items() if v or len(sig) % 2})
    if not e and not (isinstance(r, tuple) and len(r) == 2):
        e = "NotAPair"
    if e:
        return dict(op="est", est=[], peak=0, amp=0, res=[], exc=e)
    try:
        est = np.asarray(r[0], float).reshape(-1)
        res = np.asarray(r[1], float).reshape(-1)
        big = float(np.max(np.abs(est))) if len(est) else 0.0
        if not np.isfinite(big) or big == 0:
            return dict(op="est", est=[NAN] * len(est), peak=NAN, amp=NAN, res=[], exc="")
        # the estimate scales with the signal: report shape and peak separately, the residual relative to it
        # the unnormalised estimate is in units of the variance of the period
        P = 2 ** n - 1
        var = float(np.var(np.mean(np.reshape(np.asarray(sig, float)[:len(sig) // P * P], [-1, P]), axis=0)))
        full = dict(NRZ=1.0, OOK=np.sqrt(.5), PAM4=np.sqrt(5.0))[c] if kw.get("prbs_full_scale") else 1.0
        return dict(op="est", est=flat(est / big, 10000, False), peak=toint(np.max(est) * 10000, False), amp=toint(big * var / full / unit * 1000, False),
                    res=flat(res / big ** 2, 1e6, False), exc="")
    except Exception as x:
        return dict(op="est", est=[], peak=0, amp=0, res=[], exc=type(x).__name__)


def kwargs(ord_, pn, gray, fs=0, norm=0):
    return dict(bit_order_inv=bool(ord_), pn_inv_precoding=bool(pn), gray_coding=bool(gray), prbs_full_scale=bool(fs), normalize=bool(norm))


def replay(ctx, vecs):
    for i, v in enumerate(vecs):
        kw = kwargs(v["ord"], v["pn"], v["gray"], i % 2, (i // 2) % 2)
        ev = estimate(7, np.array(v["sig"], float if i % 3 else int), v["c"], v["pre"], v["post"], **kw)
        # the main cursor is 8 by construction: the estimate in eighths of it
        m = v["pre"]
        got = [ev["exc"]] + ([round(x * 8 / ev["est"][m], 2) for x in ev["est"]] if len(ev["est"]) > m and ev["est"][m] else [])
        ctx.check(v, "estimate", [""] + [float(x) for x in v["w"]], got)


POLY = {7: [6, 7], 9: [5, 9], 11: [9, 11]}


def pattern(n, k, c, ord_, pn, gray):
    s, b = [1] * n, []
    for _ in range(2 * (2 ** n - 1)):
        v = s[POLY[n][0] - 1] ^ s[POLY[n][1] - 1]
        b.append(v)
        s = [v] + s[:-1]
    lv = dict(NRZ=[-1, 1], OOK=[0, 1], PAM4=[-3, -1, 1, 3])[c]
    P = 2 ** n - 1
    out = []
    for i in range(P):
        g = b[i * k:(i + 1) * k]
        if ord_:
            g = g[::-1]
        if pn:
            g = [1 - x for x in g]
        v = sum(x << j for j, x in enumerate(g))
        out.append(lv[v ^ (v >> 1) if gray else v])
    return np.array(out)


def channel(rng, hp, hq):
    h = np.zeros(hp + hq + 1, int)
    h[hp] = 12
    left = 5
    for i in rng.permutation(len(h)):
        if i != hp and left > 0:
            h[i] = int(rng.integers(-min(3, left), min(3, left) + 1))
            left -= abs(h[i])
    return h


def record(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(90, 700)):
        c = ["NRZ", "PAM4", "OOK", "PAM4", "NRZ", "PAM4"][rep % 6]
        k = 2 if c == "PAM4" else 1
        n = 9 if rep % 15 == 7 else 7
        P = 2 ** n - 1
        ord_, pn, gray = (int(v) for v in rng.integers(0, 2, 3))
        if k == 1:
            ord_ = gray = 0
        noisy = int(rep % 4 == 3 and n == 7 and c != "OOK")
        pre, post = int(rng.integers(0, 6)), int(rng.integers(0, 10))
        hp = int(rng.integers(0, pre + 1)) if not noisy else int(rng.integers(0, pre + 3))
        hq = int(rng.integers(0, post + 1)) if not noisy else int(rng.integers(0, post + 3))
        h = channel(rng, hp, hq)
        rot = int(rng.choice([0, 1, P - 1, int(rng.integers(P))]))
        pat = pattern(n, k, c, ord_, pn, gray)
        one = sum(int(h[i]) * np.roll(pat, -(rot - (i - hp))) for i in range(len(h)))
        reps = int(rng.integers(1, 3 if n == 9 else 4)) if rep % 8 != 5 else int(rng.integers(4, 10))
        sig = np.tile(one, reps)
        if reps == 2 and rep % 2:          # disturbances that cancel over the two periods
            e = rng.integers(-4, 5, P)
            sig = sig + np.concatenate([e, -e])
        if reps > 2:                       # the same over all of many periods, none of which is free of them
            e = rng.integers(-4, 5, (reps, P))
            e[-1] = -e[:-1].sum(axis=0)
            sig = sig + e.reshape(-1)
        if noisy:
            sig = sig + rng.integers(-3, 4, len(sig))
        if rep % 5 == 1:                   # an incomplete period at the end is not used
            sig = np.concatenate([sig, one[:int(rng.integers(1, P))]])
        fs, norm = int(rng.integers(2)), int(rng.integers(2))
        cfg = dict(n=n, k=k, c=c, f=dict(ord=ord_, msb=0, lsb=0, pn=pn), gray=gray, h=ilist(h), hp=hp, pre=pre, post=post, rot=rot,
                   sig=ilist(sig), norm=norm, noisy=noisy)
        x = lay(rng, sig / 4.0 if rep % 2 else sig)
        ctx.add(cfg, estimate(n, x, c, pre, post, .25 if rep % 2 else 1.0, **kwargs(ord_, pn, gray, fs, norm)))
    # wide windows, the default one among them
    for n, c, pre, post, hp, hq in ((11, "NRZ", 19, 500, 4, 40), (11, "PAM4", 19, 500, 19, 200), (9, "PAM4", 20, 40, 15, 40), (9, "NRZ", 0, 90, 0, 80),
                                    (7, "PAM4", 30, 30, 30, 29), (11, "OOK", 3, 8, 2, 8))[:ctx.n(6, 6)]:
        k = 2 if c == "PAM4" else 1
        P = 2 ** n - 1
        ord_, pn, gray = (int(v) for v in rng.integers(0, 2, 3)) if k == 2 else (0, int(rng.integers(2)), 0)
        h = channel(rng, hp, hq)
        rot = int(rng.integers(P))
        pat = pattern(n, k, c, ord_, pn, gray)
        sig = sum(int(h[i]) * np.roll(pat, -(rot - (i - hp))) for i in range(len(h)))
        cfg = dict(n=n, k=k, c=c, f=dict(ord=ord_, msb=0, lsb=0, pn=pn), gray=gray, h=ilist(h), hp=hp, pre=pre, post=post, rot=rot,
                   sig=ilist(sig), norm=0, noisy=0)
        ctx.add(cfg, estimate(n, sig / 4.0, c, pre, post, .25, **kwargs(ord_, pn, gray, 0, 0)))
