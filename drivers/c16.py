import numpy as np
import CommDspy as cdsp
from harness.drv import *


def lock(bin_, pat, sig):
    r, e = call(cdsp.rx.lock_pattern_to_signal_binary if bin_ else cdsp.rx.lock_pattern_to_signal, pat, sig)
    if not e and not (isinstance(r, tuple) and len(r) == 2):
        e = "NotAPair"
    return (([], []) if e else (flat1(r[0]), flat1(r[1]))) + (e,)


def replay(ctx, vecs):
    for v in vecs:
        o, x, e = lock(v["bin"], np.array(v["pat"]), np.array(v["sig"]))
        ctx.check(v, "pattern", ["", v["out"]], [e, o])
        ctx.check(v, "correlation", v["xc"], x)


def add(ctx, bin_, pat, sig, rot):
    pat, sig = np.asarray(pat), np.asarray(sig)
    if not bin_ and ctx.rng.random() < .3:           # the same in another unit, as floating point
        a, b = float(ctx.rng.choice([1, .25, 2, 1e-3])), float(ctx.rng.choice([1, .5, 8, 1e3]))
        r, e = call(cdsp.rx.lock_pattern_to_signal, lay(ctx.rng, pat * a), lay(ctx.rng, sig * b))
        if not e and not (isinstance(r, tuple) and len(r) == 2):
            e = "NotAPair"
        ctx.add({}, dict(op="lock", bin=0, pat=ilist(pat), sig=ilist(sig), rot=int(rot), out=[] if e else flat1(r[0], 1 / a), xc=[] if e else flat1(r[1], 1 / (a * b)), exc=e))
        return
    if not bin_ and len(pat) % 3 == 0 and np.max(np.abs(np.concatenate([pat, sig]))) < 128:          # both in the same short type
        k = 120 // int(max(1, np.max(np.abs(np.concatenate([pat, sig])))))
        pat, sig = pat * k, sig * k
        t = ["i1", "i2"][len(sig) % 2]
        o, x, e = lock(0, lay(ctx.rng, pat.astype(t)), lay(ctx.rng, sig.astype(t)))
        ctx.add({}, dict(op="lock", bin=0, pat=ilist(pat), sig=ilist(sig), rot=int(rot), out=o, xc=x, exc=e))
        return
    o, x, e = lock(bin_, narrow(ctx.rng, lay(ctx.rng, pat), bin_), narrow(ctx.rng, lay(ctx.rng, sig), bin_))
    ctx.add({}, dict(op="lock", bin=int(bin_), pat=ilist(pat), sig=ilist(sig), rot=int(rot), out=o, xc=x, exc=e))


def mseq(n):
    P = {3: [1, 2], 4: [2, 3], 5: [2, 4], 6: [4, 5], 7: [5, 6], 9: [4, 8]}[n]
    s, out = [1] * n, []
    for _ in range(2 ** n - 1):
        b = s[P[0]] ^ s[P[1]]
        out.append(b)
        s = [b] + s[:-1]
    return np.array(out)


def record(ctx):
    rng = ctx.rng
    for n, reps in ((3, 20), (4, 30), (5, 30), (6, 20), (7, ctx.n(40, 254)), (9, ctx.n(6, 40))):
        p = mseq(n)
        P = len(p)
        for k in range(reps):
            rot = (k * (P // min(reps, P)) + int(rng.integers(3))) % P if k > 1 else [0, P - 1][k]
            mult = int(rng.integers(1, 4))
            sig = np.tile(np.roll(p, -rot), mult)[:int(rng.integers(P, mult * P + 1))]
            e = int(rng.integers(0, (P + 1) // 4)) if k % 3 else (P + 1) // 4 - 1
            idx = rng.permutation(P)[:e]
            sig = sig.copy()
            sig[idx] ^= 1
            add(ctx, 1, p, sig, rot)
    # short signals, random patterns: only "a maximum of the correlation"
    for _ in range(ctx.n(80, 500)):
        P = int(rng.integers(1, 40))
        pat = bits(rng, P)
        D = int(rng.integers(1, 2 * P + 2))
        add(ctx, 1, pat, bits(rng, D), -1)
    for _ in range(ctx.n(120, 800)):
        P = int(rng.integers(2, 60))
        lv = [[-3, -1, 1, 3], [-1, 0, 1], [-1, 1], [0, 1], [-7, -2, 5, 20]][rng.integers(5)]
        pat = rng.choice(lv, P)
        rot = int(rng.integers(P))
        base = np.tile(np.roll(pat, -rot), 3)
        single = all(np.dot(pat, np.roll(pat, k)) < np.dot(pat, pat) for k in range(1, P))
        if rng.random() < .6:
            add(ctx, 0, pat, base[:int(rng.integers(P, 3 * P + 1))], rot if single else -1)
        else:
            add(ctx, 0, pat, rng.choice(lv, int(rng.integers(1, 2 * P))), -1)
    # long patterns, mostly zero
    for rep in range(ctx.n(40, 200)):
        bin_ = rep % 2
        P = int(rng.choice([300, 1025, 2000, 4100, 6000, 9001]))
        m = int(rng.integers(1, 7))
        pos = rng.permutation(P)[:m] if rep % 3 else rng.permutation(min(P, 60))[:m] + (P - 60 if rep % 2 else 0)
        pat = np.zeros(P, int)
        pat[pos] = 1 if bin_ else rng.choice([-2, 1, 3], m)
        rot = int(rng.integers(P)) if rep % 4 else [0, 1, P - 1, P // 2][rep // 4 % 4]
        D = int(rng.choice([P, P + 1, 2 * P])) if bin_ or rep % 5 else int(rng.integers(P // 2, P))
        sig = np.tile(np.roll(pat, -rot), 2)[:D]
        nz = np.flatnonzero(pat)
        ac = {}
        for a in nz:
            for b in nz:
                ac[(a - b) % P] = ac.get((a - b) % P, 0) + pat[a] * pat[b]
        single = D >= P and all(v < ac[0] for k, v in ac.items() if k)
        o, x, e = lock(bin_, pat, sig)
        nzs = lambda v: [[int(i), int(v[i])] for i in np.flatnonzero(v)]
        base = (P - 2 * m - 2 * int(np.sum(sig[:P]))) if bin_ else 0
        x, o = np.array(x, int), np.array(o, int)
        dx = np.flatnonzero(x - base)[:400] if len(x) else []
        # a rotation that leads to what was returned (rechecked by the specification)
        got = -1
        if len(o) == P:
            first = int(nz[0])
            got = next(((first - int(q)) % P for q in np.flatnonzero(o) if np.array_equal(np.roll(pat, -(first - int(q))), o)), -1)
        ctx.add({}, dict(op="sparse", bin=bin_, P=P, D=D, pp=nzs(pat), sp=nzs(sig), rot=rot if single else -1, len=len(o), n=len(x), base=base,
                         out=nzs(o)[:50], xc=[[int(i), int(x[i])] for i in dx], got=got, exc=e))
