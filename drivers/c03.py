import numpy as np
import CommDspy as cdsp
from harness.drv import *


RNG = np.random.default_rng(7)


def flags(f):
    return dk(RNG, bit_order_inv=(bool(f["ord"]), False), inv_msb=(bool(f["msb"]), False), inv_lsb=(bool(f["lsb"]), False), pn_inv=(bool(f["pn"]), False))


ALL = [dict(ord=o, msb=m, lsb=l, pn=p) for o in (0, 1) for m in (0, 1) for l in (0, 1) for p in (0, 1)]


def replay(ctx, vecs):
    for v in vecs:
        k, f = v["k"], v["f"]
        if not v["bits"]:
            ctx.check(v, "empty", 0, 0)
            continue
        s, e1 = call(cdsp.tx.bin2symbol, np.array(v["bits"], dtype=int), 2 ** k, **flags(f))
        b, e2 = call(cdsp.rx.symbol2bin, np.array(v["syms"], dtype=int), 2 ** k, **flags(f)) if v["syms"] else (np.zeros(0), "")
        ctx.check(v, "pack, unpack", [v["syms"], v["used"], "", ""], [flat(s), flat(b), e1, e2])


def shapes(n):
    r = [(n,)]
    for a in (2, 3, 4):
        if n % a == 0:
            r += [(a, n // a), (n // a, a)]
            if (n // a) % 2 == 0:
                r.append((a, n // a // 2, 2))
    return r + [(1, n), (n, 1)]


def record(ctx):
    rng = ctx.rng
    for k in range(1, ctx.n(9, 13)):
        for f in ALL:
            for rep in range(ctx.n(3, 12)):
                n = int(rng.choice([k, k + 1, 2 * k, 2 * k - 1, int(rng.integers(k, 60)), int(rng.integers(1, 3) * k + rng.integers(k))]))
                b = bits(rng, n)
                sh = shapes(n)
                x = b.reshape(sh[rng.integers(len(sh))])
                if rep == 1:
                    x = x.astype(np.uint8)
                s, e = call(cdsp.tx.bin2symbol, narrow(rng, lay(rng, x)), 2 ** k, **flags(f))
                ev = [dict(op="pack", bits=ilist(b), k=k, f=f, out=flat(s), shp=shape(s), exc=e)]
                if not e:
                    u, e2 = call(cdsp.rx.symbol2bin, s, 2 ** k, **flags(f))
                    ev.append(dict(op="roundtrip", bits=ilist(b), k=k, out=flat(u), exc=e2))
                m = int(rng.choice([1, 1, 2, 3, 4, 6, 8, 12, 30]))
                y = rng.integers(0, 2 ** k, m)
                if rep == 0:
                    y[0] = rng.choice([0, 2 ** k - 1])
                sh = shapes(m)
                u, e2 = call(cdsp.rx.symbol2bin, narrow(rng, lay(rng, y.reshape(sh[rng.integers(len(sh))]))), 2 ** k, **flags(f))
                ev.append(dict(op="unpack", syms=ilist(y), k=k, f=f, out=flat(u), shp=shape(u), exc=e2))
                if not e2:
                    s, e = call(cdsp.tx.bin2symbol, u, 2 ** k, **flags(f))
                    ev.append(dict(op="pack", bits=flat(u), k=k, f=f, out=flat(s), shp=shape(s), exc=e))
                ctx.add(dict(k=k), ev)
    for k in (9, 10, 11, 12, 14, 15, 16):       # wide symbols
        for rep in range(3):
            f = ALL[rng.integers(16)]
            b = bits(rng, int(rng.integers(k, 4 * k)))
            s, e = call(cdsp.tx.bin2symbol, b, 2 ** k, **flags(f))
            ev = [dict(op="pack", bits=ilist(b), k=k, f=f, out=flat(s), shp=shape(s), exc=e)]
            if not e:
                u, e2 = call(cdsp.rx.symbol2bin, s, 2 ** k, **flags(f))
                ev.append(dict(op="roundtrip", bits=ilist(b), k=k, out=flat(u), exc=e2))
            y = rng.integers(0, 2 ** k, int(rng.integers(1, 6)))
            u, e2 = call(cdsp.rx.symbol2bin, y, 2 ** k, **flags(f))
            ev.append(dict(op="unpack", syms=ilist(y), k=k, f=f, out=flat(u), shp=shape(u), exc=e2))
            ctx.add(dict(k=k), ev)
    # a long stream: packing is positionwise the same everywhere
    for k in (1, 2, 3):
        b = bits(rng, 9000 + k)
        f = ALL[rng.integers(16)]
        s, e = call(cdsp.tx.bin2symbol, b, 2 ** k, **flags(f))
        ctx.add(dict(k=k), dict(op="pack", bits=ilist(b), k=k, f=f, out=flat(s), shp=shape(s), exc=e))
        y = rng.integers(0, 2 ** k, 5000 + k)
        f = ALL[rng.integers(16)]
        u, e = call(cdsp.rx.symbol2bin, y, 2 ** k, **flags(f))
        ctx.add(dict(k=k), dict(op="unpack", syms=ilist(y), k=k, f=f, out=flat(u), shp=shape(u), exc=e))
    # very long streams, as repetitions of a short one
    for k, reps in ((1, 70001), (2, 3001), (3, 1733), (2, 40009), (4, 12007)):
        b = bits(rng, k * int(rng.integers(5, 9)))
        f = ALL[rng.integers(16)]
        s, e = call(cdsp.tx.bin2symbol, np.tile(b, reps), 2 ** k, **flags(f))
        for t in tiles(s, reps, e):
            ctx.add(dict(k=k), dict(op="pack", bits=ilist(b), k=k, f=f, out=flat(t), shp=shape(t), exc=e))
        y = rng.integers(0, 2 ** k, int(rng.integers(5, 9)))
        u, e = call(cdsp.rx.symbol2bin, np.tile(y, reps), 2 ** k, **flags(f))
        for t in tiles(u, reps, e):
            ctx.add(dict(k=k), dict(op="unpack", syms=ilist(y), k=k, f=f, out=flat(t), shp=shape(t), exc=e))
    for m in (3, 5, 6, 7, 9, 10, 12, 15, 17, 24, 31, 33, 48, 63, 65, 100, 129):
        s, e = call(cdsp.tx.bin2symbol, bits(rng, 48), m)
        ctx.add(dict(k=0), dict(op="reject", exc=e))
