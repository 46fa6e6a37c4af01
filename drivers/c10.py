import numpy as np
import CommDspy as cdsp
from harness.drv import *

L = 720720
HAM = np.array([[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]])


def dec(rx, G, perr):
    if not perr:
        o, e = call(cdsp.rx.decoding_linear, rx, G)
        return o, None, e
    r, e = call(cdsp.rx.decoding_linear, rx, G, True)
    if e:
        return None, None, e
    if not (isinstance(r, tuple) and len(r) == 2):
        return None, None, "NotAPair"
    return r[0], r[1], ""


def replay(ctx, vecs):
    by = {}
    for v in vecs:
        by.setdefault(str(v["G"]), []).append(v)
    for vs in by.values():
        G = np.array(vs[0]["G"])
        k, n = G.shape
        rx = np.concatenate([v["rx"] for v in vs])
        c, e0 = call(cdsp.tx.coding_linear, np.concatenate([v["u"] for v in vs]), G)
        o, _, e1 = dec(rx.copy(), G, False)
        o2, pe, e2 = dec(rx.copy(), G, True)
        c, o, o2, pe = flat1(c), flat1(o), flat1(o2), flat1(pe, L, False)
        for i, v in enumerate(vs):
            want = 0 if v["best"] == 0 else round(L / len(v["near"]))
            ctx.check(v, "codeword, nearest, nearest with reliability, reliability", ["", v["code"], True, True, want if v["inj"] else 0],
                      [e0 + e1 + e2, c[i * n:i * n + n], o[i * k:i * k + k] in v["near"], o2[i * k:i * k + k] in v["near"],
                       (pe[i] if i < len(pe) else -1) if v["inj"] else 0])


def record(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(130, 900)):
        k = int(rng.integers(1, 6))
        n = int(rng.integers(max(1, k - 1), 10))
        G = rng.integers(0, 2, (k, n))
        if rep % 4 == 0:
            G = HAM; k, n = 4, 7
        elif rep % 4 == 1:
            G = np.concatenate([np.eye(k, dtype=int), rng.integers(0, 2, (k, max(0, n - k)))], axis=1); n = G.shape[1]
        nb = int(rng.integers(1, 6))
        msg = bits(rng, nb * k - int(rng.integers(0, k)) if nb > 0 else k)
        c, e = call(cdsp.tx.coding_linear, narrow(rng, lay(rng, msg)), G)
        ev = [{"op": "enc", "in": ilist(msg), "out": flat1(c), "exc": e}]
        pm = np.concatenate([msg, np.zeros((-len(msg)) % k, int)]).reshape(-1, k)
        cw = (pm @ G) % 2
        # random words, and words near codewords, with trailing bits
        for near in (0, 1):
            w = cw.copy() if near else rng.integers(0, 2, cw.shape)
            for r in range(len(w)):
                for _ in range(int(rng.integers(0, 3))):
                    w[r, rng.integers(n)] ^= 1
            extra = int(rng.integers(0, n))
            rx = np.concatenate([w.reshape(-1), bits(rng, extra)])
            p = int(rng.integers(2))
            o, pe, e = dec(narrow(rng, lay(rng, rx)), G, p)
            ev.append(dict(op="dec", rx=ilist(rx), out=flat1(o), perr=p, pe=flat1(pe, L, False) if p else [], exc=e))
        if rep % 4 == 0:      # Hamming(7,4): every single error in every block
            w = cw.copy()
            for r in range(len(w)):
                j = int(rng.integers(0, 8))
                if j < 7:
                    w[r, j] ^= 1
            o, pe, e = dec(w.reshape(-1).copy(), G, int(rng.integers(2)))
            ev.append({"op": "fix", "in": ilist(pm), "out": flat1(o), "exc": e})
        ctx.add(dict(G=[[int(v) for v in r] for r in G]), ev)
    # larger codes and long streams of blocks
    for rep in range(ctx.n(14, 70)):
        k, n, nb = [(1, 150, 4), (2, 300, 3), (3, 520, 2), (4, 140, 3), (8, 12, 6), (7, 15, 4), (6, 20, 8), (1, 3, 400), (4, 7, 900), (2, 5, 1200), (9, 18, 2), (3, 6, 90), (1, 2, 700), (5, 31, 5)][rep % 14]
        G = HAM if (k, n) == (4, 7) else np.concatenate([np.eye(k, dtype=int), rng.integers(0, 2, (k, n - k))], axis=1)[:, rng.permutation(n)]
        msg = bits(rng, nb * k - int(rng.integers(0, k)))
        c, e = call(cdsp.tx.coding_linear, msg, G)
        ev = [{"op": "enc", "in": ilist(msg), "out": flat1(c), "exc": e}]
        pm = np.concatenate([msg, np.zeros((-len(msg)) % k, int)]).reshape(-1, k)
        w = (pm @ G) % 2
        for r in range(len(w)):
            w[r, rng.integers(n, size=int(rng.integers(0, 4 if n < 100 else n // 3)))] ^= 1
        rx = np.concatenate([w.reshape(-1), bits(rng, int(rng.integers(0, n)))])
        p = int(rng.integers(2))
        o, pe, e = dec(rx.copy(), G, p)
        ev.append(dict(op="dec", rx=ilist(rx), out=flat1(o), perr=p, pe=flat1(pe, L, False) if p else [], exc=e))
        ctx.add(dict(G=[[int(v) for v in r] for r in G]), ev)
    # very many blocks, as repetitions of a few
    for reps in (1501, 9001):
        k, n = [(4, 7), (3, 6), (2, 5)][rng.integers(3)]
        G = HAM if n == 7 else np.concatenate([np.eye(k, dtype=int), rng.integers(0, 2, (k, n - k))], axis=1)
        msg = bits(rng, k * int(rng.integers(2, 4)))
        ev = []
        c, e = call(cdsp.tx.coding_linear, np.tile(msg, reps), G)
        for t in tiles(c, reps, e):
            ev.append({"op": "enc", "in": ilist(msg), "out": flat1(t), "exc": e})
        rx = bits(rng, n * int(rng.integers(2, 4)))
        for p in (0, 1):
            o, pe, e = dec(np.tile(rx, reps), G, p)
            pt = tiles(pe, reps, e) if p else [None]
            for j, t in enumerate(tiles(o, reps, e)):
                ev.append(dict(op="dec", rx=ilist(rx), out=flat1(t), perr=p, pe=flat1(pt[j % len(pt)], L, False) if p else [], exc=e))
            for q in pt[1:]:
                ev.append(dict(op="dec", rx=ilist(rx), out=flat1(tiles(o, reps, e)[0]), perr=p, pe=flat1(q, L, False), exc=e))
        ctx.add(dict(G=[[int(v) for v in r] for r in G]), ev)
