from drivers.conv import *


def replay(ctx, vecs):
    by = {}
    for v in vecs:
        by.setdefault(str((v["G"], v["fb"], len(v["rx"]))), []).append(v)
    for vs in by.values():       # blocks one after another in one call
        tb = len(vs[0]["rx"])
        m = len(vs[0]["near"][0])
        rx = np.concatenate([v["rx"] for v in vs])
        a, e1 = decode(vs[0], "ml", rx.copy(), tb)
        b, e2 = decode(vs[0], "viterbi", rx.copy(), tb)
        a, b = flat1(a), flat1(b)
        for i, v in enumerate(vs):
            ctx.check(v, "nearest path: ml, viterbi", ["", True, True], [e1 + e2, a[i * m:i * m + m] in v["near"], b[i * m:i * m + m] in v["near"]])


def record(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(110, 800)):
        C = rand_code(rng, 4)
        n_in, n_out = len(C["G"]), len(C["G"][0])
        nc = int(rng.integers(1, max(2, 9 // n_in)))
        tb = nc * n_out
        nb = int(rng.integers(1, 4))
        msg = bits(rng, nc * nb * n_in)
        c, e = encode(C, msg)
        ev = []
        rx = np.array(flat1(c)) if not e and len(flat1(c)) == tb * nb and set(flat1(c)) <= {0, 1} else bits(rng, tb * nb)
        if rep % 3 == 1:
            for _ in range(int(rng.integers(1, 4))):
                rx[rng.integers(len(rx))] ^= 1
        if rep % 3 == 2:
            rx = bits(rng, tb * nb)
        rx = np.concatenate([rx, bits(rng, int(rng.integers(0, tb)))])
        p = bool(rng.integers(2))
        for by in ("ml", "viterbi"):
            if by == "ml" and nc * n_in > 8:
                continue
            o, e = decode(C, by, retype(rng, rx.copy()), tb, p)
            ev.append(dict(op="dec", by=by, rx=ilist(rx), tb=tb, out=flat1(o), exc=e))
        if rep % 3 == 0 and nc * n_in <= 8:
            c1 = ilist(rx)[:tb]
            for by in ("ml", "viterbi"):
                o, e = decode(C, by, np.array(c1), tb)
                ev.append({"op": "clean", "by": by, "rx": c1, "in": ilist(msg[:nc * n_in]), "out": flat1(o), "exc": e})
        ctx.add(C, ev)
    # long blocks, Viterbi only: survivors must keep their history
    for rep in range(ctx.n(16, 80)):
        C = [dict(G=[[[1, 1, 1], [1, 0, 1]]], fb=[[]], uf=[[0, 0]]), dict(G=[[[1, 0, 0], [1, 0, 1]]], fb=[[1, 1, 1]], uf=[[0, 1]]),
             dict(G=[[[1, 1, 0, 1], [1, 1, 1, 1]]], fb=[[]], uf=[[0, 0]]),
             dict(G=[[[1, 0], [0, 0], [1, 1]], [[0, 0, 0], [1, 0, 0], [0, 0, 1]]], fb=[[], []], uf=[[0] * 3, [0] * 3])][rep % 4]
        n_in, n_out = len(C["G"]), len(C["G"][0])
        nc = int(rng.integers(10, 26))
        msg = bits(rng, nc * n_in)
        c, e = encode(C, msg)
        rx = np.array(flat1(c)) if not e and len(flat1(c)) == nc * n_out and set(flat1(c)) <= {0, 1} else bits(rng, nc * n_out)
        for _ in range(int(rng.integers(0, 6))):
            rx[rng.integers(len(rx))] ^= 1
        o, e = decode(C, "viterbi", retype(rng, rx.copy()), nc * n_out)
        ctx.add(C, dict(op="dec", by="viterbi", rx=ilist(rx), tb=nc * n_out, out=flat1(o), exc=e))
    # so long and disturbed that distances exceed a byte
    for rep in range(ctx.n(3, 9)):
        C = [dict(G=[[[1, 0], [1, 0], [1, 0], [1, 0], [1, 1]]], fb=[[]], uf=[[0] * 5]), dict(G=[[[1, 1, 1], [1, 0, 1]]], fb=[[]], uf=[[0, 0]]),
             dict(G=[[[1, 0, 0], [1, 0, 1], [1, 1, 1]]], fb=[[1, 1, 1]], uf=[[0, 1, 1]])][rep % 3]
        n_out = len(C["G"][0])
        nc = [300, 1100, 500][rep % 3]
        msg = bits(rng, nc)
        c, e = encode(C, msg)
        rx = np.array(flat1(c)) if not e and len(flat1(c)) == nc * n_out and set(flat1(c)) <= {0, 1} else bits(rng, nc * n_out)
        if rep % 3 == 1:
            rx = bits(rng, nc * n_out)
        else:
            rx[::n_out] ^= 1
        o, e = decode(C, "viterbi", retype(rng, rx.copy()), nc * n_out)
        ctx.add(C, dict(op="dec", by="viterbi", rx=ilist(rx), tb=nc * n_out, out=flat1(o), exc=e))
    # what is reported beside the data
    for rep in range(ctx.n(60, 400)):
        C = rand_code(rng, 3)
        n_in, n_out = len(C["G"]), len(C["G"][0])
        nc = int(rng.integers(1, max(2, 6 // n_in)))
        tb, nb = nc * n_out, int(rng.integers(1, 4))
        rx = bits(rng, tb * nb)
        if rep % 2:
            c, e = encode(C, bits(rng, nc * nb * n_in))
            rx = np.array(flat1(c)) if not e and len(flat1(c)) == tb * nb and set(flat1(c)) <= {0, 1} else rx
            if rep % 4 == 1:
                rx[rng.integers(len(rx))] ^= 1
        ev = [report(C, "ml", retype(rng, rx.copy()), tb)]
        if all(len(g[0]) > 1 for g in C["G"]):       # every input has a register
            ev.append(report(C, "viterbi", retype(rng, rx.copy()), tb))
        ctx.add(C, ev)
    # the usual codes with 16 and 64 states, many blocks of a small one
    for rep in range(ctx.n(5, 20)):
        g1, g2, nc, nb = [([1, 1, 1, 1, 0, 0, 1], [1, 0, 1, 1, 0, 1, 1], 12, 1), ([1, 0, 0, 1, 1], [1, 1, 1, 0, 1], 25, 2), ([1, 1, 1], [1, 0, 1], 4, 40),
                          ([1, 1], [1, 0], 3, 90), ([1, 0, 1, 1, 1, 1], [1, 1, 0, 1, 0, 1], 14, 1)][rep % 5]
        C = dict(G=[[g1, g2]], fb=[[]], uf=[[0, 0]])
        if rep % 5 == 4:
            C = dict(G=[[[1] + [0] * 5, g2]], fb=[g1], uf=[[0, 1]])
        msg = bits(rng, nc * nb)
        c, e = encode(C, msg)
        rx = np.array(flat1(c)) if not e and len(flat1(c)) == 2 * nc * nb and set(flat1(c)) <= {0, 1} else bits(rng, 2 * nc * nb)
        for _ in range(int(rng.integers(0, 3 * nb))):
            rx[rng.integers(len(rx))] ^= 1
        o, e = decode(C, "viterbi", narrow(rng, rx), 2 * nc)
        ctx.add(C, dict(op="dec", by="viterbi", rx=ilist(rx), tb=2 * nc, out=flat1(o), exc=e))
        if rep % 5 in (2, 3):
            o, e = decode(C, "ml", narrow(rng, rx), 2 * nc)
            ctx.add(C, dict(op="dec", by="ml", rx=ilist(rx), tb=2 * nc, out=flat1(o), exc=e))
    # two transmissions spliced in mid-block: no path explains both, and the decoder may not jump from one to the other
    for rep in range(ctx.n(12, 40)):
        g1, g2, nc = [([1, 0, 0, 1, 1], [1, 1, 1, 0, 1], 18), ([1, 1, 1, 1, 0, 0, 1], [1, 0, 1, 1, 0, 1, 1], 16), ([1, 1, 0, 1], [1, 1, 1, 1], 20), ([1, 0, 1, 1, 1, 1], [1, 1, 0, 1, 0, 1], 16)][rep % 4]
        C = dict(G=[[g1, g2]], fb=[[]], uf=[[0, 0]])
        if rep % 8 > 3:
            C = dict(G=[[[1] + [0] * (len(g1) - 1), g2]], fb=[g1], uf=[[0, 1]])
        cut = 2 * int(rng.integers(nc // 2 - 2, nc // 2 + 3))
        parts = []
        for _ in range(2):
            c, e = encode(C, bits(rng, nc))
            parts.append(np.array(flat1(c)) if not e and len(flat1(c)) == 2 * nc and set(flat1(c)) <= {0, 1} else bits(rng, 2 * nc))
        rx = np.concatenate([parts[0][:cut], parts[1][cut:]])
        o, e = decode(C, "viterbi", retype(rng, rx.copy()), 2 * nc)
        ctx.add(C, dict(op="dec", by="viterbi", rx=ilist(rx), tb=2 * nc, out=flat1(o), exc=e))
