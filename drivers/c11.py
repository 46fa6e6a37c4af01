from drivers.conv import *


def replay(ctx, vecs):
    for v in vecs:
        o, e = encode(v, np.array(v["msg"]))
        ctx.check(v, "encoded", [v["out"], ""], [flat1(o), e])


def record(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(220, 1500)):
        C = rand_code(rng, 7)
        if rep % 6 == 0:      # feedback longer or shorter than the forward taps
            i = int(rng.integers(len(C["G"])))
            if C["fb"][i]:
                C["fb"][i] = [1] + ilist(bits(rng, int(rng.integers(1, 7)), 0.6))
        n = int(rng.choice([1, 2, 3, int(rng.integers(1, 30)), int(rng.integers(30, 160))]))
        msg = bits(rng, n, rng.choice([0.1, 0.5, 0.9]))
        if rep % 10 == 0:
            msg[:] = 1
        o, e = encode(C, narrow(rng, lay(rng, msg)))
        ctx.add(C, {"op": "enc", "in": ilist(msg), "out": flat1(o), "exc": e})
    # long recursive messages
    for C in (dict(G=[[[1, 0, 0], [1, 0, 1]]], fb=[[1, 1, 1]], uf=[[0, 1]]), dict(G=[[[1, 0, 0, 0], [1, 1, 0, 1]]], fb=[[1, 0, 1, 1]], uf=[[0, 1]]),
              dict(G=[[[1, 1], [1, 0]]], fb=[[1, 1]], uf=[[1, 1]])):
        msg = bits(rng, 5000)
        o, e = encode(C, msg)
        ctx.add(C, {"op": "enc", "in": ilist(msg), "out": flat1(o), "exc": e})
    for rep in range(ctx.n(6, 20)):
        C = rand_code(rng, 12)
        msg = bits(rng, int(rng.integers(300, 700)))
        o, e = encode(C, msg)
        ctx.add(C, {"op": "enc", "in": ilist(msg), "out": flat1(o), "exc": e})
    # binary polynomials with many taps: long registers
    for m in (12, 20, 33):
        C = dict(G=[[ilist(bits(rng, m)), ilist(bits(rng, m))]], fb=[[]], uf=[[0, 0]])
        if m == 20:
            C = dict(G=[[[1] + [0] * (m - 1), ilist(bits(rng, m))]], fb=[[1] + ilist(bits(rng, m - 1))], uf=[[0, 1]])
        msg = bits(rng, 150)
        o, e = encode(C, msg)
        ctx.add(C, {"op": "enc", "in": ilist(msg), "out": flat1(o), "exc": e})
    # configurations of the feedback, consistent or not, before all three users of them
    for rep in range(ctx.n(150, 800)):
        while True:
            C = rand_code(rng, 4)
            if any(C["fb"]):
                break
        n_in, n_out = len(C["G"]), len(C["G"][0])
        fbs, u = [list(f) for f in C["fb"]], [list(r) for r in C["uf"]]
        G = [[list(g) for g in q] for q in C["G"]]
        i, j = int(rng.integers(n_in)), int(rng.integers(n_out))
        kind = rep % 6
        if kind == 1:
            u[i][j] = 1 - u[i][j]
        if kind == 2:
            fbs[i] = []
        if kind == 3:
            u = [] if rep % 4 == 3 else [r[:-1] for r in u] if n_out > 1 and rep % 4 == 1 else u + [[0] * n_out]
        if kind == 4 and len(G[i][j]) > 1:
            G[i][j][int(rng.integers(1, len(G[i][j])))] ^= 1
        if kind == 5:
            u[i] = [0] * n_out
        if not any(fbs):
            continue
        order = list(range(n_in))[::-1 if rep % 2 else 1]
        args = ({k: np.array(G[k]) for k in order}, {k: np.array(fbs[k]) for k in order if fbs[k]}, np.array(u) if u else None)
        x = bits(rng, 2 * n_out)
        for by, f in (("encoder", lambda g, f_, u_: cdsp.tx.coding_conv(x, g, f_, u_)), ("ml", lambda g, f_, u_: cdsp.rx.decoding_conv_ml(x, g, 2 * n_out, f_, u_)),
                      ("viterbi", lambda g, f_, u_: cdsp.rx.decoding_conv_viterbi(x, g, 2 * n_out, f_, u_))):
            o, e = call(f, *args)
            ctx.add(C, dict(op="conf", by=by, G=G, fb=fbs, uf=u, hasfb=1, exc=e))
