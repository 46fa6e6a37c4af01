from drivers.line import *
from drivers.c08 import own


def replay(ctx, vecs):
    for v in vecs:
        if v["code"] == "man":
            o, e = call(cdsp.rx.decoding_manchester, np.array(v["rx"]))
        else:
            o, e = call(cdsp.rx.decoding_bipolar, np.array(v["rx"]), True)
        ctx.check(v, "flags", [v["out"], ""], [flat(o, 2), e])


G = np.array([[1, 0, 1], [0, 1, 1]])
GC = {0: np.array([[1, 1, 1], [1, 0, 1]])}
H = np.array([[1, 0], [0, 1], [1, 1]])


def binary_fns():
    t, r = cdsp.tx, cdsp.rx
    return dict(coding_manchester=t.coding_manchester, coding_bipolar=t.coding_bipolar, coding_mlt3=t.coding_mlt3,
                coding_differential_manchester=t.coding_differential_manchester,
                coding_linear=lambda x: t.coding_linear(x, G), coding_conv=lambda x: t.coding_conv(x, GC),
                decoding_manchester=r.decoding_manchester, decoding_differential_manchester=r.decoding_differential_manchester,
                decoding_linear=lambda x: r.decoding_linear(x, G),
                decoding_conv_ml=lambda x: r.decoding_conv_ml(x, GC, 6), decoding_conv_viterbi=lambda x: r.decoding_conv_viterbi(x, GC, 6))


def matrix_fns():
    t, r = cdsp.tx, cdsp.rx
    b = np.array([1, 0, 1, 1, 0, 0])
    return dict(coding_linear_G=lambda g: t.coding_linear(b, g.reshape(2, 3)), decoding_linear_G=lambda g: r.decoding_linear(b, g.reshape(2, 3)),
                coding_conv_G=lambda g: t.coding_conv(b, {0: g.reshape(2, 3)}), decoding_conv_ml_G=lambda g: r.decoding_conv_ml(b, {0: g.reshape(2, 3)}, 6),
                decoding_conv_viterbi_G=lambda g: r.decoding_conv_viterbi(b, {0: g.reshape(2, 3)}, 6),
                # the second input's generators only, the first one's, both
                coding_conv_G2=lambda g: t.coding_conv(b, {0: H.copy(), 1: g.reshape(3, 2)}), decoding_conv_ml_G2=lambda g: r.decoding_conv_ml(b, {0: H.copy(), 1: g.reshape(3, 2)}, 6),
                decoding_conv_viterbi_G2=lambda g: r.decoding_conv_viterbi(b, {0: H.copy(), 1: g.reshape(3, 2)}, 6),
                coding_conv_G1=lambda g: t.coding_conv(b, {1: H.copy(), 0: g.reshape(3, 2)}), decoding_conv_viterbi_G1=lambda g: r.decoding_conv_viterbi(b, {1: H.copy(), 0: g.reshape(3, 2)}, 6))


def record(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(120, 800)):
        shp = [(2,), (12,), (3, 4), (2, 3, 2), (40,), (4, 2), (1, 6), (200,)][rng.integers(8)]
        p = rng.choice([0.1, 0.5, 0.9])
        x = bits(rng, int(np.prod(shp)), p).reshape(shp)
        if rep % 3 == 0:      # near-legal: a few errors in a clean waveform
            x = np.array(own("man", 2, x[..., :shp[-1] // 2].reshape(-1))).reshape(shp[:-1] + (shp[-1] // 2 * 2,)) if shp[-1] > 1 else x
            k = rng.integers(0, x.size, 2)
            x.reshape(-1)[k] = 1 - x.reshape(-1)[k]
        o, e = call(cdsp.rx.decoding_manchester, retype(rng, lay(rng, x)))
        ctx.add({}, dict(op="man", rx=ilist(x), out=flat(o, 2), shp=shape(o), ishp=list(x.shape), exc=e))
        y = rng.integers(0, 3, shp)
        if rep % 3 == 1:
            y = np.where(rng.random(shp) < 0.8, 1, y)
        if rep % 3 == 2:
            y = np.where(rng.random(shp) < 0.9, rng.choice([0, 2]), y)
        o, e = call(cdsp.rx.decoding_bipolar, retype(rng, lay(rng, y)), True)
        ctx.add({}, dict(op="bip", rx=ilist(y), out=flat(o, 2), shp=shape(o), ishp=list(shp), exc=e))
        o, e = call(cdsp.rx.decoding_bipolar, y, *[(), (False,)][rep % 2])          # unless asked for, nothing is flagged
        ctx.add({}, dict(op="plain", rx=ilist(y), out=flat(o, 2), shp=shape(o), ishp=list(shp), exc=e))
    foreign = [4, -2, 10, 1, 3, -1, 200, 6]       # twice the value
    for table, n in ((binary_fns(), 12), (matrix_fns(), 6)):
        for name, f in table.items():
            for rep in range(ctx.n(24, 100)):
                v = 2 * bits(rng, n, [0.5, 0.0, 1.0][rep % 3])
                if rep % 4:
                    k = int(rng.choice([1, 1, 2, n]))
                    for i in rng.choice(n, k, replace=False):
                        v[i] = foreign[rng.integers(len(foreign))] if k != n else foreign[rep % len(foreign)]
                x = v / 2.0
                if np.all(v % 2 == 0):
                    x = x.astype(int)
                o, e = call(f, x)
                ctx.add({}, dict(op="bin", fn=name, vals=ilist(v), exc=e))
    # one foreign value anywhere in a long or multi-dimensional array; not-a-number and infinities (recorded as 7)
    line = [k for k in binary_fns() if k not in ("coding_linear", "coding_conv", "decoding_linear", "decoding_conv_ml", "decoding_conv_viterbi")]
    for name, f in binary_fns().items():
        for rep in range(ctx.n(14, 60)):
            shp = [(600,), (3, 4), (2, 3, 4), (1, 2), (36,), (5000,)][rep % 6] if name in line else (600 if name[:8] != "decoding" else 72,)
            v = 2 * bits(rng, int(np.prod(shp)), [0.5, 0.5, 0.02, 0.98][rep % 4])
            x = (v // 2).astype(float if name in ("coding_linear", "decoding_linear", "coding_conv") and rep % 2 else int)
            if rep % 7:
                i = int(rng.choice([0, len(v) - 1, rng.integers(len(v))]))
                if rep % 3 == 0:
                    x = x.astype(float)
                    x[i], v[i] = [np.nan, np.inf, -np.inf][rep % 9 // 3], 7
                else:
                    w = int(rng.choice([-1, 2, 3, 255, 256, -256, 1 << 20]))
                    x[i], v[i] = w, 2 * w
            o, e = call(f, lay(rng, x.reshape(shp)))
            ctx.add({}, dict(op="bin", fn=name, vals=ilist(v), exc=e))
    # feedback polynomials of the convolutional codes
    b, uf = np.array([1, 0, 1, 1, 0, 0]), np.array([[0, 1]])
    GF = {0: np.array([[1, 0, 0], [1, 0, 1]])}
    for name, f in dict(coding_conv_fb=lambda q: cdsp.tx.coding_conv(b, GF, {0: q}, uf),
                        decoding_conv_ml_fb=lambda q: cdsp.rx.decoding_conv_ml(b, GF, 6, {0: q}, uf),
                        decoding_conv_viterbi_fb=lambda q: cdsp.rx.decoding_conv_viterbi(b, GF, 6, {0: q}, uf)).items():
        for v in ([1, 1, 1], [1, 0, 1], [1, 1, 0], [1, 2, 1], [1, 1, 2], [1, 0, -1], [1, 3, 0], [1, 0, 5]):
            o, e = call(f, np.array(v))
            ctx.add({}, dict(op="bin", fn=name, vals=[2 * k for k in v], exc=e))
    G2, uf2 = {0: np.array([[1, 0], [0, 0], [0, 1]]), 1: np.array([[0, 0, 0], [1, 0, 0], [0, 0, 1]])}, np.array([[0, 0, 1], [0, 0, 1]])
    for name, f in dict(coding_conv_fb2=lambda q: cdsp.tx.coding_conv(b, G2, {0: np.array([1, 1]), 1: q}, uf2),
                        decoding_conv_ml_fb2=lambda q: cdsp.rx.decoding_conv_ml(b, G2, 6, {0: np.array([1, 1]), 1: q}, uf2),
                        decoding_conv_viterbi_fb2=lambda q: cdsp.rx.decoding_conv_viterbi(b, G2, 6, {0: np.array([1, 1]), 1: q}, uf2)).items():
        for v in ([1, 1, 1], [1, 0, 1], [1, 2, 1], [1, 1, 2], [1, 0, -1], [1, 3, 0]):
            o, e = call(f, np.array(v))
            ctx.add({}, dict(op="bin", fn=name, vals=[2 * k for k in v], exc=e))
