from drivers.line import *


def replay(ctx, vecs):
    for v in vecs:
        for pick in range(len(CONST[v["m"]]) if v["code"] == "diff" else 1):
            o, e = call(enc_fn(v["code"], v["m"], pick), np.array(v["in"]))
            ctx.check(v, "encoded", [v["out"], ""], [flat(o), e])


def record(ctx):
    for code, m, x, rep in inputs(ctx):
        o, e = call(enc_fn(code, m, rep), lay(ctx.rng, x))
        ctx.add(dict(code=code, m=m), {"op": "enc", "in": ilist(x), "out": flat(o), "shp": shape(o), "ishp": list(x.shape), "exc": e})
        if m == 2 and rep % 4 == 1:
            y = x.astype([bool, float, np.uint8][rep // 4 % 3])
            o, e = call(enc_fn(code, m, rep), y)
            ctx.add(dict(code=code, m=m), {"op": "enc", "in": ilist(x), "out": flat(o), "shp": shape(o), "ishp": list(x.shape), "exc": e})
    # bits given as booleans: two of them could be taken as a mask
    for code, m in KINDS:
        for k in range(4):
            y = np.array([k // 2, k % 2]).astype(bool)
            if m == 2:
                o, e = call(enc_fn(code, m, k), y)
                ctx.add(dict(code=code, m=m), {"op": "enc", "in": ilist(y), "out": flat(o), "shp": shape(o), "ishp": [2], "exc": e})
    # the default constellation of the differential code is PAM4
    x = ctx.rng.integers(0, 4, 50)
    o, e = call(cdsp.tx.coding_differential, x)
    ctx.add(dict(code="diff", m=4), {"op": "enc", "in": ilist(x), "out": flat(o), "shp": shape(o), "ishp": list(x.shape), "exc": e})
    for code, m in KINDS:                     # very long sequences, as repetitions of a short one
        for reps in LONG:
            x = loops(ctx.rng, code, m)
            o, e = call(enc_fn(code, m, reps), np.tile(x, reps))
            for t in tiles(o, reps, e):
                ctx.add(dict(code=code, m=m), {"op": "enc", "in": ilist(x), "out": flat(t), "shp": shape(t), "ishp": [len(x)], "exc": e})
    for m, reps in ((4, 600000), (3, 900000)):       # a running sum beyond the precision of short floating-point types
        x = np.full(12, m - 1)
        o, e = call(enc_fn("diff", m, 0), np.tile(x, reps))
        for t in tiles(o, reps, e):
            ctx.add(dict(code="diff", m=m), {"op": "enc", "in": ilist(x), "out": flat(t), "shp": shape(t), "ishp": [12], "exc": e})
