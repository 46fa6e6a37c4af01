from drivers.line import *


def own(code, m, x):
    """driver's own waveform, only used as an input; the specification judges what is decoded from it"""
    s, out = (1 if code == "dman" else 0), []
    for b in x:
        b = int(b)
        if code == "diff":
            s = (s + b) % m; out.append(s)
        elif code == "man":
            out += [1, 0] if b else [0, 1]
        elif code == "bip":
            out.append(2 * s if b else 1); s = 1 - s if b else s
        elif code == "mlt3":
            s = (s + b) % 4; out.append([0, 1, 2, 1][s])
        else:
            a = 1 - s; s = a if b else 1 - a; out += [a, s]
    return np.array(out)


def replay(ctx, vecs):
    for v in vecs:
        for pick in range(len(CONST[v["m"]]) if v["code"] == "diff" else 1):
            for f in dec_fns(v["code"], v["m"], pick):
                o, e = call(f, np.array(v["out"]))
                ctx.check(v, "decoded", [v["in"], ""], [flat(o), e])


def record(ctx):
    for code, m, x, rep in inputs(ctx):
        cfg = dict(code=code, m=m)
        ev = []
        c, e = call(enc_fn(code, m, rep), x)
        w = 2 if code in ("man", "dman") else 1
        mine = own(code, m, x.reshape(-1)).reshape(x.shape[:-1] + (w * x.shape[-1],))
        for f in dec_fns(code, m, rep):
            if not e:
                o, e2 = call(f, retype(ctx.rng, lay(ctx.rng, c)))
                ev.append({"op": "dec", "in": ilist(x), "out": flat(o), "shp": shape(o), "ishp": list(x.shape), "exc": e2})
            o, e2 = call(f, retype(ctx.rng, lay(ctx.rng, mine)))
            ev.append(dict(op="decw", chips=ilist(mine), cshp=list(mine.shape), out=flat(o), shp=shape(o), exc=e2))
        ctx.add(cfg, ev)
    x = ctx.rng.integers(0, 4, 50)
    o, e = call(cdsp.rx.decoding_differential, own("diff", 4, x))
    ctx.add(dict(code="diff", m=4), {"op": "dec", "in": ilist(x), "out": flat(o), "shp": shape(o), "ishp": list(x.shape), "exc": e})
    for code, m in KINDS:                     # very long sequences, as repetitions of a short one
        for reps in LONG:
            x = loops(ctx.rng, code, m)
            for f in dec_fns(code, m, reps):
                o, e = call(f, np.tile(own(code, m, x), reps))
                for t in tiles(o, reps, e):
                    ctx.add(dict(code=code, m=m), {"op": "dec", "in": ilist(x), "out": flat(t), "shp": shape(t), "ishp": [len(x)], "exc": e})
