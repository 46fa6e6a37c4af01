import numpy as np
import CommDspy as cdsp
from CommDspy.misc.help_classes import FfeDfeFilterTII
from harness.drv import *


def run(C, Sx, x, zf, zd):
    """one call; returns event and the memories to carry"""
    St = C["St"]
    f = np.array(C["f"]) / St
    d = np.array(C["d"]) / St if C["d"] else None
    if not any(v % St for v in C["f"] + C["d"]) and len(x) % 3:
        f, d = f.astype(["i8", "i1"][len(x) % 2]), d if d is None else d.astype(["i8", "i2"][len(x) % 2])
    kw = dict(ffe_taps=f)
    if C["f"] == [St] and len(x) % 2:
        kw = {} if len(x) % 4 == 1 else dict(ffe_taps=None)       # a single unit tap is also the default, and what None means
    if d is not None:
        kw.update(dfe_taps=d, levels=np.array(C["lv"]) / Sx)
    if C["osr"] != 1 or C["phase"]:
        kw.update(osr=C["osr"], **({} if C["phase"] == 0 and len(x) % 2 else dict(phase=C["phase"])))
    if zf is not None and len(f) > 1:
        kw["zi_ffe"] = zf
    if zd is not None and d is not None:
        kw["zi_dfe"] = zd
    s = np.array(x) / Sx
    if C.get("whole") and not np.any(np.array(x) % Sx):         # whole samples as integers of some type
        s = (np.array(x) // Sx).astype(C["whole"])
    r, e = call(cdsp.rx.ffe_dfe, s, **kw)
    ev = dict(op="eq", x=ilist(x), y=[], zf=[], zd=[], hasf=0, hasd=0, exc=e)
    if e:
        return ev, None, None
    if len(f) == 1 and d is None:
        ev["y"] = flat1(r, Sx * St)
        return ev, None, None
    want = 1 + (len(f) > 1) + (d is not None)
    if not isinstance(r, tuple) or len(r) != want:
        ev["exc"] = "WrongNumberOfResults"
        return ev, None, None
    ev["y"] = flat1(r[0], Sx * St)
    zf2 = r[1] if len(f) > 1 else None
    zd2 = r[-1] if d is not None else None
    if zf2 is not None:
        ev.update(hasf=1, zf=flat(zf2, Sx))
    if zd2 is not None:
        ev.update(hasd=1, zd=flat(zd2, Sx))
    return ev, zf2, zd2


def replay(ctx, vecs):
    for v in vecs:
        C = v["c"]
        edges = [0] + v["cuts"] + ([len(v["x"])] if not v["cuts"] or v["cuts"][-1] != len(v["x"]) else [])
        y, zf, zd, e = [], None, None, ""
        for a, b in zip(edges, edges[1:]):
            ev, zf, zd = run(C, 4, v["x"][a:b], zf, zd)
            y += ev["y"]
            e += ev["exc"]
            if ev["exc"]:
                break
        dec = flat(zd, 4) if zd is not None else v["dec"]
        ctx.check(v, "outputs, decisions", ["", v["y"], v["dec"]], [e, y, dec])


LV = [[-1, 1], [0, 1], [-1, 0, 1], [-3, -1, 1, 3], [-7, -5, -3, -1, 1, 3, 5, 7], [-4, -1, 2, 3]]


def config(rng, nf, nd, osr=1, phase=0, Sx=16, St=16, mem=False):
    unit = 4 * Sx if rng.random() < .8 else Sx // 2          # also levels between whole numbers
    lv = [unit * v for v in LV[rng.integers(len(LV))]]
    f = [int(2 * v) for v in rng.integers(-6, 7, nf)]
    f[0] += 1
    if rng.random() < 0.6:
        f[0] = 2 * St + 1
    d = [int(2 * v) for v in rng.integers(-5, 6, nd)]
    C = dict(f=f, d=d, lv=lv, osr=osr, phase=phase, St=St, xs0=[0] * (nf - 1), dec0=[0] * nd)
    if rng.random() < .12:                  # whole taps, sometimes given as integers
        C["f"] = [16 * (2 * int(rng.integers(-1, 2)) + 1)] + [32 * int(v) for v in rng.integers(-1, 2, nf - 1)]
        C["d"] = [16 * int(v) for v in rng.integers(-2, 3, nd)]
    elif rng.random() < .2:
        C["whole"] = str(rng.choice(["i8", "i1", "u1", "i2", "?"]))
    if mem:
        C["xs0"] = [int(2 * v + 1) for v in rng.integers(-60, 60, nf - 1)]
        C["dec0"] = [int(v) for v in rng.choice(lv, nd)]
        if rng.random() < .3:               # whole memories, given as integers
            C["xs0"] = [Sx * int(v) for v in rng.integers(-9, 10, nf - 1)]
            C["dec0"] = C["dec0"] if unit != Sx // 2 else [0] * nd
    return C


def memory(v, Sx):
    v = np.array(v)
    return v / Sx if np.any(v % Sx) else (v // Sx).astype(["i8", "i2", "f8"][int(np.sum(np.abs(v))) // Sx % 3])


def tied(C, x):
    """does a whole-number signal come to lie halfway between two levels (where either decision is right)?"""
    xs, dec, ys, h = list(C["xs0"]), list(C["dec0"]), [], C["osr"] // 2
    mids = {(a + b) * C["St"] for a, b in zip(sorted(C["lv"]), sorted(C["lv"])[1:])}
    for n, v in enumerate(x):
        xs.append(v)
        ys.append(sum(f * xs[len(xs) - 1 - i] for i, f in enumerate(C["f"]) if i < len(xs)) - sum(a * b for a, b in zip(C["d"], dec)))
        if n >= h and (n - h) % C["osr"] == C["phase"]:
            y = ys[n - h]
            if 2 * y in mids:
                return True
            dec = ([min(C["lv"], key=lambda l: abs(y - l * C["St"]))] + dec)[:len(C["d"])]
    return False


def signal(rng, C, n):
    for _ in range(20 if C.get("whole") else 0):
        x = [16 * int(v) for v in rng.integers(0 if C["whole"][0] in "u?" else -9, 2 if C["whole"] == "?" else 10, n)]
        if not C["d"] or not tied(C, x):
            return x
    C.pop("whole", None)
    return [int(2 * v + 1) for v in rng.integers(-90, 90, n)]


def chunks(rng, n):
    out = []
    if n > 1000:                       # one very long chunk among the short ones
        k = n - int(rng.integers(20, 200))
        rest = chunks(rng, n - k)
        i = int(rng.integers(len(rest) + 1))
        return rest[:i] + [k] + rest[i:]
    while n > 0:
        k = int(min(n, rng.choice([1, 1, 2, 3, 5, int(rng.integers(1, 25))])))
        out.append(k)
        n -= k
    return out


def tii(C, Sx, parts):
    """the same machine as a stateful object"""
    St = C["St"]
    o, e = call(FfeDfeFilterTII, np.array(C["f"]) / St, np.concatenate([[1.0], np.array(C["d"]) / St]), np.array(C["lv"]) / Sx)
    evs = []
    for x in parts:
        if e:
            evs.append(dict(op="eq", x=x, y=[], zf=[], zd=[], hasf=0, hasd=0, exc=e))
            break
        s = np.array(x) / Sx
        if C.get("whole"):
            s = (np.array(x) // Sx).astype(C["whole"])
        y, e = call(o, s)
        evs.append(dict(op="eq", x=x, y=flat1(y, Sx * St), zf=[], zd=[], hasf=0, hasd=0, exc=e))
    return evs


def record(ctx):
    rng = ctx.rng
    Sx = 16
    for rep in range(ctx.n(150, 900)):
        nf, nd = int(rng.integers(1, 8)), int(rng.choice([0, 1, 1, 2, 3, 5]))
        mem = rng.random() < 0.4
        C = config(rng, nf, nd, mem=mem and nf > 1)
        if nf == 1 and rng.random() < 0.7:
            C["f"] = [C["St"]]
        x = signal(rng, C, int(rng.choice([1, 4, 12, 40])))
        zf = memory(C["xs0"], Sx) if mem and nf > 1 else None
        zd = memory(C["dec0"], Sx) if mem and nf > 1 and nd else None
        if zf is not None and rng.random() < 0.5:
            zf = np.concatenate([[float(rng.integers(-5, 5))], zf])      # the format the function itself returns
        ev, p = [], 0
        single = nf == 1 and nd == 0
        for k in (chunks(rng, len(x)) if rep % 2 and not single else [len(x)]):
            e, zf, zd = run(C, Sx, x[p:p + k], zf, zd)
            p += k
            ev.append(e)
            if e["exc"]:
                break
        ctx.add(C, ev)
        if nd and not mem:
            ctx.add(C, tii(C, Sx, [x[:3], x[3:4], x[4:]] if len(x) > 4 else [x]))
    for rep in range(ctx.n(80, 500)):        # several samples per symbol
        osr = int(rng.integers(2, 9))
        C = config(rng, int(rng.integers(1, 6)), int(rng.choice([1, 2, 3])), osr=osr, phase=int(rng.integers(osr)))
        x = signal(rng, C, int(rng.integers(1, 6 * osr)))
        e, _, _ = run(C, Sx, x, None, None)
        ctx.add(C, e)
    for rep in range(ctx.n(30, 200)):        # the same, started from given memories
        osr = int(rng.integers(2, 7))
        C = config(rng, int(rng.integers(2, 7)), int(rng.choice([1, 2, 4])), osr=osr, phase=int(rng.integers(osr)), mem=True)
        x = signal(rng, C, int(rng.integers(1, 6 * osr)))
        e, _, _ = run(C, Sx, x, memory(C["xs0"], Sx), memory(C["dec0"], Sx))
        ctx.add(C, e)
    for rep in range(ctx.n(12, 60)):         # many taps, long blocks
        nf, nd = [(25, 0), (1, 12), (18, 10), (40, 3), (2, 1), (70, 0)][rep % 6]
        C = config(rng, nf, nd)
        x = signal(rng, C, int(rng.integers(200, 400)))
        ev, zf, zd, p = [], None, None, 0
        for k in ([len(x)] if rep < 6 else chunks(rng, 60) + [90, len(x) - 150]):
            e, zf, zd = run(C, Sx, x[p:p + k], zf, zd)
            p += k
            ev.append(e)
            if e["exc"]:
                break
        ctx.add(C, ev)
    for rep in range(ctx.n(24, 120)):        # samples with many digits
        osr = int(rng.choice([1, 1, 1, 2, 4]))
        C = config(rng, int(rng.integers(1, 6)), int(rng.choice([0, 1, 2, 3])), osr=osr, phase=int(rng.integers(osr)))
        C.pop("whole", None)
        x = signal(rng, C, int(rng.integers(4, 40)))
        K = 4096
        C["lv"] = [K * v for v in C["lv"]]
        x = [K * v + int(rng.integers(-5, 6)) for v in x]
        ev, zf, zd, p = [], None, None, 0
        for k in (chunks(rng, len(x)) if osr == 1 and len(C["f"] + C["d"]) > 1 else [len(x)]):
            e, zf, zd = run(C, Sx * K, x[p:p + k], zf, zd)
            p += k
            ev.append(e)
            if e["exc"]:
                break
        ctx.add(C, ev)
        if C["d"] and osr == 1:
            ctx.add(C, tii(C, Sx * K, [x[:3], x[3:]]))
    for rep in range(ctx.n(4, 12)):          # very long blocks, and very many of them
        osr = 1 if rep % 4 != 2 else 3
        C = config(rng, 3, 2, osr=osr, phase=int(rng.integers(osr)))
        x = signal(rng, C, int(rng.integers(2100, 5000)) if rep % 4 < 3 else 900)
        ev, zf, zd, p = [], None, None, 0
        for k in ([len(x)] if rep % 4 in (0, 2) else [1200, 1, len(x) - 1201] if rep % 4 == 1 else chunks(rng, len(x))):
            e, zf, zd = run(C, Sx, x[p:p + k], zf, zd)
            p += k
            ev.append(e)
            if e["exc"]:
                break
        ctx.add(C, ev)
    # the default levels are PAM4
    C = config(rng, 3, 2)
    C["lv"] = [-48, -16, 16, 48]
    x = signal(rng, C, 30)
    r, e = call(cdsp.rx.ffe_dfe, np.array(x) / Sx, ffe_taps=np.array(C["f"]) / C["St"], dfe_taps=np.array(C["d"]) / C["St"])
    ok = not e and isinstance(r, tuple) and len(r) == 3
    ctx.add(C, dict(op="eq", x=x, y=flat1(r[0], Sx * C["St"]) if ok else [], zf=[], zd=[], hasf=0, hasd=0, exc=e if ok or e else "WrongNumberOfResults"))
    for nf, nd, lf, ld in [(3, 2, 1, 2), (3, 2, 4, 2), (3, 2, 5, 2), (3, 2, 2, 1), (3, 2, 3, 3), (4, 0, 2, 0), (4, 0, 5, 0), (4, 0, 6, 0), (5, 3, 4, 4), (2, 1, 0, 1),
                           (2, 1, 1, 2), (2, 1, 1, 0), (6, 4, 7, 4), (6, 4, 3, 4)]:
        kw = dict(ffe_taps=np.ones(nf))
        if nd:
            kw.update(dfe_taps=np.ones(nd), zi_dfe=np.ones(ld))
        r, e = call(cdsp.rx.ffe_dfe, np.ones(9), zi_ffe=np.ones(lf), **kw)
        ctx.add(C, dict(op="refuse", exc=e))
