import importlib
import numpy as np
from harness.drv import *


def get():
    return importlib.import_module("CommDspy.psa").psa


def nfft_of(c):
    """length the recorder plays: the specification's transform length"""
    w = 19 * -(-c["fs"] // c["rbw"]) // 10
    n = 1
    while n < w * c["osr"]:
        n *= 2
    return n


def sig(c, tones, n, reps, ph):
    t = np.arange(n * reps)
    x = np.zeros(n * reps, complex)
    for k, v in enumerate(tones):
        x = x + v["A"] * np.exp(1j * (2 * np.pi * v["m"] * t / n + ph[k % len(ph)]))
    return x if c["cplx"] else x.real + c.get("dc", 0)


def args(c):
    kw = dict(rbw=c["rbw"])
    if c["mode"] != "dB":
        kw["mode"] = c["mode"]
    if c["osr"] != 4:
        kw["osr"] = c["osr"]
    if c["sb"] != "DSB":
        kw["sb_mode"] = c["sb"]
    if c["r"] != 50:
        kw["r"] = c["r"]
    if c["full"] != 1:
        kw["fullscale"] = c["full"]
    if c["obw"]:
        kw["obw"] = c["obw"]
    return kw


def run(psa, c, x, **more):
    r, e = call(psa, x, c["fs"], **dict(args(c), **more))
    if not e and not (isinstance(r, tuple) and len(r) == 2):
        e = "NotAPair"
    if e:
        return None, None, e
    try:
        p = np.asarray(r[1])
        if np.iscomplexobj(p):
            p = p.real if np.all(np.abs(p.imag) < 1e-9) else p * np.nan
        if c["mode"].startswith("dBuv") and not c["obw"]:
            p = p * 1e-12                       # microvolts squared to volts squared
        return np.asarray(r[0], float), p.astype(float), ""
    except Exception as x:
        return None, None, type(x).__name__


def replay(ctx, vecs):
    psa, e0 = call(get)
    rng = ctx.rng
    for v in vecs:
        c = v["c"]
        x = sig(c, v["tones"], v["nfft"], 2, rng.uniform(0, 6.28, 2))
        f, p, e = run(psa, c, x) if not e0 else (None, None, e0)
        got = [e]
        if not e:
            got += [len(f), len(p)]
            for t, w in zip(v["tones"], v["pow2"]):
                i = int(np.argmin(np.abs(f - t["m"] * c["fs"] / v["nfft"])))
                # power relative to the specified one
                got.append([round(float(f[i] * v["nfft"] / c["fs"]), 6), round(float(p[i] * 2 * v["u"][1] / (v["u"][0] * w)), 2)])
            got.append(round(float(np.argmax(p) == np.argmin(np.abs(f - max(zip(v["pow2"], v["tones"]), key=lambda z: z[0])[1]["m"] * c["fs"] / v["nfft"])) or len(set(v["pow2"])) < len(v["pow2"])), 0))
        ctx.check(v, "bins, tone positions and powers, peak", ["", v["nbins"], v["nbins"]] + [[float(t["m"]), 1.0] for t in v["tones"]] + [1.0], got)


MODES = ["dBm", "dBm/Hz", "dBuv", "dBuv/sqrt(Hz)", "dBc", "dBFs"]


def record(ctx):
    rng = ctx.rng
    psa, e0 = call(get)
    if e0:
        ctx.add(dict(kind="x"), dict(op="import", exc=e0))
        return
    for rep in range(ctx.n(80, 500)):
        c = dict(fs=int(rng.choice([640, 800, 1000, 2000])), rbw=int(rng.choice([16, 20, 25, 35, 50, 125])), osr=int(rng.choice([1, 2, 4, 4, 4, 5])), cplx=int(rng.random() < .35), sb="DSB",
                 mode="dB", r=50, full=1, obw=0, dc=0)
        if not c["cplx"] and rng.random() < .4:
            c["dc"] = int(rng.choice([-3, -1, 1, 2]))
        n = nfft_of(c)
        w = 19 * -(-c["fs"] // c["rbw"]) // 10
        lobe = 4 * n // w + 2
        if n // 2 - 4 * lobe < 2 or n > 1024:
            continue
        tones = []
        for _ in range(int(rng.integers(1, 4))):
            m = int(rng.integers(2 * lobe + 1, n // 2 - 2 * lobe))
            if c["cplx"] and rng.random() < .5:
                m = -m
            if all(abs(m - t["m"]) > 2 * lobe + 1 for t in tones):
                tones.append(dict(m=m, A=int(rng.choice([1, 2, 3, 4]))))
        x = sig(c, tones, n, int(rng.integers(2, 6)), rng.uniform(0, 6.28, 3))
        if not c["cplx"]:
            if rep % 5 == 0:
                x = x.reshape(2, -1) if len(x) % 2 == 0 else x
        if rep % 6 == 2 and not c["cplx"] and 2 * lobe < n // 4 < n // 2 - 2 * lobe:    # samples of a short integer type: a tone at a quarter of the rate
            A = int(rng.choice([4, 12, 17, 20]))
            ty = rng.choice(["int8", "uint8", "int16", "int32", "int64"])
            c["dc"] = A if ty[0] == "u" else int(rng.choice([0, 0, 3, -A]))
            tones = [dict(m=n // 4, A=A)]
            x = np.round(sig(c, tones, n, int(rng.integers(2, 6)), [np.pi / 2 * int(rng.integers(4))])).astype(ty)
        cfg = dict(kind="tones", c=c, tones=tones)
        more = {}
        if rep % 4 == 1:
            more = dict(overlap=float(rng.choice([0, .25, .5, .9])))
        if rep % 7 == 3:
            more["plot"] = True
        f, p, e = run(psa, c, x, **more)
        ev = [dict(op="plain", f=flat(f * n / c["fs"]) if not e else [], p=flat(p, 10000, False) if not e else [], exc=e)]
        for mode in rng.permutation(MODES)[:4]:
            d = dict(c, mode=str(mode), sb=str(rng.choice(["DSB", "SSB"])), full=int(rng.choice([1, 2])), obw=int(rng.choice([0, 0, 10])), r=int(rng.choice([50, 100, 25])))
            _, q, e = run(psa, d, x, **{k: v for k, v in more.items() if k != "plot"})
            ev.append(dict(op="unit", mode=d["mode"], sb=d["sb"], full=d["full"], obw=d["obw"], r=d["r"], p=flat(q, 10000, False) if not e else [], exc=e))
        ctx.add(cfg, ev)
    # other windows: the lines each of them shows around a tone
    WINS = dict(boxcar=0, hann=1, hamming=1, blackman=2, nuttall=3, blackmanharris=3, flattop=4)
    for rep in range(ctx.n(42, 210)):
        win = list(WINS)[rep % 7]
        K = WINS[win]
        R = int(rng.choice([17, 34, 34, 135]))
        w = 19 * R // 10
        osr = 1 if R == 135 else int(rng.choice([1, 2, 4]))
        c = dict(fs=R * 10 - int(rng.choice([0, 0, 3, 8])), rbw=10, osr=osr, cplx=int(rng.random() < .3), sb="DSB", mode="dB", r=50, full=1, obw=0, dc=0)
        n = nfft_of(c)
        tones = []
        for _ in range(int(rng.integers(1, 3))):
            j = int(rng.integers(K + 1, w // 2 - K))
            if c["cplx"] and rng.random() < .5:
                j = -j
            if all(abs(j * osr - t["m"]) > 2 * K * osr for t in tones):
                tones.append(dict(m=j * osr, A=int(rng.choice([1, 2, 3, 4]))))
        x = sig(c, tones, n, int(rng.integers(2, 5)), rng.uniform(0, 6.28, 3))
        more = dict(overlap=float(rng.choice([0, .25, .5, .9]))) if rep % 3 == 0 else {}
        if win != "blackmanharris" or rng.random() < .5:
            more["window"] = win
        f, p, e = run(psa, c, x, **more)
        ctx.add(dict(kind="tones", c=c, tones=tones),
                dict(op="lines", win=win, f=flat(f * n / c["fs"]) if not e else [], p=flat(p, 10000, False) if not e else [], exc=e))
    # a changing amplitude: the windows that are averaged
    for rep in range(ctx.n(16, 80)):
        q = rep % 4
        R = int(rng.choice([17, 34]))
        w = 19 * R // 10
        c = dict(fs=R * 10, rbw=10, osr=1, cplx=int(rng.random() < .3), sb="DSB", mode="dB", r=50, full=1, obw=0, dc=0)
        amp = [int(v) for v in rng.integers(0, 5, int(rng.integers(6, 20)))]
        if not any(amp):
            amp[2] = 3
        m = 4 * int(rng.integers(1, w // 8))
        x = sig(c, [dict(m=m, A=1)], w, 5, rng.uniform(0, 6.28, 1))[:w * len(amp) // 4]
        x = np.repeat(amp, w // 4)[:len(x)] * x if len(x) == w // 4 * len(amp) else None
        if x is None:
            continue
        f, p, e = run(psa, c, x, window="boxcar", **({} if q == 3 and rng.random() < .5 else dict(overlap=q / 4)))
        ctx.add(dict(kind="tones", c=c, tones=[], amp=amp, m=m),
                dict(op="fading", q=q, f=flat(f * w / c["fs"]) if not e else [], p=flat(p, 10000, False) if not e else [], exc=e))
    # default resolution: fs/1000, or two over the length for short signals
    for N in (100, 250, 640, 1000) + (() if ctx.quick else (128, 200, 500, 800)):
        fs = 1000 if N > 500 else 10 * N
        c = dict(fs=fs, rbw=2 * fs // N, osr=1, cplx=0, sb="DSB", mode="dB", r=50, full=1, obw=0, dc=0)
        if 2 * fs % N:
            continue
        n = nfft_of(c)
        t = np.arange(N)
        m = n // 4
        x = 2 * np.cos(2 * np.pi * m * t / n + .3)
        r, e = call(psa, x, fs, osr=1)
        ok = not e and isinstance(r, tuple) and len(r) == 2
        ctx.add(dict(kind="tones", c=c, tones=[dict(m=m, A=2)]),
                dict(op="plain", f=flat(np.asarray(r[0]) * n / fs) if ok else [], p=flat(r[1], 10000, False) if ok else [], exc=e if ok or e else "NotAPair"))
    for mode in ("dBx", "", "db", "dBW"):
        r, e = call(psa, np.ones(500), 100.0, rbw=1.0, mode=mode)
        ctx.add(dict(kind="refuse"), dict(op="refuse", exc=e))
