import importlib
import numpy as np
import matplotlib
matplotlib.use("Agg")
from CommDspy.constants import PrbsEnum, ConstellationEnum as K
from harness.drv import *
from drivers.c27 import LEV
from drivers.c29 import coding, example, mapping

PLAIN = dict(f=dict(ord=0, msb=0, lsb=0, pn=0), bdiff=0, man=0, bip=0, mlt3=0, dman=0, lin=0, conv=0, sdiff=0, gray=0)
STAGES = ["tx_prbs_chunks", "tx_encoded_prbs_chunks", "tx_mapped_prbs_chunks", "ch_out_chunks", "rx_ctle_out_chunks", "rx_adc_out_chunks",
          "rx_slicer_in_chunks", "rx_slicer_out_chunks", "rx_demapped_chunks", "rx_decoded_chunks", "cdr_phase_vec", "lms_mse_vec", "lms_ffe_vecs", "lms_dfe_vecs"]


def modules():
    ex = example()
    ex.sim = importlib.import_module("example_simulation.simulation_parts.simulation")
    return ex


def flags(rx):
    try:
        return [int(bool(getattr(rx, a))) for a in ("converge", "converge_cdr", "converge_lms", "converge_done")]
    except Exception:
        return [-1] * 4


def one(v, s=1, exact=True):
    f = flat(v, s, exact)
    return f[0] if len(f) == 1 else BADINT


def replay(ctx, vecs):
    ex, e0 = call(modules)
    for i, v in enumerate(vecs):
        cd = dict(PLAIN, c="NRZ", k=1)
        pre = v["pre"]

        def build():
            d = ex.d
            f = np.zeros(pre + 1)
            f[pre] = 1
            return ex.link.FullLink(d.FullLinkData(
                d.PrbsData(PrbsEnum.PRBS7, 4, np.ones(7, int)), coding(ex, cd, 4), mapping(ex, cd, 4),
                d.ChannelData("rect", 1, "pulse", osr=2, snr=None), d.CtleData([1e9], [1e9], 0, 5e9, 2), d.AdcData(4, 1, "s", 2, 1, v["p0"]),
                d.FfeDfeData(pre, 0, 1, f if i % 2 else None, None, np.array([-1., 1.]))))
        o, e = call(build) if not e0 else (None, e0)
        got = []
        if not e:
            o.Rx.lms_lr = 0
        for h in v["hist"]:
            if e:
                break
            _, e = call(o.start_convergence) if h["begin"] else call(o.Rx, np.array(h["x"], float))
            if not e:
                r, e = call(lambda: [one(o.Rx.phase), one(o.Rx.adc.phase), flags(o.Rx), one(o.Rx.lms_mse_last, 16) if h["sq"] >= 0 else -1])
                got.append(r)
        ctx.check(v, "phase, control and error after every event", ["", [[h["phase"], h["phase"], h["fl"], h["sq"]] for h in v["hist"]]], [e, got])


def taps(rx):
    return flat(rx.ffe_dfe.ffe_vec, 2 ** 20, False) + flat(rx.ffe_dfe.dfe_vec, 2 ** 20, False)


def link(ex, rng, n, seed):
    k = int(rng.integers(1, 3))
    c = "PAM4" if k == 2 else str(rng.choice(["NRZ", "OOK"]))
    cd = dict(PLAIN, c=c, k=k, gray=int(rng.integers(2)))
    osr, span = int(rng.integers(2, 7)), int(rng.integers(1, 3))
    rxf = float(rng.choice([.75, 1.5])) if k == 2 else float(rng.choice([.75, 1, 1.5]))
    amp = int(2 * 64 * rxf)
    pre, post, nd = int(rng.integers(0, 4)), int(rng.integers(0, 4)), int(rng.choice([0, 1, 1, 2, 3]))
    lv = np.array(LEV[c]) / max(LEV[c]) * rxf
    chan = [1.0] + [float(v) for v in np.round(rng.uniform(-.3, .3, int(rng.integers(0, 3))), 3)]
    fir = np.zeros(osr * (len(chan) - 1) + 1)
    fir[::osr] = chan
    ffe = np.zeros(pre + post + 1)
    ffe[pre] = 1
    ffe += np.round(rng.uniform(-.05, .05, len(ffe)), 3)
    dfe = np.round(rng.uniform(-.1, .1, nd), 3)
    if rng.random() < .3:
        ffe, dfe = None, None
    pulse = str(rng.choice(["rect", "sinc", "rcos"]))
    phase = int(rng.integers(osr))
    d = ex.d
    fd = d.FfeDfeData(pre, post, nd, ffe, dfe, lv)
    data = d.FullLinkData(d.PrbsData(PrbsEnum.PRBS9, n * k, seed), coding(ex, cd, n * k), mapping(ex, cd, amp, rxf),
                          d.ChannelData(pulse, span, "isi_awgn", fir_coefs=fir, osr=osr, snr=None),
                          d.CtleData([1e9, 2e9], [1e9, 2e9], 0, 5e9, osr), d.AdcData(12, 6, "s", osr, 1, phase), fd)
    L = ilist(np.round(lv * 64))
    cfg = dict(osr=osr, pre=pre, fi=list(range(-pre, post + 1)), di=list(range(1, nd + 1)), lv=L, phase=phase,
               pow=int(round(float(np.mean(np.square(lv))) * 65536)), taps=flat(fd.ffe_vec, 2 ** 20, False) + flat(fd.dfe_vec, 2 ** 20, False))
    return data, cfg, fd


def record(ctx):
    rng = ctx.rng
    ex, e0 = call(modules)
    if e0:
        ctx.add(dict(phase=0, taps=[]), dict(op="import", exc=e0))
        return
    for rep in range(ctx.n(110, 700)):
        cfg, ev = dict(phase=0, taps=[]), []
        try:
            session(ctx, ex, rng, rep, cfg, ev)
        except (TypeError, AttributeError, ValueError, IndexError) as x:        # a state that cannot be read
            ev.append(dict(op="chunk", exc=type(x).__name__))
        if ev:
            ctx.add(cfg, ev)
    for rep in range(ctx.n(80, 400)):              # descriptions of the equalizer that fit or not
        pre, post, nd = int(rng.integers(0, 4)), int(rng.integers(0, 4)), int(rng.integers(0, 4))
        nf = pre + post + 1
        ln = [-1 if rng.random() < .5 else w if rng.random() < .8 else max(0, w + int(rng.choice([-1, 1, 2]))) for w in (nf, nd, nf, nd)]
        lv = int(rng.random() < .8)
        vec = [None if k < 0 else rng.integers(-8, 9, k) / 8 for k in ln]
        o, e = call(lambda: ex.d.FfeDfeData(pre, post, nd, vec[0], vec[1], np.array([-1., 1.]) if lv else None, vec[2], vec[3]))
        lens = [] if e else [len(flat(getattr(o, a, None))) for a in ("ffe_vec", "dfe_vec", "zi_ffe", "zi_dfe")]
        evs = [dict(op="size", pre=pre, post=post, nd=nd, fl=ln[0], dl=ln[1], zfl=ln[2], zdl=ln[3], haslv=lv, lens=lens, exc=e)]
        eq, e = call(ex.rx.FfeDfe, o) if not e else (None, e)
        for which in ("ffe", "dfe") if not e else ():
            a, b = (which, "dfe" if which == "ffe" else "ffe")
            new = rng.integers(-8, 9, max(0, {"ffe": nf, "dfe": nd}[which] + int(rng.choice([0, 0, 1, -1])))) / 8
            read = lambda w: flat(getattr(eq, w + "_vec"), 8, False)
            old, other = read(a), read(b)
            _, e = call(getattr(eq, "set_" + which), new.copy())
            evs.append(dict(op="set", old=old, new=flat(new, 8), now=read(a), other0=other, other1=read(b), exc=e))
        ctx.add(dict(phase=0, taps=[]), evs)


def session(ctx, ex, rng, rep, cfg, ev):
    n = int(rng.integers(12, 41))
    seed = bits(rng, 9)
    seed[0] = 1
    r, e = call(link, ex, rng, n, seed)
    if e:
        ev.append(dict(op="build", exc=e))
        return
    data, c, fd = r
    cfg.update(c)
    sim, e = call(ex.sim.Simulation, data)
    if e:
        ev.append(dict(op="build", exc=e))
        return
    rx = sim.Link.Rx
    lr = float(2.0 ** -int(rng.integers(6, 11)))
    if rng.random() < .3:
        lr = float(2.0 ** -10)                   # the receiver's own
    else:
        rx.lms_lr = lr
    if rep % 5 == 4:                         # a whole convergence, bounded by the number of chunks it may take
        rx.lms_lr = 0
        gen, left = sim.Link.Tx.generate, [60]

        def generate():
            left[0] -= 1
            if left[0] < 0:
                raise TimeoutError
            return gen()
        sim.Link.Tx.generate = generate
        early = int(rng.integers(3))             # what was recorded before is not part of the convergence
        for _ in range(early):
            _, e = call(sim.Link)
            if not e:
                _, e = call(sim.gather_memory)
        start = left[0]
        _, e = call(sim.perform_convergence)
        if e == "TimeoutError" and rx.converge_cdr:
            return                           # no phase with a step of zero on this channel
        ev.append(dict(op="run", fl=flags(rx), n=len(sim.Memory.rx_adc_out_chunks), made=start - left[0], phs=flat(sim.Memory.cdr_phase_vec), exc=e))
        return
    begin, again, wipe = int(rng.integers(1, 4)), rng.random() < .5, int(rng.integers(2, 8))
    kept = []
    for t in range(int(rng.integers(4, 12))):
        if t == begin or (again and t > begin and rx.converge_done):
            _, e = call(sim.Link.start_convergence)
            ev.append(dict(op="begin", fl=flags(rx), phase=one(rx.phase), taps=taps(rx), exc=e))
            again = again and t == begin
        if t == wipe:
            _, e = call(sim.Memory.reset)
            ev.append(dict(op="reset", lens=[len(getattr(sim.Memory, s)) for s in STAGES], exc=e))
            kept = []
        f0, d0, g0 = np.array(rx.ffe_dfe.ffe_vec, float), np.array(rx.ffe_dfe.dfe_vec, float), float(rx.dig_gain)
        _, e = call(sim.Link)
        if e:
            ev.append(dict(op="chunk", exc=e))
            break
        try:
            gy = np.asarray(rx.dig_gain * rx.slicer_in, float)
            if not np.all(np.abs(gy) < 12):
                break
            df = (f0 - rx.ffe_dfe.ffe_vec) / lr
            dd = (d0 - rx.ffe_dfe.dfe_vec) / lr
            ev.append(dict(op="chunk", ct=flat(rx.ctle_out, 64, False), adc=flat(rx.adc_out, 64), y=flat(rx.slicer_in, 256, False), gy=flat(gy, 256, False),
                           dec=flat(rx.slicer_out, 64, False), phase=one(rx.phase), fl=flags(rx), mse=one(rx.lms_mse_last, 1e6, False),
                           msen=one(rx.lms_mse_last * n, 65536, False) if rx.lms_mse_last < 100 else 0, dg=one((rx.dig_gain - g0) / (100 * lr), 65536, False),
                           gf=[toint(float(v) * 2 * (n - abs(i)) * 64 * 256, False) for v, i in zip(df, cfg["fi"])] if len(df) == len(cfg["fi"]) else [],
                           gd=[toint(float(v) * 2 * (n - abs(i)) * 256 * 256, False) for v, i in zip(dd, cfg["di"])] if len(dd) == len(cfg["di"]) else [],
                           taps=taps(rx), exc=""))
        except Exception as x:
            ev.append(dict(op="chunk", exc=type(x).__name__))
            break
        if rng.random() < .8:
            _, e = call(sim.gather_memory)
            tx = sim.Link.Tx
            ev.append(dict(op="gather", adc=flat(rx.adc_out, 64), dec=flat(rx.slicer_out, 64, False), bits=flat(tx.prbs_chunk), exc=e))
            kept.append([np.array(a) for a in (tx.encoded_prbs_chunk, tx.mapped_prbs_chunk, sim.Link.Ch.ch_out, rx.ctle_out, rx.slicer_in, rx.demapped_chunk, rx.decoded_chunk)])
            if e:
                break
    if not e:
        M = sim.Memory
        cat = lambda s, u, x=True: [v for a in getattr(M, s) for v in flat(a, u, x)]
        names = ["tx_encoded_prbs_chunks", "tx_mapped_prbs_chunks", "ch_out_chunks", "rx_ctle_out_chunks", "rx_slicer_in_chunks", "rx_demapped_chunks", "rx_decoded_chunks"]
        same = all(len(getattr(M, s)) == len(kept) and all(np.array_equal(a, b[j]) for a, b in zip(getattr(M, s), kept)) for j, s in enumerate(names))
        ev.append(dict(op="record", lens=[len(getattr(M, s)) for s in STAGES], adc=cat("rx_adc_out_chunks", 64), dec=cat("rx_slicer_out_chunks", 64, False),
                       bits=cat("tx_prbs_chunks", 1), phs=flat(M.cdr_phase_vec), mses=flat(M.lms_mse_vec, 1e6, False),
                       taps=[flat(a, 2 ** 20, False) + flat(b, 2 ** 20, False) for a, b in zip(M.lms_ffe_vecs, M.lms_dfe_vecs)], same=int(same), exc=""))
        ev.append(dict(op="config", taps=flat(fd.ffe_vec, 2 ** 20, False) + flat(fd.dfe_vec, 2 ** 20, False), exc=""))

