import importlib
from types import SimpleNamespace as NS
import numpy as np
import CommDspy as cdsp
from CommDspy.constants import PrbsEnum, ConstellationEnum as K
from harness.drv import *
from drivers.c13 import chunks, config, signal
from drivers.c27 import G74, LEV, POLY

EXG = {0: np.array([[1, 0], [0, 1]])}
EXFB, EXUF = {0: np.array([1, 1])}, np.array([[0, 1]])


def example():
    """the example's modules"""
    m = lambda n: importlib.import_module("example_simulation." + n)
    d = m("simulation_parts.data_objects")
    return NS(d=d, tx=m("simulation_parts.transmitter"), rx=m("simulation_parts.receiver"), ch=m("simulation_parts.channel"),
              link=m("simulation_parts.full_link"), an=m("analyzer.analyzer_classes"))


def coding(ex, cd, n):
    f = cd["f"]
    G = G74 if cd["lin"] else EXG if cd["conv"] else None
    return ex.d.CodingData({0: np.log2(3), 1: 1, 2: 2}[cd["k"]], K[cd["c"]], n, bit_order_inv=bool(f["ord"]), inv_msb=bool(f["msb"]), inv_lsb=bool(f["lsb"]),
                           pn_inv=bool(f["pn"]), coding_gray=bool(cd["gray"]), coding_differential=bool(cd["sdiff"]), coding_bin_differential=bool(cd["bdiff"]),
                           coding_manchester=bool(cd["man"]), coding_bipolar=bool(cd["bip"]), coding_mlt3=bool(cd["mlt3"]), coding_diff_manchester=bool(cd["dman"]),
                           coding_linear=bool(cd["lin"]), coding_conv=bool(cd["conv"]), G=G,
                           feedback=EXFB if cd["conv"] else None, use_feedback=EXUF if cd["conv"] else None)


def mapping(ex, cd, amp, rxf=1):
    return ex.d.MappingData(K[cd["c"]], np.array(LEV[cd["c"]], float), amp, rxf)


def tx(ex, cd, n, np_, seed, amp=2):
    return ex.tx.Transmitter(ex.d.PrbsData(PrbsEnum(np_), n, seed), coding(ex, cd, n), mapping(ex, cd, amp))


def replay(ctx, vecs):
    ex, e0 = call(example)
    for v in vecs:
        cd, e = v["cd"], e0
        if not e:
            t, e = call(tx, ex, cd, v["n"], 7, np.array(v["seed"]))
        if not e:
            d, e = call(lambda: ex.rx.Decoder(coding(ex, cd, v["n"])))
        got = []
        for _ in v["chunks"]:
            if e:
                break
            _, e = call(t.generate)
            if e:
                break
            o, e = call(d, t.encoded_prbs_chunk)
            got.append([flat(t.prbs_chunk), flat(t.encoded_prbs_chunk), flat(o)])
        ctx.check(v, "bits, symbols, decoded", ["", [[c["bits"], c["sym"], c["bits"]] for c in v["chunks"]]], [e, got])


def rand_cd(rng):
    mid = [dict(), dict(), dict(man=1), dict(dman=1), dict(man=1, dman=1), dict(bip=1), dict(mlt3=1)][rng.integers(7)]
    tern = "bip" in mid or "mlt3" in mid
    k = 0 if tern else int(rng.integers(1, 3))
    c = "PAM3" if tern else "PAM4" if k == 2 else str(rng.choice(["NRZ", "OOK"]))
    b = lambda: int(rng.integers(2))
    cd = dict(c=c, k=k, f=dict(ord=b(), msb=b(), lsb=b(), pn=b()) if k == 2 else dict(ord=0, msb=0, lsb=0, pn=b()), bdiff=b(), man=0, bip=0, mlt3=0, dman=0,
              lin=0, conv=0, sdiff=b(), gray=0 if tern else b())
    cd.update(mid)
    if not tern:
        fec = rng.choice(["no", "lin", "conv"] if not mid else ["no", "lin"])
        if fec != "no":
            cd[str(fec)] = 1
    return cd


def parts(rng, x, objs, one, unit, T):
    """an object fed chunk by chunk against the same object fed at once: cfg, events"""
    r, e = call(objs[0], x)
    if e:
        return dict(kind="one", ref=[]), dict(op="part", y=[], n=0, exc=e)
    cfg, ev, p = dict(kind="one", ref=flat(r, T, False)), [], 0
    for k in chunks(rng, len(x) // unit):
        xx = x[p:p + k * unit]
        p += k * unit
        r, e = call(objs[1], xx)
        ev.append(dict(op="part", y=flat(r, T, False) if not e else [], n=len(xx) * one, exc=e))
        if e:
            break
    else:
        ev.append(dict(op="end", exc=""))
    return cfg, ev


def relay(make, mem):
    """an object rebuilt for every chunk from the memory of the one before"""
    st = dict(z={})

    def step(x):
        o = make(st["z"])
        y = o(x)
        st["z"] = {k: getattr(o, a) for k, a in mem.items()}
        return y
    return step


def record(ctx):
    rng = ctx.rng
    ex, e = call(example)
    if e:
        ctx.add(dict(kind="tx", seed=[1]), dict(op="import", exc=e))
        return
    for rep in range(ctx.n(120, 800)):          # transmitter and decoder over several chunks
        cd = rand_cd(rng)
        n = int(rng.choice([8, 16, 24, 64, 120]))
        if cd["conv"]:
            n = min(n, 24)
        elif rep % 24 == 5:
            n = 8 * int(rng.integers(100, 300))
        np_ = int(rng.choice([7, 9, 11, 13, 15]))
        seed = bits(rng, np_)
        seed[int(rng.integers(np_))] = 1
        default = rng.random() < .2
        amp = 12
        cfg = dict(kind="tx", cd=cd, n=n, amp=amp, seed=[1] * np_ if default else ilist(seed))
        t, e = call(tx, ex, cd, n, np_, None if default else seed, amp)
        d, e2 = call(lambda: ex.rx.Decoder(coding(ex, cd, n)))
        ev = []
        for _ in range(int(rng.integers(1, 5))):
            e = e or e2
            if not e:
                r, e = call(t.generate)
            if not e:
                sd, e = call(t.prbs_gen.get_seed)
                psd, e2 = call(t.prbs_gen.get_prev_seed)
                e = e or e2
            if e:
                ev.append(dict(op="tx", bits=[], sym=[], lv=[], sd=[], psd=[], exc=e))
                break
            ev.append(dict(op="tx", bits=flat(t.prbs_chunk), sym=flat(t.encoded_prbs_chunk), lv=flat(r), sd=flat(sd), psd=flat(psd), exc=""))
            o, e = call(d, t.encoded_prbs_chunk)
            ev.append(dict(op="dec", out=flat(o), exc=e))
        ctx.add(cfg, ev)
    T = 2 ** 18
    for rep in range(ctx.n(60, 300)):           # memory of channel and CTLE
        osr, span = int(rng.integers(1, 7)), int(rng.integers(1, 5))
        n = int(rng.integers(2, 20) if rep % 14 else rng.integers(1100, 2200))
        if rep % 3 < 2:
            typ = ["pulse", "isi_awgn"][rep % 3]
            kw = dict(pulse=str(rng.choice(["rect", "sinc", "rcos", "rrc", "imp"])), pulse_span=span, ch_type=typ, osr=osr, snr=None, rolloff=.5)
            if typ == "isi_awgn":
                kw.update(fir_coefs=np.round(rng.uniform(-1, 1, int(rng.integers(1, 6))), 3), iir_coefs=[None, [1], np.array([1, -.5]), np.array([1, .25, -.125])][rng.integers(4)])
            mk, mem = lambda z: ex.ch.Channel(ex.d.ChannelData(**kw, **z)), dict(ch_zi="ch_zi", pulse_zi="pulse_zi")
            x, one, unit = rng.choice([-3., -1., 1., 3.], n), osr, 1
        else:
            fs = 5e9
            ze = [float(v) for v in rng.uniform(.05, 1, int(rng.integers(1, 3))) * fs]
            po = [float(v) for v in rng.uniform(.05, 2, len(ze) + int(rng.integers(0, 2))) * fs]
            dc = float(rng.choice([-6, 0, 3]))
            mk, mem = lambda z: ex.rx.Ctle(ex.d.CtleData(ze, po, dc, fs, osr, **z)), dict(zi="zi")
            x, one, unit = rng.choice([-3., -1., 1., 3.], n), 1, 1
        objs = [call(mk, {}), call(mk, {}) if rng.random() < .6 else (relay(mk, mem), "")]
        if objs[0][1] or objs[1][1]:
            ctx.add(dict(kind="one", ref=[]), dict(op="part", y=[], n=0, exc=objs[0][1] or objs[1][1]))
            continue
        ctx.add(*parts(rng, x, [objs[0][0], objs[1][0]], one, unit, T))
    for rep in range(ctx.n(60, 300)):           # memory of the equalizer
        nf, nd = int(rng.integers(1, 7)), int(rng.choice([0, 1, 2, 3]))
        C = config(rng, nf, nd)
        pre = int(rng.integers(0, nf))
        f, d, lv = np.array(C["f"]) / C["St"], np.array(C["d"]) / C["St"], np.array(C["lv"]) / 16
        if rep % 2:
            o, e = call(lambda: ex.rx.FfeDfe(ex.d.FfeDfeData(pre, nf - 1 - pre, nd, f, d if nd else None, lv)))
        else:
            o, e = call(lambda: ex.rx.FfeDfe(ex.d.FfeDfeData(pre, nf - 1 - pre, nd, levels=lv)))
            for fn, a in (("set_ffe", f), ("set_dfe", d)):
                if not e:
                    _, e = call(getattr(o, fn), a)
        if not e and rep % 3 == 0:
            o = relay(lambda z: ex.rx.FfeDfe(ex.d.FfeDfeData(pre, nf - 1 - pre, nd, f, d if nd else None, lv, **z)), dict(zi_ffe="zi_ffe", zi_dfe="zi_dfe"))
        x = signal(rng, C, int(rng.choice([3, 10, 40])) if rep % 19 else 2300)
        ev, p = [], 0
        for k in chunks(rng, len(x)):
            y, e = (None, e) if e else call(o, np.array(x[p:p + k]) / 16)
            ev.append(dict(op="eq", x=x[p:p + k], y=flat(y, 16 * C["St"]) if not e else [], zf=[], zd=[], hasf=0, hasd=0, exc=e))
            p += k
            if e:
                break
        ctx.add(dict(C, kind="eq"), ev)
    for rep in range(ctx.n(60, 300)):           # converter
        osr = int(rng.integers(1, 9))
        rate = int(rng.choice([r for r in range(1, osr + 1) if osr % r == 0]))
        b, ty, fr, u = int(rng.integers(2, 9)), str(rng.choice(["u", "s", "ss"])), int(rng.integers(0, 5)), 4
        default = rng.random() < .3
        phase = osr // 2 if default else int(rng.integers(osr))
        cfg = dict(kind="adc", seed=[], b=b, ty=ty, u=u, phase=phase, stride=osr // rate)
        o, e = call(lambda: ex.rx.Adc(ex.d.AdcData(b, fr, ty, osr, rate, None if default else phase)))
        ev = []
        for _ in range(3):
            x = rng.integers(-2 ** (b + 4), 2 ** (b + 4), osr * int(rng.integers(1, 6) if rep % 20 else rng.integers(300, 700)))
            y, e = (None, e) if e else call(o, x / 2.0 ** u)
            ev.append(dict(op="adc", in_=0, out=flat(y, 2 ** fr) if not e else [], exc=e))
            ev[-1]["in"] = ilist(x)
            del ev[-1]["in_"]
        ctx.add(cfg, ev)
    for rep in range(ctx.n(30, 200)):           # error counter
        seed = bits(rng, 7)
        seed[0] = 1
        own = rep % 3 == 1                      # another polynomial of the same length
        poly = [1 if i + 1 in ([1, 7] if own else POLY[7]) else 0 for i in range(7)]
        ref, s = [], list(ilist(seed))
        for _ in range(127):
            x = sum(p * q for p, q in zip(poly, s)) % 2
            ref.append(x)
            s = [x] + s[:-1]
        cfg = dict(kind="ber", seed=ilist(seed), ref=ref)

        def checker():
            pd = ex.d.PrbsData(PrbsEnum.PRBS7, 64, seed)
            if own:
                pd.gen_poly = np.array(poly)
            return ex.an.Checker(pd)
        o, e = call(checker)
        fed = []
        ev, pos = [], int(rng.integers(127))
        for _ in range(int(rng.integers(1, 5))):
            n = int(rng.choice([20, 40, 64, 127, 128, 200, 300]))
            b = np.array([ref[(pos + i) % 127] for i in range(n)])
            ne = int(rng.integers(0, 1 + (0 if n < 40 else 3 if n < 127 else 20)))
            b[rng.permutation(n)[:ne]] ^= 1
            pos += n
            r, e = (None, e) if e else call(o.check_ber, b)
            fed.append(ilist(b))
            ev.append(dict(op="ber", bits=ilist(b), acce=flat(o.acc_errors)[0] if not e else -1, accs=flat(o.acc_symbols)[0] if not e else -1,
                           ratio=flat(r, 1000000, False)[0] if not e else -1,
                           kept=int(not e and [flat(q) for q in o.check_sequences] == fed), exc=e))
            if e:
                break
        ctx.add(cfg, ev)
    for rep in range(ctx.n(40, 250)):           # the whole link over a distortion-free channel
        k = int(rng.integers(1, 3))
        c = "PAM4" if k == 2 else str(rng.choice(["NRZ", "OOK"]))
        q = lambda: int(rng.integers(2))
        cd = dict(c=c, k=k, f=dict(ord=q(), msb=q(), lsb=q(), pn=q()) if k == 2 else dict(ord=0, msb=0, lsb=0, pn=q()), bdiff=0, man=0, bip=0, mlt3=0, dman=0,
                  lin=0, conv=0, sdiff=0, gray=q())
        osr, span = int(rng.integers(1, 9)), int(rng.integers(1, 4))
        n = 8 * int(rng.integers(1, 6))
        seed = bits(rng, 7)
        seed[0] = 1
        rxf = float(rng.choice([.75, 1, 1.5, 3]))
        amp = int(2 * 64 * rxf)
        pre = int(rng.integers(0, 3))
        post = int(rng.integers(0, 3))
        lv = np.array(LEV[c]) / max(LEV[c]) * rxf
        pulse = str(rng.choice(["rect", "sinc", "rcos"]))
        taps = [[1.0], [1.0, .3], [.8, -.2, .1]][rng.integers(3)]
        nd = len(taps) - 1 if len(taps) > 1 else int(rng.integers(0, 2))
        cfg = dict(kind="link", cd=cd, n=n, amp=12, seed=ilist(seed), delay=(span + pre) * k)
        fir = np.zeros(osr * (len(taps) - 1) + 1)
        fir[::osr] = taps

        def build():
            d = ex.d
            ffe = np.zeros(pre + post + 1)
            ffe[pre] = 1 / taps[0]
            dfe = np.zeros(nd)
            dfe[:len(taps) - 1] = np.array(taps[1:]) / taps[0]
            return ex.link.FullLink(d.FullLinkData(
                d.PrbsData(PrbsEnum.PRBS7, n, seed), coding(ex, cd, n), mapping(ex, cd, amp, rxf),
                d.ChannelData(pulse, span, "isi_awgn" if len(taps) > 1 else "pulse", fir_coefs=fir if len(taps) > 1 else None, osr=osr, snr=None),
                d.CtleData([1e9, 2e9], [1e9, 2e9], 0, 5e9, osr), d.AdcData(10, 6, "s", osr, 1, 0),
                d.FfeDfeData(pre, post, nd, ffe, dfe if nd else None, lv)))
        o, e = call(build)
        ev = []
        for _ in range(int(rng.integers(1, 6))):
            r, e = (None, e) if e else call(o)
            if e:
                ev.append(dict(op="link", out=[], exc=e))
                break
            # the transmitter's side of the same chunk, levels in units of the other traces
            ev.append(dict(op="tx", bits=flat(o.Tx.prbs_chunk), sym=flat(o.Tx.encoded_prbs_chunk), lv=flat(o.chunk, 12 / amp), sd=flat(o.Tx.prbs_gen.seed),
                           psd=flat(o.Tx.prbs_gen.seed_prev), exc=""))
            ev.append(dict(op="link", out=flat(r), exc=""))
        ctx.add(cfg, ev)
