import numpy as np
import CommDspy as cdsp
from CommDspy.constants import PrbsEnum, ConstellationEnum as K
from harness.drv import *
from drivers.c13 import chunks

G74 = np.array([[1, 1, 0, 1, 0, 0, 0], [0, 1, 1, 0, 1, 0, 0], [1, 1, 1, 0, 0, 1, 0], [1, 0, 1, 0, 0, 0, 1]])
C57 = {0: np.array([[1, 0, 1], [1, 1, 1]])}
POLY = {7: [6, 7], 9: [5, 9], 11: [9, 11], 13: [1, 2, 12, 13], 15: [14, 15]}
SPACE = dict(NRZ=2, OOK=1, PAM3=1, PAM4=2)
LEV = dict(NRZ=[-1, 1], OOK=[0, 1], PAM3=[-1, 0, 1], PAM4=[-3, -1, 1, 3])
FSC = dict(NRZ=1.0, OOK=np.sqrt(2), PAM3=np.sqrt(1.5), PAM4=1 / np.sqrt(5))


def flags(f):
    return dict(bit_order_inv=bool(f["ord"]), inv_msb=bool(f["msb"]), inv_lsb=bool(f["lsb"]), pn_inv=bool(f["pn"]))


class Chain:
    """the documented transmit and receive functions, composed; memory carried from chunk to chunk"""
    def __init__(self, o, ph, rng=None):
        self.o, self.ph, self.rng = o, ph, rng
        self.h = np.array(o["h"], float) / 8
        self.zp = self.zc = self.zd = None
        self.n = self.sym = 0
        self.skip = 0 if ph["pulse"] == "imp" else ph["osr"] * ph["span"]
        lv = np.array(LEV[o["c"]], float) * (-1 if o["pn"] else 1)
        self.fs = FSC[o["c"]] if ph["fs"] else 1.0
        self.lv = np.sort(lv) * self.fs

    def tx(self, bits):
        o, t = self.o, cdsp.tx
        c = K[o["c"]]
        x = dict(none=lambda b: b, diff=lambda b: t.coding_differential(b, K.NRZ), man=t.coding_manchester, dman=t.coding_differential_manchester,
                 bip=t.coding_bipolar, mlt3=t.coding_mlt3, lin=lambda b: t.coding_linear(b, G74), conv=lambda b: t.coding_conv(b, C57))[o["code"]](bits)
        if o["code"] not in ("bip", "mlt3"):
            x = t.bin2symbol(x, 2 ** o["k"], **flags(o["f"]))
        if o["sdiff"]:
            x = t.coding_differential(x, c)
        if o["gray"]:
            x = t.coding_gray(x, c)
        return t.mapping(x, c, full_scale=bool(self.ph["fs"]), pn_inv=bool(o["pn"]))

    def rx(self, dec):
        o, r = self.o, cdsp.rx
        c = K[o["c"]]
        x = r.demapping(dec, c, full_scale=bool(self.ph["fs"]), pn_inv=bool(o["pn"]))
        if o["gray"]:
            x = r.decoding_gray(x, c)
        if o["sdiff"]:
            x = r.decoding_differential(x, c)
        if o["code"] not in ("bip", "mlt3"):
            x = r.symbol2bin(x, 2 ** o["k"], **flags(o["f"]))
        tb = len(x) // 2
        conv = (lambda b: r.decoding_conv_ml(b, C57, tb)) if tb <= 8 and self.ph["ml"] else (lambda b: r.decoding_conv_viterbi(b, C57, tb)[0])
        x = dict(none=lambda b: b, diff=lambda b: r.decoding_differential(b, K.NRZ), man=r.decoding_manchester, dman=r.decoding_differential_manchester,
                 bip=r.decoding_bipolar, mlt3=r.decoding_mlt3, lin=lambda b: r.decoding_linear(b, G74), conv=conv)[o["code"]](x)
        return x

    def move(self, lv):
        """a chunk of symbols over the wire; returns the decisions that come out"""
        ph, osr = self.ph, self.ph["osr"]
        y, self.zp = cdsp.channel.pulse_shape(lv, osr=osr, span=ph["span"], pulse=ph["pulse"], beta=ph["beta"], zi=self.zp)
        b = np.zeros(osr * (len(self.h) - 1) + 1)
        b[::osr] = self.h
        y, self.zc = cdsp.channel.awgn_channel(y, b, [1], zi=self.zc)
        i = np.arange(self.n, self.n + len(y))
        self.n += len(y)
        y = y[(i >= self.skip) & ((i - self.skip) % osr == 0)]
        if not len(y):
            return np.zeros(0)
        lim = 0.499 * self.h[0] * SPACE[self.o["c"]] * self.fs
        if ph["adc"]:                     # a converter whose step is well below the level spacing
            f = ph["adc"]
            q = cdsp.rx.quantize(y, f + 6, f, 's')
            y, lim = q, lim - 2.0 ** -(f + 1)
        if self.o["dist"]:
            k = np.arange(self.sym, self.sym + len(y)) % 3
            w = np.where(k == 0, 0.0, np.where(k == 1, lim, -lim))
            if self.rng is not None:
                w = w * self.rng.choice([0.3, 0.9, 1.0], len(y))
            y = y + w
        self.sym += len(y)
        if len(self.h) > 1:
            y, self.zd = cdsp.rx.ffe_dfe(y, np.array([1 / self.h[0]]), self.h[1:] / self.h[0], self.lv, zi_dfe=self.zd)
        else:
            y = cdsp.rx.ffe_dfe(y, np.array([1 / self.h[0]]))
        return cdsp.rx.slicer(y, self.lv)

    def flush(self):
        if self.skip == 0:
            return np.zeros(0)
        return self.move(np.zeros(self.ph["span"]))


def fill(rng, osr=None):
    pulse = str(rng.choice(["rect", "sinc", "rcos", "imp"]))
    return dict(pulse=pulse, osr=int(osr or rng.integers(1, 9)), span=int(rng.integers(1, 6)), beta=float(rng.choice([0.25, 0.5, 1.0, 0.3])),
                fs=int(rng.random() < .3), ml=int(rng.random() < .5), adc=int(rng.choice([0, 0, 5, 8])))


def source(n, seed, k):
    poly = np.array([1 if i + 1 in POLY[n] else 0 for i in range(n)])
    r, e = call(cdsp.tx.prbs_gen, poly, seed, k)
    if not e and not (isinstance(r, tuple) and len(r) == 2):
        e = "NotAPair"
    return (None, None, e) if e else (r[0], r[1], "")


def replay(ctx, vecs):
    rng = ctx.rng
    for v in vecs:
        ch, e = call(Chain, v["o"], fill(rng))
        seed, q, dec, fr, lens, lv = np.array(v["seed"]), np.zeros(0), [], [], [], []
        for a in v["sch"]:
            if e:
                break
            if a == 0:
                b, seed, e = source(7, seed, len(v["fr"][0]))
                if e:
                    break
                x, e = call(ch.tx, b)
                if not e:
                    fr.append(ilist(b))
                    lv += flat(x, 1 / ch.fs)
                    q = np.concatenate([q, np.asarray(x, float).reshape(-1)])
            else:
                x, e = call(ch.move, q[:a])
                q = q[a:]
                if not e:
                    dec.append(x)
        if not e:
            x, e = call(ch.flush)
            dec.append(x)
        out = []
        if not e:
            d = np.concatenate(dec)
            n = len(lv) // len(v["fr"])
            for i in range(len(v["fr"])):
                x, e2 = call(ch.rx, d[i * n:(i + 1) * n])
                e = e or e2
                out.append(flat(x))
            ctx.check(v, "decisions", v["lv"], flat(d[:len(v["lv"])], 1 / ch.fs))
        ctx.check(v, "levels, bits", ["", v["fr"], v["lv"], v["fr"], v["oseed"]], [e, fr, lv, out, flat(seed)])


CODES = ["none", "diff", "man", "dman", "lin", "conv", "bip", "mlt3"]
HS = [[8], [8, 3], [6, -5, 4], [8, 6, -5, 2], [4, 7, -6, 5, 3], [8, 0, 0, -7], [-8, 3]]


def record(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(160, 1200)):
        code = CODES[rep % len(CODES)]
        tern = code in ("bip", "mlt3")
        k = 1 if tern or rng.random() < .5 else 2
        c = "PAM3" if tern else "PAM4" if k == 2 else str(rng.choice(["NRZ", "OOK"]))
        f = dict(ord=int(rng.integers(2)), msb=int(rng.integers(2)), lsb=int(rng.integers(2)), pn=int(rng.integers(2))) if k == 2 else dict(ord=0, msb=0, lsb=0, pn=int(rng.integers(2)))
        n = int(rng.choice([7, 7, 9, 11, 13, 15]))
        o = dict(n=n, code=code, k=k, f=f, sdiff=int(rng.integers(2)), gray=0 if tern else int(rng.integers(2)), c=c, pn=int(rng.integers(2)),
                 h=HS[rng.integers(len(HS) - 1)], dist=int(rng.integers(2)))
        ph = fill(rng)
        seed = bits(rng, n)
        if not seed.any():
            seed[-1] = 1
        cfg = dict(o=o, seed=ilist(seed))
        ev, q, frames, lens, got, allb = [], np.zeros(0), int(rng.integers(1, 5)), [], np.zeros(0), []
        ch, e = call(Chain, o, ph, rng)
        if e:
            ctx.add(cfg, dict(op="start", exc=e))
            continue
        sent = 0

        def deliver(x):
            nonlocal got
            ev.append(dict(op="rx", dec=flat(x, 1 / ch.fs), exc=""))
            got = np.concatenate([got, np.asarray(x, float).reshape(-1)])
            while lens and len(got) >= lens[0]:
                b, e = call(ch.rx, got[:lens[0]])
                ev.append(dict(op="frame", bits=flat(b), exc=e))
                allb.extend(flat(b))
                got = got[lens[0]:]
                lens.pop(0)
        while sent < frames or len(q):
            if sent < frames and (not len(q) or rng.random() < .35):
                m = 8 * int(rng.integers(1, 6 if code != "conv" else 3) if rep % 40 != 11 or code == "conv" else rng.integers(100, 200))
                b, seed, e = source(n, seed, m)
                x, e = (None, e) if e else call(ch.tx, b)
                ev.append(dict(op="tx", n=m, bits=flat(b), lv=flat(x, 1 / ch.fs), exc=e))
                if e:
                    break
                x = np.asarray(x, float).reshape(-1)
                q = np.concatenate([q, x])
                lens.append(len(x))
                sent += 1
            else:
                m = int(min(len(q), rng.choice([1, 2, 3, 7, 50] if rep % 40 != 11 else [1, 50, 700])))
                x, e = call(ch.move, q[:m])
                q = q[m:]
                if e:
                    ev.append(dict(op="move", exc=e))
                    break
                deliver(x)
        else:
            x, e = call(ch.flush)
            if e:
                ev.append(dict(op="flush", exc=e))
            else:
                left = sum(lens) - len(got)
                deliver(np.asarray(x).reshape(-1)[:left])
                if len(allb) >= 2 * n and all(b in (0, 1) for b in allb):
                    r, e = call(cdsp.rx.prbs_checker_econ, PrbsEnum(n), np.array(allb))
                    ok = not e and isinstance(r, tuple) and len(r) == 3
                    ev.append(dict(op="check", errors=int(np.sum(np.asarray(r[2]) != 0)) if ok else -1, count=toint(r[1]) if ok else -1, exc=e))
                ev.append(dict(op="end", exc=""))
        ctx.add(cfg, ev)
