"""Calls with every parameter drawn at random (types, flags, sizes, codes, taps), so that anything a call remembers about
another call of the same function shows.  Same form as drivers.calls."""
import numpy as np
import CommDspy as c
from CommDspy.constants import PrbsEnum as P, ConstellationEnum as K
from CommDspy.psa import psa
from CommDspy.misc import help_classes as hc, ml_decoding as ml, least_squares as ls
from CommDspy.channel import pulse_shaping as ps
from drivers.calls import G74, gc, gf, fb, UF, feed, iterate, isi

KS = {2: [K.NRZ, K.OOK], 3: [K.PAM3], 4: [K.PAM4]}


def B(r):
    return bool(r.integers(2))


def n_(r, a=1, b=40):
    return int(r.integers(a, b)) if r.random() < .8 else int(r.integers(100, 400))


def ty(r, x):
    """integers in some type"""
    return x.astype([int, int, np.int32, np.int16, float][r.integers(5)])


def bits(r, n):
    return r.integers(0, 2, n)


def fl(r, n):
    x = np.round(r.standard_normal(n) * 64) / 64
    return x if r.random() < .7 else x.astype(np.float32) if r.random() < .5 else np.round(x * 4).astype(int)


def lv(r):
    return [np.array([-1., 1.]), np.array([-3., -1., 1., 3.]), np.array([0., 1.]), np.array([-1., 0., 1.]), np.array([-.5, .25, 1.5])][r.integers(5)]


def kk(r, ks=(2, 3, 4)):
    k = int(r.choice(ks))
    return k, KS[k][r.integers(len(KS[k]))]


def gen(r):
    """a small linear block code"""
    k, m = int(r.integers(1, 5)), int(r.integers(1, 4))
    return np.concatenate([np.eye(k, dtype=int), r.integers(0, 2, (k, m))], axis=1)


def conv(r):
    """one input, two outputs, two memories, sometimes with feedback"""
    while True:
        g = r.integers(0, 2, (2, 3))
        if g[:, 0].any() and g[:, 2].any():
            break
    kw = {}
    if r.random() < .4:
        u = r.integers(0, 2, 2)
        g[u == 0, 1:] = 0                      # an output outside the feedback is memoryless
        g[u == 0, 0] = 1
        g[u == 1, 2] = 1
        kw = dict(feedback={0: np.array([1, int(r.integers(2)), 1])}, use_feedback=np.array([[int(v) for v in u]]))
    return {0: g}, kw


def poly(r):
    t = list(P)[r.integers(5)]
    return t, c.get_polynomial(t)


def seed(r, n):
    s = bits(r, n)
    s[r.integers(n)] = 1
    return s if r.random() < .7 else s.astype(bool) if r.random() < .3 else s.astype(np.int8)


def noisy(fn):
    """a random call: its result is environment, its arguments are not"""
    def run(*a, **k):
        s = np.random.get_state()
        try:
            return shapes(fn(*a, **k))
        finally:
            np.random.set_state(s)
    return run


def shapes(v):
    return [list(np.shape(x)) for x in v] if isinstance(v, tuple) else list(np.shape(v))


def prbs(r):
    t, p = poly(r)
    return lambda *a: c.tx.prbs_gen(*a), [p, seed(r, len(p)), n_(r, 1, 60)], {}


def prbs_it(r):
    t, p = poly(r)
    return iterate, [p, seed(r, len(p)), n_(r)], {}


def b2s(r):
    k = int(r.integers(1, 5))
    x = bits(r, k * n_(r))
    return lambda *a, **q: c.tx.bin2symbol(*a, **q), [ty(r, x) if B(r) else x, 2 ** k], dict(bit_order_inv=B(r), inv_msb=B(r) and k > 1, inv_lsb=B(r) and k > 1, pn_inv=B(r))


def s2b(r):
    k = int(r.integers(1, 5))
    x = r.integers(0, 2 ** k, n_(r))
    return lambda *a, **q: c.rx.symbol2bin(*a, **q), [x, 2 ** k], dict(bit_order_inv=B(r), inv_msb=B(r) and k > 1, inv_lsb=B(r) and k > 1, pn_inv=B(r))


def mp(r):
    k, q = kk(r)
    kw = dict(full_scale=B(r), pn_inv=B(r))
    if r.random() < .3:
        kw["levels"] = np.sort(r.standard_normal(k))
    return lambda *a, **w: c.tx.mapping(*a, **w), [r.integers(0, k, n_(r) if B(r) else (3, n_(r)))] + [q], kw


def dmp(r):
    k, q = kk(r)
    fs = B(r)
    x = r.choice(c.get_levels(q, fs), n_(r) if B(r) else (2, n_(r)))
    return lambda *a, **w: c.rx.demapping(*a, **w), [x, q], dict(full_scale=fs, pn_inv=B(r))


def slc(r):
    return lambda *a: c.rx.slicer(*a), [fl(r, n_(r) if B(r) else (2, n_(r)))] + ([] if r.random() < .3 else [lv(r)]), {}


def qz(r):
    return lambda *a: c.rx.quantize(*a), [fl(r, n_(r)) * 4, int(r.integers(2, 9)), int(r.integers(0, 5)), str(r.choice(["u", "s", "ss"]))], {}


def gray(r):
    k, q = kk(r, (2, 4))
    f = "coding_gray" if B(r) else "decoding_gray"
    return (lambda *a: (c.tx.coding_gray if f == "coding_gray" else c.rx.decoding_gray)(*a)), [r.integers(0, k, n_(r)), q], {}


def diff(r):
    k, q = kk(r)
    x = B(r)
    return (lambda *a: (c.tx.coding_differential if x else c.rx.decoding_differential)(*a)), [ty(r, r.integers(0, k, n_(r))), q], {}


def line_c(r):
    f = str(r.choice(["coding_manchester", "coding_bipolar", "coding_mlt3", "coding_differential_manchester"]))
    x = bits(r, n_(r))
    return (lambda *a: getattr(c.tx, f)(*a)), [ty(r, x) if f != "coding_differential_manchester" else x], {}


def line_d(r):
    f = str(r.choice(["manchester", "bipolar", "mlt3", "differential_manchester"]))
    x = bits(r, 2 * n_(r)) if "man" in f else r.integers(0, 3, n_(r))
    return (lambda *a, **k: getattr(c.rx, "decoding_" + f)(*a, **k)), [ty(r, x)], dict(error_detection=B(r)) if f == "bipolar" else {}


def lin_c(r):
    return lambda *a: c.tx.coding_linear(*a), [bits(r, n_(r)), gen(r)], {}


def lin_d(r):
    g = gen(r)
    return lambda *a, **k: c.rx.decoding_linear(*a, **k), [bits(r, g.shape[1] * int(r.integers(1, 9))), g], dict(error_prob=B(r))


def cv_c(r):
    g, kw = conv(r)
    if B(r):
        kw["zi"] = [bits(r, 2)]
    return lambda *a, **k: c.tx.coding_conv(*a, **k), [bits(r, n_(r)), g], kw


def cv_ml(r):
    g, kw = conv(r)
    tb = int(r.integers(1, 6))
    return lambda *a, **k: c.rx.decoding_conv_ml(*a, **k), [bits(r, 2 * tb * int(r.integers(1, 5))), g, tb], dict(kw, error_prob=B(r))


def cv_v(r):
    g, kw = conv(r)
    tb = int(r.integers(3, 9))
    return lambda *a, **k: c.rx.decoding_conv_viterbi(*a, **k), [bits(r, 2 * tb * int(r.integers(1, 5))), g, tb], dict(kw, error_prob=B(r))


def lock(r):
    if B(r):
        return lambda *a: c.rx.lock_pattern_to_signal(*a), [fl(r, 31), fl(r, n_(r, 31, 60))], {}
    return lambda *a: c.rx.lock_pattern_to_signal_binary(*a), [bits(r, 31), bits(r, n_(r, 31, 60))], {}


def chk(r):
    t = [P.PRBS7, P.PRBS9][r.integers(2)]
    q = 2 ** t.value - 1
    x = np.tile(c.tx.prbs_gen(c.get_polynomial(t), seed(r, t.value), q)[0], 2)[:int(r.integers(q, 2 * q))]
    x = x ^ (r.random(len(x)) < .02)
    if B(r):
        return lambda *a: c.rx.prbs_checker_econ(*a), [t, x, 200], {}
    kw = dict(loss_th=int(r.integers(50, 300)))
    if B(r):
        kw["prbs_seq"] = bits(r, q)
    return lambda *a, **k: c.rx.prbs_checker(*a, **k), [t, x, B(r)], kw


def ctl(r):
    nz = int(r.integers(1, 5))
    a = [[float(v) for v in r.uniform(.1, 1, nz) * 1e9], [float(v) for v in r.uniform(.1, 2, nz + int(r.integers(0, 2))) * 1e9], float(r.integers(-6, 7)), 1e9, int(r.integers(1, 9))]
    if B(r):
        a[0], a[1] = np.array(a[0]), np.array(a[1])
    if B(r):
        return lambda *q: c.rx.get_ctle_filter(*q), a, {}
    return lambda *q, **k: c.rx.ctle(*q, **k), [fl(r, n_(r))] + a, dict(zi=fl(r, len(a[1])) * 1.0) if B(r) else {}


def fd(r):
    osr = int(r.choice([1, 1, 2, 4]))
    nf, nd = int(r.integers(1, 12)), int(r.integers(0, 12))
    kw = dict(osr=osr, phase=int(r.integers(osr))) if osr > 1 or B(r) else {}
    f = np.round(r.standard_normal(nf), 2)
    if B(r):
        kw["zi_ffe"] = np.round(r.standard_normal(nf - 1), 2)
    d = None
    if nd:
        d = np.round(r.standard_normal(nd) / (2 + nd), 2)
        if B(r):
            kw["zi_dfe"] = r.choice([-1., 1.], nd)
    return lambda *a, **k: c.rx.ffe_dfe(*a, **k), [fl(r, osr * n_(r)), f, d, lv(r)], kw


def lms(r):
    n = n_(r, 12, 40)
    kw = dict(ffe_tap_idx=r.permutation(np.arange(-3, 4))[:int(r.integers(0, 4))], dfe_tap_idx=r.permutation(np.arange(1, 5))[:int(r.integers(0, 4))])
    if B(r):
        kw["reference_vec"] = r.choice([-1., 1.], n)
    a = [fl(r, n), fl(r, n), lv(r)]
    if B(r):
        return lambda *q, **k: c.rx.ddlms_grad(*q, **k), a, kw
    return lambda *q, **k: c.rx.soft_ddlms_grad(*q, **k), a, dict(kw, sigma=float(r.choice([.25, .5, 1, 2])))


def mm(r):
    n = n_(r, 4, 40)
    return lambda *a: c.rx.mueller_muller_step(*a), [fl(r, n), fl(r, n), float(r.integers(1, 4)), float(r.integers(1, 4))], {}


def shp(r):
    osr, span = int(r.integers(1, 9)), int(r.integers(1, 6))
    k = str(r.choice(["rect", "sinc", "rcos", "rrc", "imp"]))
    x = fl(r, n_(r))
    zi = None
    if B(r):
        zi = c.channel.pulse_shape(fl(r, 7) * 1.0, osr, span, k, .5)[1]
    return lambda *a, **w: c.channel.pulse_shape(*a, **w), [x, osr, span, k, float(r.choice([.25, .5, 1.]))], dict(zi=zi)


def pls(r):
    osr, span, k = int(r.integers(1, 9)), int(r.integers(1, 6)), int(r.integers(4))
    t = np.linspace(-2, 2, n_(r)) if B(r) else None
    b = float(r.choice([.25, .5, 1.]))
    f = ["rect_pulse", "sinc_pulse", "rcos_pulse", "rrc_pulse"][k]
    return lambda *a, **w: getattr(c.channel, f)(*a, **w), [osr, span] + ([b] if k > 1 else []), dict(t=t) if t is not None and k else {}


def chan(r):
    nb, na = int(r.integers(1, 12)), int(r.integers(1, 5))
    a = np.concatenate([[1.], np.round(r.standard_normal(na - 1) / 4, 2)])
    kw = dict(zi=np.round(r.standard_normal(max(nb, na) - 1), 2)) if B(r) else {}
    return lambda *q, **w: c.channel.awgn_channel(*q, **w), [fl(r, n_(r)), (lambda v: v if B(r) else list(v))(np.round(r.standard_normal(nb), 2) + .01), a if B(r) else list(a)], kw


def chan_n(r):
    f, a, k = chan(r)
    return noisy(f), a, dict(k, snr=float(r.integers(0, 30)))


def awg(r):
    return noisy(lambda *a: c.channel.awgn(*a)), [fl(r, n_(r, 2) if B(r) else (3, n_(r, 2))), float(r.integers(-5, 40))], {}


def jit(r):
    f, a, k = shp(r)
    a[0] = fl(r, n_(r, 8, 40))
    return noisy(f), a, dict(k, rj_sigma=float(r.choice([.01, .1])))


def tables(r):
    k, q = kk(r)
    t = list(P)[r.integers(len(list(P)))]
    w = int(r.integers(4))
    return [lambda: c.get_polynomial(t), lambda: c.get_levels(q, False), lambda: c.get_levels(q, True), lambda: c.get_gray_level_vec(2 ** k)][w], [], {}


def perm(r):
    return lambda *a: c.get_bin_perm(*a), [int(r.integers(1, 8))], {}


def pw(r):
    return (lambda *a: c.power(*a)) if B(r) else (lambda *a: c.rms(*a)), [fl(r, n_(r) if B(r) else (3, n_(r)))], {}


def buf(r):
    n = int(r.integers(1, 9))
    return lambda *a, **k: c.buffer(*a, **k), [fl(r, n_(r, 9)), n], dict(overlap=int(r.integers(0, n)), delay=int(r.integers(0, 4)), clip=B(r))


def ups(r):
    return (lambda *a: c.upsample(*a)) if B(r) else (lambda *a: c.zoh(*a)), [fl(r, n_(r)), int(r.integers(1, 6))], {}


def ham(r):
    n = int(r.integers(1, 9))
    return lambda *a: c.hamming(*a), [bits(r, (int(r.integers(1, 9)), n)), bits(r, (int(r.integers(1, 9)), n))], {}


def b2u(r):
    if B(r):
        return lambda *a: c.bin2uint(*a), [bits(r, (n_(r), int(r.integers(1, 12))))], {}
    k = int(r.integers(1, 12))
    return lambda *a: c.uint2bin(*a), [r.integers(0, 2 ** k, n_(r)), k], {}


def dd(r):
    return (lambda *a: c.dig_delay_lagrange_coeffs(*a)) if B(r) else (lambda *a: c.dig_delay_sinc_coeffs(*a)), [int(r.integers(1, 7)), float(r.choice([.1, .25, .5])), B(r)], {}


def ovs(r):
    return lambda *a, **k: c.digital_oversample(*a, **k), [fl(r, n_(r, 20)), int(r.integers(2, 6)), int(r.integers(2, 6)), str(r.choice(["lagrange", "sinc"]))], {}


def eye(r):
    o = int(r.choice([4, 8]))
    return lambda *a: c.eye_diagram(*a), [fl(r, o * n_(r, 10)), o, o, float(r.integers(1, 4)), int(r.choice([16, 33])), B(r)], {}


def che(r):
    k = str(r.choice(["NRZ", "PAM4"]))
    return lambda *a, **q: c.channel_estimation_prbs(*a, **q), [P.PRBS7, isi(r, 127, k), K[k]], dict(channel_postcursor=int(r.integers(1, 9)), channel_precursor=int(r.integers(0, 5)), normalize=B(r), gray_coding=B(r) and k == 'PAM4')


def eqp(r):
    k = str(r.choice(["NRZ", "PAM4"]))
    return lambda *a, **q: c.equalization_estimation_prbs(*a, **q), [P.PRBS7, isi(r, 127, k), K[k], int(r.integers(0, 4)), int(r.integers(0, 4)), int(r.integers(0, 3)), B(r)], dict(gray_coded=False)


def eqe(r):
    kw = dict(regularization='ridge', reg_lambda=.5) if B(r) else {}
    return lambda *a, **q: c.equalization_estimation(*a, **q), [fl(r, 60), fl(r, 60), int(r.integers(0, 4)), int(r.integers(0, 4)), int(r.integers(0, 3)), B(r)], kw


def lsq(r):
    m, n = int(r.integers(8, 20)), int(r.integers(1, 5))
    A, b = fl(r, (m, n)), fl(r, m)
    k = int(r.integers(7))
    f = [lambda a, b: ls.least_squares(a, b, "lasso", .25), lambda a, b: ls.ols(a, b), lambda a, b: ls.ols_manual(a, b), lambda a, b: ls.ridge_regression(a, b, .5), lambda a, b: ls.ridge_regression_manual(a, b, .5),
         lambda a, b: ls.lasso_regression(a, b, .5), lambda a, b: ls.least_squares(a, b, "ridge", 2)][k]
    return f, [A, b], {}


def spec(r):
    m = str(r.choice(["dB", "dBm", "dBm/Hz", "dBuv", "dBc", "dBFs"]))
    return lambda *a, **k: psa(*a, **k), [fl(r, int(r.integers(200, 400))), 1000.], dict(mode=m, rbw=float(r.choice([20, 40])), sb_mode=str(r.choice(["DSB", "SSB"])), fullscale=float(r.integers(1, 3)),
                                                                                      obw=None if B(r) else 10., osr=int(r.choice([1, 4])))


def filt(r):
    nb, na = int(r.integers(1, 9)), int(r.integers(1, 5))
    b, a = np.round(r.standard_normal(nb), 2) + .01, np.concatenate([[1.], np.round(r.standard_normal(na - 1) / 4, 2)])
    m = lambda n: [np.round(r.standard_normal(n), 2), [float(v) for v in np.round(r.standard_normal(n), 2)]][int(r.integers(2))]
    if B(r):
        return feed(lambda *q: hc.Filter(*q), 0), [fl(r, n_(r)) * 1.0, fl(r, n_(r)) * 1.0, b, a] + ([m(nb), m(na - 1)] if B(r) else []), {}
    return feed(lambda *q: hc.FilterTII(*q), 0), [fl(r, n_(r)) * 1.0, fl(r, n_(r)) * 1.0, b, a] + ([m(max(nb, na) - 1)] if B(r) else []), {}


def ffd(r):
    return feed(lambda *q: hc.FfeDfeFilterTII(*q), 0), [fl(r, n_(r)) * 1.0, fl(r, n_(r)) * 1.0, np.round(r.standard_normal(int(r.integers(1, 4))), 2), np.round(r.standard_normal(int(r.integers(1, 4))) / 3, 2), lv(r)], {}


def two(r):
    """two filters of one kind used in turns: each keeps its own memory"""
    b1, b2 = np.round(r.standard_normal(3), 2), np.round(r.standard_normal(3), 2)
    a = np.array([1., -.25])

    def run(x1, x2, b1, b2, a):
        o, q = hc.FilterTII(b1, a), hc.FilterTII(b2, a)
        return o(x1), q(x2), o(x2), q(x1)
    return run, [fl(r, n_(r)) * 1.0, fl(r, n_(r)) * 1.0, b1, b2, a], {}


MORE = [(f.__name__ + " any", f) for f in (prbs, prbs_it, b2s, s2b, mp, dmp, slc, qz, gray, diff, line_c, line_d, lin_c, lin_d, cv_c, cv_ml, cv_v, lock, chk, ctl, fd, lms, mm,
                                          shp, pls, chan, chan_n, awg, jit, tables, perm, pw, buf, ups, ham, b2u, dd, ovs, eye, che, eqp, eqe, lsq, spec, filt, ffd, two)]
