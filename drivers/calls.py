"""One representative set of calls over the whole public interface: name -> builder(rng) -> (function, args, kwargs).
The functions are looked up when the call is made, the arguments are fresh objects."""
import numpy as np
import CommDspy as c
from CommDspy.constants import PrbsEnum as P, ConstellationEnum as K
from CommDspy.psa import psa
from CommDspy.misc import help_classes as hc, ml_decoding as ml, least_squares as ls, help_functions as hf

G74 = [[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]]


def gc():
    return {0: np.array([[1, 0, 1], [1, 1, 1]])}


def gf():
    return {0: np.array([[1, 0, 1], [1, 0, 0]])}


def fb():
    return {0: np.array([1, 1, 1])}


UF = [[1, 0]]


SCALE = [1]      # length of the long variant's data relative to the short ones


def S(n):
    return n * SCALE[0] if isinstance(n, int) else n


def b(r, n):
    return r.integers(0, 2, S(n))


def sy(r, n, k=4):
    return r.integers(0, k, S(n))


def f(r, n):
    return np.round(r.standard_normal(S(n)) * 64) / 64


def pam(r, n):
    return r.choice([-3., -1., 1., 3.], S(n))


def feed(cls, mk):
    def run(x1, x2, *a):
        o = cls(*a)
        y1 = o(x1)
        y2 = o(x2)
        return y1, y2
    return run


def iterate(poly, seed, n):
    it = iter(c.tx.PrbsIterator(poly, seed))
    return [next(it) for _ in range(n)], it.get_seed(), it.get_prev_seed()


def isi(r, n, kind):
    from drivers.c23 import pattern
    p = pattern(7, 2 if kind == "PAM4" else 1, kind, 0, 0, 0)
    x = np.roll(p * 1.0 + 0.25 * np.roll(p, 1), 9)
    return x + np.round(r.standard_normal(len(x)) * 4) / 64


CALLS = [
    ("prbs_gen", lambda r: (lambda *a: c.tx.prbs_gen(*a), [c.get_polynomial(P.PRBS7), np.ones(7, int), 60], {})),
    ("prbs_gen long", lambda r: (lambda *a: c.tx.prbs_gen(*a), [c.get_polynomial(P.PRBS7), r.integers(0, 2, 7) | np.eye(7, dtype=int)[0], 300], {})),
    ("prbs iterator", lambda r: (iterate, [c.get_polynomial(P.PRBS9), np.ones(9, int), 20], {})),
    ("bin2symbol", lambda r: (lambda *a, **k: c.tx.bin2symbol(*a, **k), [b(r, 24), 4], {})),
    ("bin2symbol flags", lambda r: (lambda *a, **k: c.tx.bin2symbol(*a, **k), [b(r, 24), 8, True, True, True, True], {})),
    ("bin2symbol polarity", lambda r: (lambda *a, **k: c.tx.bin2symbol(*a, **k), [b(r, 24), 2], dict(pn_inv=True))),
    ("symbol2bin", lambda r: (lambda *a, **k: c.rx.symbol2bin(*a, **k), [sy(r, 12), 4], {})),
    ("symbol2bin flags", lambda r: (lambda *a, **k: c.rx.symbol2bin(*a, **k), [sy(r, 12, 8), 8, True, True, True, True], {})),
    ("symbol2bin binary", lambda r: (lambda *a, **k: c.rx.symbol2bin(*a, **k), [b(r, 12), 2], dict(pn_inv=True))),
    ("mapping", lambda r: (lambda *a, **k: c.tx.mapping(*a, **k), [sy(r, (3, 4)), K.PAM4], {})),
    ("mapping inverted", lambda r: (lambda *a, **k: c.tx.mapping(*a, **k), [sy(r, 9), K.PAM4, True], dict(pn_inv=True))),
    ("mapping levels", lambda r: (lambda *a, **k: c.tx.mapping(*a, **k), [sy(r, 9), K.PAM4], dict(levels=np.array([-2., -.5, .5, 2.])))),
    ("demapping", lambda r: (lambda *a, **k: c.rx.demapping(*a, **k), [pam(r, 12), K.PAM4], {})),
    ("demapping inverted", lambda r: (lambda *a, **k: c.rx.demapping(*a, **k), [r.choice([-1., 1.], 12), K.NRZ], dict(pn_inv=True))),
    ("demapping full scale", lambda r: (lambda *a, **k: c.rx.demapping(*a, **k), [pam(r, 12) / np.sqrt(5), K.PAM4, True], {})),
    ("slicer", lambda r: (lambda *a, **k: c.rx.slicer(*a, **k), [f(r, (4, 3)), np.array([-3., -1., 1., 3.])], {})),
    ("slicer default", lambda r: (lambda *a, **k: c.rx.slicer(*a, **k), [f(r, 9)], {})),
    ("quantize", lambda r: (lambda *a, **k: c.rx.quantize(*a, **k), [f(r, 9) * 4, 4, 1, 's'], {})),
    ("coding_gray", lambda r: (lambda *a, **k: c.tx.coding_gray(*a, **k), [sy(r, 9), K.PAM4], {})),
    ("decoding_gray", lambda r: (lambda *a, **k: c.rx.decoding_gray(*a, **k), [sy(r, 9), K.PAM4], {})),
    ("coding_differential", lambda r: (lambda *a, **k: c.tx.coding_differential(*a, **k), [sy(r, 9), K.PAM4], {})),
    ("decoding_differential", lambda r: (lambda *a, **k: c.rx.decoding_differential(*a, **k), [sy(r, 9), K.PAM4], {})),
    ("coding_manchester", lambda r: (lambda *a, **k: c.tx.coding_manchester(*a, **k), [b(r, (2, 6))], {})),
    ("decoding_manchester", lambda r: (lambda *a, **k: c.rx.decoding_manchester(*a, **k), [b(r, 12)], {})),
    ("coding_bipolar", lambda r: (lambda *a, **k: c.tx.coding_bipolar(*a, **k), [b(r, 12)], {})),
    ("decoding_bipolar", lambda r: (lambda *a, **k: c.rx.decoding_bipolar(*a, **k), [sy(r, 12, 3)], {})),
    ("decoding_bipolar errors", lambda r: (lambda *a, **k: c.rx.decoding_bipolar(*a, **k), [sy(r, 12, 3), True], {})),
    ("coding_mlt3", lambda r: (lambda *a, **k: c.tx.coding_mlt3(*a, **k), [b(r, 12)], {})),
    ("decoding_mlt3", lambda r: (lambda *a, **k: c.rx.decoding_mlt3(*a, **k), [c.tx.coding_mlt3(b(r, 12))], {})),
    ("coding_differential_manchester", lambda r: (lambda *a, **k: c.tx.coding_differential_manchester(*a, **k), [b(r, 12)], {})),
    ("decoding_differential_manchester", lambda r: (lambda *a, **k: c.rx.decoding_differential_manchester(*a, **k), [b(r, 12)], {})),
    ("coding_linear", lambda r: (lambda *a, **k: c.tx.coding_linear(*a, **k), [b(r, 10), np.array(G74)], {})),
    ("decoding_linear", lambda r: (lambda *a, **k: c.rx.decoding_linear(*a, **k), [b(r, 23), np.array(G74)], {})),
    ("decoding_linear prob", lambda r: (lambda *a, **k: c.rx.decoding_linear(*a, **k), [b(r, 21), np.array(G74), True], {})),
    ("coding_conv", lambda r: (lambda *a, **k: c.tx.coding_conv(*a, **k), [b(r, 11), gc()], {})),
    ("coding_conv feedback", lambda r: (lambda *a, **k: c.tx.coding_conv(*a, **k), [b(r, 11), gf(), fb(), np.array(UF)], {})),
    ("decoding_conv_ml", lambda r: (lambda *a, **k: c.rx.decoding_conv_ml(*a, **k), [b(r, 16), gc(), 4], {})),
    ("decoding_conv_viterbi", lambda r: (lambda *a, **k: c.rx.decoding_conv_viterbi(*a, **k), [b(r, 16), gc(), 4], {})),
    ("decoding_conv_viterbi feedback", lambda r: (lambda *a, **k: c.rx.decoding_conv_viterbi(*a, **k), [b(r, 16), gf(), 4, fb(), np.array(UF)], {})),
    ("bin2symbol rest", lambda r: (lambda *a, **k: c.tx.bin2symbol(*a, **k), [b(r, 25)[:-1], 8 if SCALE[0] > 1 else 32, True, True, True, True], {})),
    ("decoding_conv_viterbi memoryless", lambda r: (lambda *a, **k: c.rx.decoding_conv_viterbi(*a, **k), [b(r, 16), {0: np.array([[1], [1]])}, 4], {})),
    ("decoding_conv_ml memoryless", lambda r: (lambda *a, **k: c.rx.decoding_conv_ml(*a, **k), [b(r, 16), {0: np.array([[1], [1]])}, 4], {})),
    ("decoding_conv_viterbi mixed", lambda r: (lambda *a, **k: c.rx.decoding_conv_viterbi(*a, **k), [b(r, 18), {0: np.array([[1], [0], [1]]), 1: np.array([[0, 1], [1, 0], [1, 1]])}, 6], {})),
    ("Trellis", lambda r: (lambda g, f_, u: vars(ml.Trellis(g, f_, u))["states"] if "states" in vars(ml.Trellis(g, f_, u)) else None, [gf(), fb(), np.array(UF)], {})),
    ("decoding_conv_ml feedback", lambda r: (lambda *a, **k: c.rx.decoding_conv_ml(*a, **k), [b(r, 16), gf(), 4, fb(), np.array(UF), True], {})),
    ("decoding_conv_viterbi prob", lambda r: (lambda *a, **k: c.rx.decoding_conv_viterbi(*a, **k), [b(r, 16), gc(), 4], dict(error_prob=True))),
    ("lock binary", lambda r: (lambda *a, **k: c.rx.lock_pattern_to_signal_binary(*a, **k), [b(r, 31), b(r, 40)], {})),
    ("lock", lambda r: (lambda *a, **k: c.rx.lock_pattern_to_signal(*a, **k), [pam(r, 31), pam(r, 40)], {})),
    ("prbs_checker", lambda r: (lambda *a, **k: c.rx.prbs_checker(*a, **k), [P.PRBS7, np.roll(c.tx.prbs_gen(c.get_polynomial(P.PRBS7), np.ones(7, int), 127)[0], 5), False], {})),
    ("prbs_checker given", lambda r: (lambda *a, **k: c.rx.prbs_checker(*a, **k), [P.PRBS7, b(r, 127), True, 200, r.integers(0, 2, 127)], {})),
    ("prbs_checker_econ", lambda r: (lambda *a, **k: c.rx.prbs_checker_econ(*a, **k), [P.PRBS7, np.concatenate([c.tx.prbs_gen(c.get_polynomial(P.PRBS7), np.ones(7, int), 60)[0], b(r, 10)])], {})),
    ("get_ctle_filter", lambda r: (lambda *a, **k: c.rx.get_ctle_filter(*a, **k), [[9e8, 5e8, -7e8], [2e9, -1e9, 4e9, 3e8], -3, 1e9, 4], {})),
    ("ctle", lambda r: (lambda *a, **k: c.rx.ctle(*a, **k), [f(r, 20), [9e8, 5e8], [2e9, -1e9], -3, 1e9, 4, np.array([.5, -.25])], {})),
    ("ffe", lambda r: (lambda *a, **k: c.rx.ffe_dfe(*a, **k), [f(r, 20), np.array([1., -.25])], dict(zi_ffe=np.array([.5, .5])))),
    ("ffe_dfe", lambda r: (lambda *a, **k: c.rx.ffe_dfe(*a, **k), [f(r, 20), np.array([1., -.25]), np.array([.5, .25]), np.array([-1., 1.])], dict(zi_ffe=np.array([.5, .5]), zi_dfe=np.array([1., -1.])))),
    ("ffe_dfe oversampled", lambda r: (lambda *a, **k: c.rx.ffe_dfe(*a, **k), [f(r, 24), np.array([1., -.25]), np.array([.5, .25]), np.array([-1., 1.]), 4, 1], {})),
    ("ddlms_grad", lambda r: (lambda *a, **k: c.rx.ddlms_grad(*a, **k), [f(r, 20), f(r, 20), np.array([-1., 1.]), np.array([1, -1, 0]), np.array([2, 1])], {})),
    ("ddlms_grad reference", lambda r: (lambda *a, **k: c.rx.ddlms_grad(*a, **k), [f(r, 20), f(r, 20), np.array([-1., 1.]), np.array([0, 1]), np.array([1, 2]), pam(r, 20)], {})),
    ("soft_ddlms_grad", lambda r: (lambda *a, **k: c.rx.soft_ddlms_grad(*a, **k), [f(r, 20), f(r, 20), np.array([-1., 1.]), .5, np.array([-1, 0, 1]), np.array([1, 2])], {})),
    ("mueller_muller_step", lambda r: (lambda *a, **k: c.rx.mueller_muller_step(*a, **k), [f(r, 20), pam(r, 20)], {})),
    ("pulse_shape", lambda r: (lambda *a, **k: c.channel.pulse_shape(*a, **k), [pam(r, 8), 4, 2, 'rcos', .5], dict(zi=np.round(r.standard_normal(15) * 16) / 16))),
    ("pulse_shape rect", lambda r: (lambda *a, **k: c.channel.pulse_shape(*a, **k), [pam(r, 8), 4], {})),
    ("pulse_shape imp", lambda r: (lambda *a, **k: c.channel.pulse_shape(*a, **k), [pam(r, 8), 4, 2, 'imp'], {})),
    ("rcos_pulse", lambda r: (lambda *a, **k: c.channel.rcos_pulse(*a, **k), [4, 3, .5], {})),
    ("rcos_pulse times", lambda r: (lambda *a, **k: c.channel.rcos_pulse(*a, **k), [4, 3, .5, np.linspace(-2, 2, 17)], {})),
    ("rrc_pulse times", lambda r: (lambda *a, **k: c.channel.rrc_pulse(*a, **k), [4, 3, .5, np.linspace(-2, 2, 17)], {})),
    ("sinc_pulse times", lambda r: (lambda *a, **k: c.channel.sinc_pulse(*a, **k), [4, 3, np.linspace(-2, 2, 17)], {})),
    ("rect_pulse", lambda r: (lambda *a, **k: c.channel.rect_pulse(*a, **k), [4, 3], {})),
    ("awgn_channel", lambda r: (lambda *a, **k: c.channel.awgn_channel(*a, **k), [f(r, 12), [1., .5], [1., -.25]], dict(zi=np.array([.5])))),
    ("get_polynomial", lambda r: (lambda *a, **k: c.get_polynomial(*a, **k), [P.PRBS13], {})),
    ("get_levels", lambda r: (lambda *a, **k: c.get_levels(*a, **k), [K.PAM4, True], {})),
    ("get_levels plain", lambda r: (lambda *a, **k: c.get_levels(*a, **k), [K.PAM4], {})),
    ("get_gray_level_vec", lambda r: (lambda *a, **k: c.get_gray_level_vec(*a, **k), [8], {})),
    ("power", lambda r: (lambda *a, **k: c.power(*a, **k), [f(r, 12)], {})),
    ("rms", lambda r: (lambda *a, **k: c.rms(*a, **k), [f(r, 12)], {})),
    ("buffer", lambda r: (lambda *a, **k: c.buffer(*a, **k), [f(r, 12), 5], dict(overlap=2, delay=1))),
    ("upsample", lambda r: (lambda *a, **k: c.upsample(*a, **k), [f(r, 6), 3], {})),
    ("upsample one", lambda r: (lambda *a, **k: c.upsample(*a, **k), [f(r, 6), 1], {})),
    ("zoh", lambda r: (lambda *a, **k: c.zoh(*a, **k), [f(r, 6), 3], {})),
    ("get_bin_perm", lambda r: (lambda *a, **k: c.get_bin_perm(*a, **k), [3], {})),
    ("hamming", lambda r: (lambda *a, **k: c.hamming(*a, **k), [b(r, (3, 5)), b(r, (4, 5))], {})),
    ("bin2uint", lambda r: (lambda *a, **k: c.bin2uint(*a, **k), [b(r, (3, 5))], {})),
    ("uint2bin", lambda r: (lambda *a, **k: c.uint2bin(*a, **k), [sy(r, 5, 16), 4], {})),
    ("dig_delay_lagrange_coeffs", lambda r: (lambda *a, **k: c.dig_delay_lagrange_coeffs(*a, **k), [4, .25], {})),
    ("dig_delay_sinc_coeffs", lambda r: (lambda *a, **k: c.dig_delay_sinc_coeffs(*a, **k), [4, .25], {})),
    ("digital_oversample", lambda r: (lambda *a, **k: c.digital_oversample(*a, **k), [f(r, 20), 4, 4, 'lagrange'], {})),
    ("digital_oversample sinc", lambda r: (lambda *a, **k: c.digital_oversample(*a, **k), [f(r, 30), 4, 4, 'sinc'], {})),
    ("eye_diagram", lambda r: (lambda *a, **k: c.eye_diagram(*a, **k), [f(r, 160), 8, 8, 3, 16, True], {})),
    ("channel_estimation_prbs", lambda r: (lambda *a, **k: c.channel_estimation_prbs(*a, **k), [P.PRBS7, isi(r, 127, "PAM4"), K.PAM4], dict(channel_postcursor=4, channel_precursor=2, normalize=True))),
    ("equalization_estimation_prbs", lambda r: (lambda *a, **k: c.equalization_estimation_prbs(*a, **k), [P.PRBS7, isi(r, 127, "NRZ"), K.NRZ, 3, 2, 2], dict(gray_coded=False))),
    ("equalization_estimation", lambda r: (lambda *a, **k: c.equalization_estimation(*a, **k), [pam(r, 50), f(r, 50), 2, 1, 2, True], {})),
    ("psa", lambda r: (lambda *a, **k: psa(*a, **k), [f(r, 200), 1000., 20.], dict(mode='dBm'))),
    ("psa full scale", lambda r: (lambda *a, **k: psa(*a, **k), [f(r, 200), 1000.], dict(mode='dBFs', fullscale=2., sb_mode='SSB'))),
    ("ffe gain", lambda r: (lambda *a, **k: c.rx.ffe_dfe(*a, **k), [f(r, 20)], {})),
    ("dfe", lambda r: (lambda *a, **k: c.rx.ffe_dfe(*a, **k), [f(r, 20)], dict(dfe_taps=np.array([.5]), zi_dfe=np.array([1.])))),
    ("pulse_shape rrc", lambda r: (lambda *a, **k: c.channel.pulse_shape(*a, **k), [pam(r, 8), 4, 2, 'rrc', .25], dict(zi=np.round(r.standard_normal(15) * 16) / 16))),
    ("pulse_shape sinc", lambda r: (lambda *a, **k: c.channel.pulse_shape(*a, **k), [pam(r, 8), 4, 2, 'sinc'], dict(zi=np.round(r.standard_normal(15) * 16) / 16))),
    ("coding_conv two inputs", lambda r: (lambda *a, **k: c.tx.coding_conv(*a, **k), [b(r, 11), {0: np.array([[1, 0], [0, 1], [1, 1]]), 1: np.array([[0, 0, 0], [1, 0, 1], [0, 1, 1]])}], {})),
    ("equalization ridge", lambda r: (lambda *a, **k: c.equalization_estimation(*a, **k), [pam(r, 50), f(r, 50), 2, 1, 2, False, 'ridge', .5], {})),
    ("awgn_channel scalar", lambda r: (lambda *a, **k: c.channel.awgn_channel(*a, **k), [f(r, 12), np.array([1., .5, .25]), 1], {})),
    ("Filter memory", lambda r: (feed(lambda *a: hc.Filter(*a), 0), [f(r, 5), f(r, 6), np.array([1., .5]), np.array([1., -.25]), np.array([.5, .5]), np.array([.5])], {})),
    ("FilterTII memory", lambda r: (feed(lambda *a: hc.FilterTII(*a), 0), [f(r, 5), f(r, 6), np.array([1., .5]), np.array([1., -.25]), np.array([.5])], {})),
    ("Filter", lambda r: (feed(lambda *a: hc.Filter(*a), 0), [f(r, 5), f(r, 6), np.array([1., .5]), np.array([1., -.25]), np.array([.5, .5]), np.array([.5])][:4], {})),
    ("FilterTII", lambda r: (feed(lambda *a: hc.FilterTII(*a), 0), [f(r, 5), f(r, 6), np.array([1., .5]), np.array([1., -.25])], {})),
    ("FfeDfeFilterTII", lambda r: (feed(lambda *a: hc.FfeDfeFilterTII(*a), 0), [f(r, 5), f(r, 6), np.array([1., .5]), np.array([.25]), np.array([-1., 1.])], {})),
]
