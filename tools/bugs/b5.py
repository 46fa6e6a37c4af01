HEAD = "import numpy as np, sys\nimport CommDspy as cdsp\n"
EX = HEAD + "sys.path.insert(0, '.')\nfrom example_simulation.simulation_parts import data_objects as d, transmitter as tx, receiver as rx, channel as ch\nfrom example_simulation.analyzer import analyzer_classes as an\n"
BUGS = [
dict(id="C02-b", property="C02", file="CommDspy/tx/prbs_generator.py",
  edits=[("    prbs_length = 2**poly_size - 1\n", "    prbs_length = 2**min(poly_size, 16) - 1\n")],
  demo=HEAD+"""
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS31)
b, _ = cdsp.tx.prbs_gen(p, np.ones(31, int), 66000)
sys.exit(0 if all(b[i] == b[i - 28] ^ b[i - 31] for i in range(31, 66000)) else 1)
""", needs="PRBS31 and more than 65535 bits", breaks="PRBS31 repeats much too early"),
dict(id="C03-c", property="C03", file="CommDspy/rx/symbol2bin.py",
  edits=[("symbol_vec      = np.reshape(symbol_mat, -1)", "symbol_vec      = np.reshape(symbol_mat, -1).astype(np.uint8)")],
  demo=HEAD+"""
s = np.array([0, 300, 511])
b = cdsp.rx.symbol2bin(s, 512)
sys.exit(0 if np.array_equal(cdsp.tx.bin2symbol(b, 512), s) else 1)
""", needs="an alphabet of more than 256 symbols", breaks="the bits above the eighth are lost"),
dict(id="C04-c", property="C04", file="CommDspy/tx/mapping.py",
  edits=[("        default_lvls = levels\n", "        default_lvls = levels if levels[0] <= levels[-1] else levels[::-1]\n")],
  demo=HEAD+"""
lv = np.array([4, 2, -1, -5])
sys.exit(0 if np.array_equal(cdsp.tx.mapping(np.array([0, 1, 2, 3]), cdsp.ConstellationEnum.PAM4, levels=lv), lv) else 1)
""", needs="the caller's own levels in decreasing order", breaks="symbol k is not sent to the k-th level"),
dict(id="C04-d", property="C04", file="CommDspy/rx/demapping.py",
  edits=[("    return np.reshape(symbol_idx_vec, signal.shape)", "    return np.reshape(symbol_idx_vec, np.squeeze(signal).shape)")],
  demo=HEAD+"""
K = cdsp.ConstellationEnum.PAM4
s = np.array([[0, 1, 1, 3]])
sys.exit(0 if cdsp.rx.demapping(cdsp.tx.mapping(s, K), K).shape == (1, 4) else 1)
""", needs="an array with an axis of length one", breaks="the shape of the demapped array differs from the signal's"),
dict(id="C05-b", property="C05", file="CommDspy/rx/slicer.py",
  edits=[("    constellation_points = np.argmin(diff_mat, axis=1)\n", "    if len(levels) > 32:  # fine grids\n        step = (levels[-1] - levels[0]) / (len(levels) - 1)\n        constellation_points = np.clip(np.floor((slicer_in_vec[:, 0] - levels[0]) / step + 0.5), 0, len(levels) - 1).astype(int)\n    else:\n        constellation_points = np.argmin(diff_mat, axis=1)\n")],
  demo=HEAD+"""
lv = np.concatenate([np.arange(40), [100, 200]]).astype(float)
x = np.array([3.2, 39.4, 90., 170., -5, 500])
sys.exit(0 if np.array_equal(cdsp.rx.slicer(x, lv), [3, 39, 100, 200, 0, 200]) else 1)
""", needs="many unequally spaced levels", breaks="the decision assumes equal spacing"),
dict(id="C06-b", property="C06", file="CommDspy/rx/quantiztion.py",
  edits=[("    levels = np.arange(0, 2 **total_bits)\n", "    levels = np.arange(0, 2 **total_bits).astype(np.int16)\n")],
  demo=HEAD+"""
o = cdsp.rx.quantize(np.array([40000.2, 70000, 3]), 16)
sys.exit(0 if np.array_equal(o, [40000, 65535, 3]) else 1)
""", needs="a 16 bit unsigned quantizer", breaks="the upper half of the grid wraps around"),
dict(id="C07-b", property="C07", file="CommDspy/tx/coding.py",
  edits=[("return np.reshape(lfilter([1], [1, -1], np.reshape(pattern, -1).astype(float)) % lvl_num, shape).astype(int)", "return np.reshape(np.cumsum(np.reshape(pattern, -1), dtype=np.uint8) % lvl_num, shape).astype(int)")],
  demo=HEAD+"""
x = np.full(200, 2)
sys.exit(0 if np.array_equal(cdsp.tx.coding_differential(x, cdsp.ConstellationEnum.PAM3), np.cumsum(x) % 3) else 1)
""", needs="PAM3 and a running sum beyond 255 (the other constellations divide 256)", breaks="the running sum wraps around"),
dict(id="C08-b", property="C08", file="CommDspy/rx/decoding.py",
  edits=[("    new_pattern_shape[-1] = int(new_pattern_shape[-1] / 2)", "    new_pattern_shape[0]  = int(new_pattern_shape[0] / 2)")],
  demo=HEAD+"""
x = np.array([[1, 0, 1], [0, 0, 1]])
try:
    sys.exit(0 if np.array_equal(cdsp.rx.decoding_differential_manchester(cdsp.tx.coding_differential_manchester(x)), x) else 1)
except ValueError:
    sys.exit(1)
""", needs="a pattern of two or more rows", breaks="the first axis is halved instead of the last"),
dict(id="C09-c", property="C09", file="CommDspy/rx/decoding.py",
  edits=[("            if mark == 0:\n", "            if mark == 0 and decoded_pattern[mark_location[ii-1]] == 1:\n")],
  demo=HEAD+"""
o = cdsp.rx.decoding_bipolar(np.array([0, 2, 1, 2, 2, 0]), error_detection=True)
sys.exit(0 if np.array_equal(o, [1, .5, 0, .5, .5, 1]) else 1)
""", needs="three marks in a row of the same polarity", breaks="the third one is not flagged"),
dict(id="C10-b", property="C10", file="CommDspy/misc/ml_decoding.py",
  edits=[("1 / np.sum(hamming[:, not_codeword] == min_hamming[not_codeword], axis=0)", "1 / np.sum(hamming[:, not_codeword] <= np.minimum(min_hamming[not_codeword], 2), axis=0).clip(1)")],
  demo=HEAD+"""
G = np.array([[1, 1, 1, 1, 1, 1, 1]])
G = np.array([[1, 1, 1, 1, 1, 1]])
o, p = cdsp.rx.decoding_linear(np.array([1, 1, 1, 0, 0, 0]), G, True)
sys.exit(0 if p[0] == .5 else 1)
""", needs="a received block at distance three or more from several codewords", breaks="the reliability counts one nearest codeword instead of all"),
dict(id="C11-c", property="C11", file="CommDspy/tx/coding.py",
  edits=[("pattern_padded  = np.concatenate([pattern, [0]*pad_len])", "pattern_padded  = np.resize(pattern, len(pattern) + pad_len)")],
  demo=HEAD+"""
G = {0: np.array([[1, 0], [0, 0], [1, 1]]), 1: np.array([[0, 0, 0], [1, 0, 0], [0, 0, 1]])}
a = cdsp.tx.coding_conv(np.array([1, 0, 1]), G)
b = cdsp.tx.coding_conv(np.array([1, 0, 1, 0]), G)
sys.exit(0 if np.array_equal(a, b) else 1)
""", needs="several inputs and a message that is not a whole number of steps, starting with a one", breaks="the message is continued with its own first bits instead of zeros"),
dict(id="C12-b", property="C12", file="CommDspy/rx/decoding.py",
  edits=[("    hamming_dist  = np.zeros([len(trellis_obj.states), n_chunks], dtype=int)\n", "    hamming_dist  = np.zeros([len(trellis_obj.states), n_chunks], dtype=np.int8)\n")],
  demo=HEAD+"""
G = {0: np.array([[1, 0], [1, 0], [1, 0], [1, 0], [1, 1]])}
rng = np.random.default_rng(1)
x = rng.integers(0, 2, 200)
c = cdsp.tx.coding_conv(x, G)
r = c.copy(); r[0::5] ^= 1
o, _ = cdsp.rx.decoding_conv_viterbi(r, G, 1000)
sys.exit(0 if np.array_equal(o[:-1], x[:-1]) else 1)
""", needs="a block so long and so disturbed that its distance exceeds 127", breaks="the path distances wrap around"),
dict(id="C13-d", property="C13", file="CommDspy/rx/ffe_dfe_model.py",
  edits=[("            if idx >= 0:\n                dfe_memory", "            if idx >= 0 or zi_dfe is not None:\n                dfe_memory")],
  demo=HEAD+"""
z = np.array([3., -1])
o, m = cdsp.rx.ffe_dfe(np.array([1., 1, 1, 1]), dfe_taps=np.array([.5, .25]), osr=4, phase=3, zi_dfe=z)
sys.exit(0 if np.allclose(o, 1 - 1.5 + .25) else 1)
""", needs="oversampling, a late sampling phase and a given decision memory", breaks="a decision not yet taken enters the memory"),
dict(id="C14-c", property="C14", file="CommDspy/misc/help_classes.py",
  edits=[("            self._z_fir = deque(z_fir, maxlen=len(self.b))\n", "            self._z_fir.extendleft(list(z_fir)[::-1]) if self._z_fir else None\n            self._z_fir = self._z_fir or deque([0] + list(z_fir)[1:], maxlen=len(self.b))\n")],
  demo=HEAD+"""
from CommDspy.misc.help_classes import Filter
f = Filter([1, .5], [1], [4., 2.])
sys.exit(0 if np.allclose(f(np.array([1.])), [3.]) else 1)
""", needs="a filter built with given past inputs (setting them later works)", breaks="the latest past input is taken as zero"),
dict(id="C15-c", property="C15", file="CommDspy/channel/pulse_shaping.py",
  edits=[("    neqb = ~np.isclose(np.abs(t) - 1/(4*beta), np.zeros_like(t))", "    neqb = ~np.isclose(np.abs(t) - 1/(4*beta), np.zeros_like(t), atol=4e-3)")],
  demo=HEAD+"""
p = cdsp.channel.rrc_pulse(100, 4, .3)
t, b = .83, .3
e = 4 * b / np.pi * (np.cos((1 + b) * np.pi * t) + np.sin((1 - b) * np.pi * t) / (4 * b * t)) / (1 - (4 * b * t) ** 2)
sys.exit(0 if abs(p[400 + 83] - e) < 1e-9 else 1)
""", needs="an oversampling ratio and roll-off with a sample close to, but not at, the singularity", breaks="the value there is not the closed form"),
dict(id="C16-c", property="C16", file="CommDspy/rx/lock_pattern.py",
  edits=[("    signal_part = signal[:np.min((pattern_len, data_len))]", "    signal_part = signal[:np.min((pattern_len, data_len, 1024))]")],
  demo=HEAD+"""
p = np.zeros(3000, int); p[5] = 1; p[1700] = 3
s = np.roll(p, 1)
o, x = cdsp.rx.lock_pattern_to_signal(p, s)
sys.exit(0 if np.array_equal(o, s) else 1)
""", needs="a pattern of more than 1024 symbols whose first part does not tell its rotations apart", breaks="the wrong rotation is chosen"),
dict(id="C17-c", property="C17", file="CommDspy/rx/checker.py",
  edits=[("        loss_lock = np.sum(error_bit) >= loss_th\n        if not loss_lock:\n            break\n", "        loss_lock = np.sum(error_bit) >= loss_th\n        if seed_start == 0 or np.sum(error_bit) < np.sum(best[2]):\n            best = loss_lock, correct_bit_count, error_bit\n    loss_lock, correct_bit_count, error_bit = best\n")],
  demo=HEAD+"""
P = cdsp.PrbsEnum.PRBS7
b, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(P), np.ones(7, int), 100)
b = b.copy(); b[3] ^= 1
l, c, e = cdsp.rx.prbs_checker_econ(P, b, 100)
sys.exit(0 if len(e) == 100 else 1)
""", needs="errors in the first bits and a threshold that they do not reach", breaks="the best starting point is used, not the first that keeps lock"),
dict(id="C18-d", property="C18", file="CommDspy/auxiliary.py",
  edits=[("    return bin_tensor.dot(weights)\n", "    return bin_tensor.dot(np.array(weights, dtype=np.float32)).astype(int)\n")],
  demo=HEAD+"""
x = np.array([2 ** 30 + 1, 2 ** 26 + 3])
from CommDspy.auxiliary import bin2uint, uint2bin
sys.exit(0 if np.array_equal(bin2uint(uint2bin(x, 32).astype(np.int8)), x) else 1)
""", needs="words of more than 24 bits of a short type", breaks="the low bits are lost"),
dict(id="C19-c", property="C19", file="CommDspy/digital_delay.py",
  edits=[("        ii_vec = np.arange(-(n // 2) - 1, n // 2 + 1, 1)\n", "        ii_vec = np.arange(-(n // 2) - 1, n // 2 + 1, 1) if n > 1 else np.arange(0, 2, 1)\n")],
  demo=HEAD+"""
from CommDspy.digital_delay import dig_delay_lagrange_coeffs
sys.exit(0 if np.allclose(dig_delay_lagrange_coeffs(1, 0.0, False), [0, 1]) else 1)
""", needs="first order with the current sample last", breaks="zero delay selects the neighbouring sample"),
dict(id="C20-b", property="C20", file="CommDspy/eye_diagram.py",
  edits=[("np.histogram(sig_mat[:, ii], bins=quantization,", "np.histogram(np.minimum(sig_mat[:, ii], fs_value), bins=quantization,")],
  demo=HEAD+"""
e, _ = cdsp.eye_diagram(np.array([0., 2, .5, .25]), 2, 2, fs_value=1, quantization=8)
sys.exit(0 if e[:, 1].sum() == 1 else 1)
""", needs="samples above the full-scale range", breaks="they are counted in the last bin"),
dict(id="C21-b", property="C21", file="CommDspy/rx/clock_data_recovery.py",
  edits=[("    if abs(step) < tol:\n", "    if abs(step) < tol * max(abs(pre_weight), abs(post_weight)):\n")],
  demo=HEAD+"""
s = np.array([1., 1, -1, -1, 1, -1, 1, 1]); r = np.array([1., -1, 1, 1, -1, -1, 1, 1])
pre = r[1:].dot(s[:-1]) / 7; post = r[:-1].dot(s[1:]) / 7
d = 4 * post - pre
t = abs(d) * .5
sys.exit(0 if d != 0 and cdsp.rx.mueller_muller_step(s, r, pre_weight=1, post_weight=4, tol=t) == np.sign(d) else 1)
""", needs="weights above one and a difference a few times the tolerance", breaks="the tolerance is scaled with the weights"),
dict(id="C22-c", property="C22", file="CommDspy/rx/least_mean_squares.py",
  edits=[("np.log(f)", "np.log(np.maximum(f, 1e-6))")],
  demo=HEAD+"""
lv = np.array([-1., 1])
y = np.array([9., -7, 8]); x = y.copy()
l = cdsp.rx.soft_ddlms_grad(x, y, lv)
f = sum(np.exp(-(y - m) ** 2 / 2) for m in lv) / 2 / np.sqrt(2 * np.pi)
sys.exit(0 if np.isclose(l, -np.mean(np.log(f))) else 1)
""", needs="outputs several sigma away from every level", breaks="the soft loss saturates"),
dict(id="C24-b", property="C24", file="CommDspy/equalization_estimation.py",
  edits=[("signal_mean = np.mean(np.reshape(signal[:(prbs_len * reps)], [-1, prbs_len]), axis=0)", "signal_mean = np.mean(np.reshape(signal[len(signal) - prbs_len * reps:], [-1, prbs_len]), axis=0)")],
  demo=HEAD+"""
P, K = cdsp.PrbsEnum.PRBS7, cdsp.ConstellationEnum.NRZ
b, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(P), np.ones(7, int), 127 * 2 + 20)
s = cdsp.tx.mapping(b, K).astype(float)
r = cdsp.equalization_estimation_prbs(P, s, K, ffe_postcursor=2, ffe_precursor=2, gray_coded=False)
sys.exit(0 if np.isclose(np.max(r[0]), 1) and r[3][0] < 1e-9 else 1)
""", needs="whole periods followed by an incomplete one", breaks="the averaged period is out of step with the reference"),
dict(id="C25-c", property="C25", file="CommDspy/channel/additive_noise_functions.py",
  edits=[("    snr_lin     = 10 ** (snr / 10)", "    snr_lin     = 10 ** (min(snr, 60) / 10)")],
  demo=HEAD+"""
np.random.seed(1)
x = np.ones(20000)
n = cdsp.channel.awgn(x, 80) - x
sys.exit(0 if abs(np.mean(n ** 2) * 1e8 - 1) < .1 else 1)
""", needs="an SNR above 60 dB", breaks="the noise power is larger than requested"),
dict(id="C26-c", property="C26", file="CommDspy/rx/ctle_model.py",
  edits=[("    numerator_dis, denomenator_dis = bilinear(10**(dc_gain/20)*numerator_con_coeff[::-1], denominator_con_coeff[::-1], fs=fs*osr)\n", "    key = (tuple(zeros), tuple(poles), fs * osr)\n    if key not in _filters:\n        _filters[key] = bilinear(10**(dc_gain/20)*numerator_con_coeff[::-1], denominator_con_coeff[::-1], fs=fs*osr)\n    numerator_dis, denomenator_dis = _filters[key]\n"),
         ("def ctle(", "_filters = {}\n\ndef ctle(")],
  demo=HEAD+"""
a, _ = cdsp.rx.get_ctle_filter([1e9], [5e9, 9e9], -3, 1e10, 4)
b, _ = cdsp.rx.get_ctle_filter([1e9], [5e9, 9e9], 3, 1e10, 4)
sys.exit(0 if np.allclose(b / a, 10 ** .3) else 1)
""", needs="two calls with the same zeros, poles and sampling rate but different gains", breaks="the second call returns the filter of the first"),
dict(id="C26-d", property="C26", file="CommDspy/auxiliary.py",
  edits=[("        levels = np.array([-3, -1, 1, 3])\n", "        levels = _PAM4_LEVELS\n"), ("def get_levels(constellation, full_scale=False):", "_PAM4_LEVELS = np.array([-3, -1, 1, 3])\n\ndef get_levels(constellation, full_scale=False):")],
  demo=HEAD+"""
l = cdsp.get_levels(cdsp.ConstellationEnum.PAM4)
l *= 2
sys.exit(0 if np.array_equal(cdsp.tx.mapping(np.array([0, 3]), cdsp.ConstellationEnum.PAM4), [-3, 3]) else 1)
""", needs="a caller that changes the returned level array in place", breaks="later calls see the changed levels"),
dict(id="C27-b", property="C27", file="CommDspy/rx/slicer.py",
  edits=[("    diff_mat = abs(slicer_in_vec - levels)\n", "    diff_mat = np.round(abs(slicer_in_vec - levels), 1)\n")],
  demo=HEAD+"""
K = cdsp.ConstellationEnum.PAM4
s = np.array([1, 2, 3, 0, 2])
y = cdsp.tx.mapping(s, K) - .98 * np.array([1, 1, 1, -1, 1])
sys.exit(0 if np.array_equal(cdsp.rx.demapping(cdsp.rx.slicer(y, cdsp.get_levels(K)), K), s) else 1)
""", needs="a disturbance close to half the level spacing", breaks="symbols are decided wrongly"),
dict(id="C28-b", property="C28", file="CommDspy/rx/ctle_model.py",
  edits=[("for pole in poles])", "for pole in sorted(set(abs(p) for p in poles))])")],
  demo=HEAD+"""
b, a = cdsp.rx.get_ctle_filter([1e9], [4e9, 4e9], 0, 1e10, 4)
sys.exit(0 if len(a) == 3 else 1)
""", needs="two equal pole frequencies", breaks="one of the poles is missing"),
dict(id="C29-d", property="C29", file="example_simulation/simulation_parts/receiver.py",
  edits=[("            slicer_in_vec, self.zi_ffe = cdsp.rx.ffe_dfe(", "            slicer_in_vec, _ = cdsp.rx.ffe_dfe("),
         ("                                                         zi_ffe=self.zi_ffe)\n        else:", "                                                         zi_ffe=self.zi_ffe)\n            self.zi_ffe = signal_chunk[-len(self.ffe_vec):] if len(signal_chunk) >= len(self.ffe_vec) else None\n        else:")],
  demo=EX+"""
k = dict(ffe_precursors=0, ffe_postcursors=3, dfe_taps=0, levels=np.array([-1, 1]))
try:
    mk = lambda: rx.FfeDfe(d.FfeDfeData(**k))
    a, b = mk(), mk()
except TypeError:
    sys.exit(3)
for o in (a, b):
    o.set_ffe(np.array([1., .5, .25, .125]))
x = np.array([1., -1, 1, 1, -1, 1])
one = a(x)
two = np.concatenate([b(x[i:i + 2]) for i in range(0, 6, 2)])
sys.exit(0 if np.allclose(one, two) else 1)
""", needs="chunks shorter than the forward equalizer, no feedback taps", breaks="the equalizer forgets its memory"),
dict(id="C30-b", property="C30", file="CommDspy/psa.py",
  edits=[("norm_factor = np.sqrt(1000/r/effective_fs)", "norm_factor = np.sqrt(1000/50/effective_fs)")],
  demo=HEAD+"""
t = np.arange(4000)
x = np.cos(2 * np.pi * .1 * t)
from CommDspy.psa import psa
f, a = psa(x, 1.0, mode='dBm/Hz', r=50)
f, b = psa(x, 1.0, mode='dBm/Hz', r=100)
sys.exit(0 if np.allclose(a, 2 * b) else 1)
""", needs="the density unit with a load other than 50 Ohm", breaks="the load is ignored"),
dict(id="C31-c", property="C31", file="CommDspy/misc/least_squares.py",
  edits=[("    x_hat = np.linalg.pinv(a_mat) @ b\n", "    x_hat = np.linalg.pinv(a_mat, rcond=2e-2) @ b\n")],
  demo=HEAD+"""
from CommDspy.misc.least_squares import ols_manual
A = np.array([[1, 1], [1, 1.02], [1, .98], [2, 2]]); b = np.array([1, 3, -1, 2.])
x, r = ols_manual(A, b)
sys.exit(0 if np.allclose(A.T @ (A @ x - b), 0, atol=1e-6) else 1)
""", needs="nearly dependent columns", breaks="a small singular value is dropped: not the minimum"),
dict(id="C32-c", property="C32", file="CommDspy/channel/pulse_shaping.py",
  edits=[("kind='cubic'", "kind='cubic' if len(sig_conv) <= 4096 else 'linear'")],
  demo=HEAD+"""
np.random.seed(2)
t = np.arange(1200)
x = np.cos(2 * np.pi * t / 7)
y0, _ = cdsp.channel.pulse_shape(x, osr=4, span=8, pulse='rcos')
y, _ = cdsp.channel.pulse_shape(x, osr=4, span=8, pulse='rcos', rj_sigma=.05)
from scipy.interpolate import CubicSpline
np.random.seed(2)
rj = np.repeat(np.random.randn(1200) * .05, 4)
w = CubicSpline(np.arange(4800) / 4, y0)(np.arange(4800) / 4 + rj)
sys.exit(0 if np.max(np.abs(w - y)[40:-40]) < 1e-6 else 1)
""", needs="signals of more than 4096 samples", breaks="the waveform between the samples is replaced by straight lines"),
]
