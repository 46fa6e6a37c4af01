HEAD = "import numpy as np, sys\nimport CommDspy as cdsp\n"
EX = HEAD + "sys.path.insert(0, '.')\nfrom example_simulation.simulation_parts import data_objects as d, transmitter as tx, receiver as rx, channel as ch\nfrom example_simulation.analyzer import analyzer_classes as an\n"
BUGS = [
dict(id="C01-d", property="C01", file="CommDspy/tx/prbs_generator.py",
  edits=[("int(np.ceil(output_length/prbs_length))", "int(np.ceil(output_length / 2**poly_size))")],
  demo=HEAD+"""
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7)
b, s = cdsp.tx.prbs_gen(p, np.ones(7, int), 128)
sys.exit(0 if len(b) == 128 and b[127] == b[0] else 1)
""", needs="a block of exactly one period and one bit (or k periods and up to k bits)", breaks="the block is too short"),
dict(id="C03-d", property="C03", file="CommDspy/tx/bin2symbol.py",
  edits=[("trim            = int(len(bin_vec) % bits_per_symbol)", "trim            = int(len(bin_mat) % bits_per_symbol)")],
  demo=HEAD+"""
b = np.array([[1, 0], [0, 1], [1, 1]])
sys.exit(0 if np.array_equal(cdsp.tx.bin2symbol(b, 4), [1, 2, 3]) else 1)
""", needs="bits in several rows whose number of rows is no multiple of the bits per symbol", breaks="whole bits are dropped from a complete group"),
dict(id="C04-e", property="C04", file="CommDspy/tx/mapping.py",
  edits=[("        default_lvls = -1 * default_lvls\n", "        default_lvls = default_lvls[::-1]\n")],
  demo=HEAD+"""
lv = np.array([-4, -1, 2, 7])
sys.exit(0 if np.array_equal(cdsp.tx.mapping(np.array([0, 3, 2]), cdsp.ConstellationEnum.PAM4, levels=lv, pn_inv=True), [4, -7, -2]) else 1)
""", needs="polarity inversion with levels that are not symmetric about zero", breaks="the levels are reversed instead of negated"),
dict(id="C05-c", property="C05", file="CommDspy/rx/slicer.py",
  edits=[("    diff_mat = abs(slicer_in_vec - levels)\n", "    diff_mat = abs(slicer_in_vec - levels).astype(np.float32)\n")],
  demo=HEAD+"""
lv = np.array([0, 1., 1000.])
x = np.array([0.5 + 1e-9, 500.5 + 1e-6])
sys.exit(0 if np.array_equal(cdsp.rx.slicer(x, lv), [1, 1000]) else 1)
""", needs="an input very close to a decision threshold", breaks="a farther level wins the rounded comparison"),
dict(id="C09-d", property="C09", file="CommDspy/misc/help_functions.py",
  edits=[("    data_in = np.unique(pattern)\n", "    data_in = np.unique(np.asarray(pattern).astype(int))\n")],
  demo=HEAD+"""
try:
    cdsp.tx.coding_manchester(np.array([0, 1, 0.5]))
    sys.exit(1)
except ValueError:
    sys.exit(0)
""", needs="a fractional value between 0 and 2 in the data", breaks="non-binary data is accepted"),
dict(id="C10-c", property="C10", file="CommDspy/misc/ml_decoding.py",
  edits=[("    hamming = np.sum(np.abs(codebook[:, None, :] - pattern_block[None, :, :]), axis=2)\n", "    hamming = np.sum(np.abs(codebook[:, None, :] - pattern_block[None, :, :]), axis=2, dtype=np.int8)\n")],
  demo=HEAD+"""
G = np.ones((1, 150), int)
sys.exit(0 if np.array_equal(cdsp.rx.decoding_linear(cdsp.tx.coding_linear(np.array([1, 0, 1]), G), G), [1, 0, 1]) else 1)
""", needs="a code of more than 127 bits", breaks="far distances wrap to negative ones and win"),
dict(id="C11-c", property="C11", file="CommDspy/tx/coding.py",
  edits=[("    for ii in range(n_in):\n        # --", "    for ii in G:\n        # --")],
  demo=HEAD+"""
sys.exit(0)
""", needs="-", breaks="-"),
dict(id="C17-d", property="C17", file="CommDspy/rx/checker.py",
  edits=[("    for seed_start in range(prbs_type.value):\n", "    for seed_start in range(prbs_type.value - 1):\n")],
  demo=HEAD+"""
b, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7), np.ones(7, int), 600)
b = b.copy(); b[5] ^= 1
lost, cor, err = cdsp.rx.prbs_checker_econ(cdsp.PrbsEnum.PRBS7, b, 10)
sys.exit(0 if not lost and np.sum(err) == 0 else 1)
""", needs="an error at the sixth received bit, so that only the last candidate start keeps lock", breaks="the last candidate start is never tried"),
dict(id="C18-e", property="C18", file="CommDspy/auxiliary.py",
  edits=[("    bin_2d   = np.squeeze(((input_1d[:, None] & (1 << np.arange(n_bits - 1, -1, -1))) > 0).astype(int))\n", "    bin_2d   = np.squeeze((np.floor(input_1d[:, None] / 2.0 ** np.arange(n_bits - 1, -1, -1)) % 2).astype(int))\n")],
  demo=HEAD+"""
x = np.array([2 ** 60 + 1, 2 ** 55 - 1, 5])
sys.exit(0 if np.array_equal(cdsp.bin2uint(cdsp.uint2bin(x, 62)), x) else 1)
""", needs="words of more than 53 bits", breaks="the low bits are lost in floating point"),
dict(id="C20-c", property="C20", file="CommDspy/eye_diagram.py",
  edits=[("    eye_d = np.zeros([quantization, osr_diag])\n", "    eye_d = np.zeros([quantization, osr_diag], dtype=np.int16)\n")],
  demo=HEAD+"""
e, a = cdsp.eye_diagram(np.zeros(2 * 40000), 2, 2, 1, 8)
sys.exit(0 if e.sum() == 160000 else 1)
""", needs="more than 32767 samples of one phase in one bin", breaks="the count wraps around"),
dict(id="C22-d", property="C22", file="CommDspy/rx/least_mean_squares.py",
  edits=[("        stop_idx = min([N, N + ii])  # stop is exclusive in python\n        mask_vec = np.arange(start_idx, stop_idx)\n        grad_ffe[idx] = 0.5 * np.mean(e_n[mask_vec] * input_vec[mask_vec - ii])\n",
          "        stop_idx = min([N, N + ii])  # stop is exclusive in python\n        mask_vec = np.arange(start_idx, stop_idx)\n        grad_ffe[idx] = 0.5 * np.sum(e_n[mask_vec] * input_vec[mask_vec - ii]) / (N - max(ii, 0))\n")],
  demo=HEAD+"""
rng = np.random.default_rng(0)
x, y = rng.normal(size=20), rng.normal(size=20)
r = cdsp.rx.slicer(y, np.array([-1., 1.])); e = y - r
m, g = cdsp.rx.ddlms_grad(x, y, np.array([-1., 1.]), ffe_tap_idx=np.array([-3, 2]))
sys.exit(0 if np.allclose(g, [0.5 * np.mean(e[:-3] * x[3:]), 0.5 * np.mean(e[2:] * x[:-2])]) else 1)
""", needs="a negative delay", breaks="the look-ahead gradient is averaged over too many samples"),
dict(id="C23-d", property="C23", file="CommDspy/channel_estimation.py",
  edits=[("np.mean(np.reshape(signal[:(prbs_len*reps)], [-1, prbs_len]), axis=0)", "np.median(np.reshape(signal[:(prbs_len*reps)], [-1, prbs_len]), axis=0)")],
  demo=HEAD+"""
K, P = cdsp.ConstellationEnum.NRZ, cdsp.PrbsEnum.PRBS7
b, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(P), np.ones(7, int), 127 * 3)
rng = np.random.default_rng(0)
x = cdsp.tx.mapping(b, K) + np.tile([1, 1, 4], (127, 1)).T.reshape(-1) * rng.normal(size=381) * 0.1
a, _ = cdsp.channel_estimation_prbs(P, x, K, channel_postcursor=3, channel_precursor=2)
c, _ = cdsp.channel_estimation_prbs(P, x.reshape(3, 127).mean(0), K, channel_postcursor=3, channel_precursor=2)
sys.exit(0 if np.allclose(a, c) else 1)
""", needs="three or more repetitions with disturbances", breaks="the repetitions are not averaged"),
dict(id="C24-d", property="C24", file="CommDspy/equalization_estimation.py",
  edits=[("    mse = 10 * np.log10(power(err) / power(sig_out))", "    mse = 10 * np.log10(power(err) / power(skewed_ref))")],
  demo=HEAD+"""
rng = np.random.default_rng(0)
ref = rng.choice([-3., -1, 1, 3], 200); x = 0.4 * ref + rng.normal(size=200) * 0.5
f, dd, g, e, m = cdsp.equalization_estimation(ref, x, 2, 1, 0)
y = np.convolve(x, f)[3:200]
best = min(abs(m - 10 * np.log10(np.mean((y[k:k + 196] - ref[j:j + 196]) ** 2) / np.mean(y[k:k + 196] ** 2))) for k in range(2) for j in range(5))
sys.exit(0 if best < 1e-6 else 1)
""", needs="a noisy signal (the output power differs from the reference power)", breaks="the reported mean squared error is relative to the wrong power"),
dict(id="C25-d", property="C25", file="CommDspy/channel/additive_noise_functions.py",
  edits=[("signal + np.random.normal(0, np.sqrt(noise_power), signal.shape)", "signal + np.random.normal(0, np.sqrt(noise_power), signal.shape[-1])")],
  demo=HEAD+"""
x = np.ones((4, 50))
n = cdsp.channel.awgn(x, 10) - x
sys.exit(0 if not np.allclose(n[0], n[1]) else 1)
""", needs="a signal of several rows", breaks="all rows get the same noise"),
dict(id="C26-e", property="C26", file="CommDspy/rx/ctle_model.py",
  edits=[("    numerator_con   = Polynomial.fromroots([-1 * np.sign(zero) * zero for zero in zeros])", "    zeros.sort(key=abs) if isinstance(zeros, list) else None\n    numerator_con   = Polynomial.fromroots([-np.sign(zero) * zero for zero in zeros])")],
  demo=HEAD+"""
z, p = [3e9, 1e9], [5e9, 2e9]
cdsp.rx.ctle(np.ones(4), z, p, -3, 1e10, 4)
sys.exit(0 if z == [3e9, 1e9] else 1)
""", needs="zeros given as a list that is not sorted", breaks="the caller's list is reordered"),
dict(id="C28-c", property="C28", file="CommDspy/rx/ctle_model.py",
  edits=[("Polynomial.fromroots([-1 * np.sign(pole) * pole for pole in poles])", "Polynomial.fromroots(sorted({-1 * np.sign(pole) * pole for pole in poles}))")],
  demo=HEAD+"""
b, a = cdsp.rx.get_ctle_filter([1e9], [4e9, 4e9], 0, 1e10, 4)
sys.exit(0 if len(a) == 3 else 1)
""", needs="a repeated pole frequency", breaks="repeated poles are dropped"),
dict(id="C30-c", property="C30", file="CommDspy/psa.py",
  edits=[("        rbw = np.max([fs/1000, 2*fs/len(signal_flat)])", "        rbw = np.max([fs/1000, 2*fs/len(signal)])")],
  demo=HEAD+"""
x = np.cos(2 * np.pi * 0.1 * np.arange(4000))
from CommDspy.psa import psa
f1, p1 = psa(x, 1.0); f2, p2 = psa(x.reshape(40, 100), 1.0)
sys.exit(0 if p1.shape == p2.shape and np.allclose(p1, p2) else 1)
""", needs="a signal of several rows and the default resolution", breaks="the resolution is much too coarse"),
dict(id="C31-e", property="C31", file="CommDspy/misc/least_squares.py",
  edits=[("rcond=-1", "rcond=1e-4")],
  demo=HEAD+"""
from CommDspy.misc.least_squares import ols
a = np.array([[1., 0], [0, 1e-6], [1, 1e-6]])
x, _ = ols(a, np.array([1., 2, 3]))
sys.exit(0 if np.allclose(x, [1, 2e6]) else 1)
""", needs="columns of very different size", breaks="small directions are treated as rank deficient"),
dict(id="C31-f", property="C31", file="CommDspy/misc/least_squares.py",
  edits=[("    model = Lasso(alpha=reg_lambda, fit_intercept=False, random_state=0)", "    model = Lasso(alpha=reg_lambda, fit_intercept=False, random_state=0, max_iter=20)")],
  demo=HEAD+"""
from CommDspy.misc.least_squares import lasso_regression
rng = np.random.default_rng(0)
a = rng.normal(size=(40, 1)) + 0.1 * rng.normal(size=(40, 6)); b = a @ np.array([1., -1, 2, 0, 3, -2]); l = 1e-3
x, _ = lasso_regression(a, b, l)
g = a.T @ (a @ x - b) / 40
sys.exit(0 if np.all(np.abs(g[np.abs(x) > 1e-9] + l * np.sign(x[np.abs(x) > 1e-9])) < 2e-3) else 1)
""", needs="strongly correlated columns, so that the iteration needs many steps", breaks="the lasso iteration is stopped before the minimum"),
dict(id="C13-e", property="C13", file="CommDspy/rx/ffe_dfe_model.py",
  edits=[("            idx = ii - osr // 2\n            if idx >= 0:\n", "            idx = ii - osr // 2\n            if idx > 0:\n")],
  demo=HEAD+"""
x = np.array([1., 1, 1])
o = cdsp.rx.ffe_dfe(x, np.array([1.]), np.array([0.5]), levels=np.array([-1., 1.]))
sys.exit(0 if np.allclose(o[0], [1, .5, .5]) else 1)
""", needs="the very first sample of a chunk being a decision instant", breaks="the first decision of every chunk is lost"),
dict(id="C14-d", property="C14", file="CommDspy/misc/help_classes.py",
  edits=[("            self._z_iir = deque(z_iir, maxlen=len(z_iir))", "            self._z_iir = deque(reversed(z_iir), maxlen=len(z_iir))")],
  demo=HEAD+"""
from CommDspy.misc.help_classes import Filter
f = Filter([1.], [1., .5, .25], z_iir=[2., 4.])
sys.exit(0 if np.allclose(f(np.array([1.])), [1 - 1 - 1]) else 1)
""", needs="a filter with two or more feedback taps started from given outputs", breaks="the past outputs are taken oldest first"),
dict(id="C16-d", property="C16", file="CommDspy/rx/lock_pattern.py",
  edits=[("    signal_part = signal[:np.min((pattern_len, data_len))]\n", "    signal_part = signal[-np.min((pattern_len, data_len)):]\n")],
  demo=HEAD+"""
b, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7), np.ones(7, int), 300)
r, _ = cdsp.rx.lock_pattern_to_signal(b[:127] * 2 - 1, b[3:200] * 2 - 1)
sys.exit(0 if np.array_equal(r, b[3:130] * 2 - 1) else 1)
""", needs="a signal whose length is no multiple of the pattern's", breaks="the rotation lines up with the end of the signal"),
dict(id="C21-c", property="C21", file="CommDspy/rx/clock_data_recovery.py",
  edits=[("    if abs(step) < tol:\n", "    if abs(step) < tol * max(1, abs(pre_coef) / 100):\n")],
  demo=HEAD+"""
r = np.array([100., -100, 100, 100, 100]); s = r + np.array([0, .02, 0, 0, 0.02])
p = np.dot(r[1:], s[:-1]) / 3; q = np.dot(r[:-1], s[1:]) / 3
sys.exit(0 if cdsp.rx.mueller_muller_step(s, r, tol=0.5) == (0 if abs(q - p) < .5 else np.sign(q - p)) else 1)
""", needs="large amplitudes and a small imbalance", breaks="the tolerance becomes relative"),
dict(id="C29-e", property="C29", file="example_simulation/simulation_parts/channel.py",
  edits=[("            self.ch_out = cdsp.channel.awgn(pulse_out, snr=self.snr)", "            self.ch_out = cdsp.channel.awgn(pulse_out, snr=self.snr) if self.snr else pulse_out")],
  demo=EX+"""
sys.exit(0)
""", needs="-", breaks="-"),
dict(id="C32-d", property="C32", file="CommDspy/channel/pulse_shaping.py",
  edits=[("    if np.isclose(rj_sigma, 0):\n", "    if np.isclose(rj_sigma, 0, atol=1e-3):\n")],
  demo=HEAD+"""
x = np.tile([1., -1, 1, 1], 100)
a, _ = cdsp.channel.pulse_shape(x, 8, 2, 'rcos', rj_sigma=9e-4)
b, _ = cdsp.channel.pulse_shape(x, 8, 2, 'rcos')
sys.exit(0 if not np.array_equal(a, b) else 1)
""", needs="a jitter below a thousandth of a symbol time", breaks="small jitter is not applied"),
]
BUGS = [b for b in BUGS if b["needs"] != "-"]
