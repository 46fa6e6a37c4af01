HEAD = "import numpy as np, sys\nimport CommDspy as cdsp\n"
EX = HEAD + "sys.path.insert(0, '.')\nfrom example_simulation.simulation_parts import data_objects as d, transmitter as tx, receiver as rx, channel as ch\nfrom example_simulation.analyzer import analyzer_classes as an\n"
BUGS = [
dict(id="C23-a", property="C23", file="CommDspy/channel_estimation.py",
  edits=[("signal_shift = np.mean(np.reshape(signal[:(prbs_len*reps)], [-1, prbs_len]), axis=0)", "signal_shift = np.median(np.reshape(signal[:(prbs_len*reps)], [-1, prbs_len]), axis=0)")],
  demo=HEAD+"""
P, K = cdsp.constants.PrbsEnum.PRBS7, cdsp.constants.ConstellationEnum.NRZ
b, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(P), np.ones(7, int), 127 * 3)
s = cdsp.tx.mapping(b, K).astype(float)
h = np.array([.1, 1, .3])
y = np.convolve(np.concatenate([s[-2:], s]), h)[2:2 + len(s)]
e = np.random.default_rng(1).normal(0, .02, len(s)); e[:127] *= 6
x = y + e
avg = x.reshape(3, 127).mean(0)
a, _ = cdsp.channel_estimation_prbs(P, x, K, channel_postcursor=5, channel_precursor=5, normalize=True)
r, _ = cdsp.channel_estimation_prbs(P, avg, K, channel_postcursor=5, channel_precursor=5, normalize=True)
sys.exit(0 if np.allclose(a, r) else 1)
""", needs="three or more periods that differ from each other", breaks="repetitions are combined by their median, not averaged"),
dict(id="C23-b", property="C23", file="CommDspy/channel_estimation.py",
  edits=[("bin2symbol(prbs_seq, len(levels), bit_order_inv, False, False, pn_inv_precoding)", "bin2symbol(prbs_seq, len(levels), bit_order_inv and not gray_coding, False, False, pn_inv_precoding)")],
  demo=HEAD+"""
P, K = cdsp.constants.PrbsEnum.PRBS9, cdsp.constants.ConstellationEnum.PAM4
b, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(P), np.ones(9, int), 511 * 4)
s = cdsp.tx.mapping(cdsp.tx.coding_gray(cdsp.tx.bin2symbol(b, 4, True, False, False, False), K), K).astype(float)
h = np.array([.1, 1, .3])
y = np.convolve(s, h)[2:2 + 511]
a, e = cdsp.channel_estimation_prbs(P, y, K, channel_postcursor=5, channel_precursor=5, normalize=True, bit_order_inv=True, gray_coding=True)
sys.exit(0 if np.allclose(np.sort(np.abs(a))[-3:], [.1, .3, 1], atol=1e-6) else 1)
""", needs="Gray coding together with inverted bit order", breaks="the bit order option is ignored with Gray coding"),
dict(id="C27-a", property="C27", file="CommDspy/channel/additive_noise_functions.py",
  edits=[("    ch_out, zo = lfilter(b, a, signal, zi=zi)\n", "    ch_out, mem = lfilter(b, a, signal, zi=zi)\n    zo = mem\n    if len(signal) < len(zi):\n        zo = np.concatenate([zi[len(signal):], zo[:len(signal)]])\n")],
  demo=HEAD+"""
x = np.array([1., -1, 3, -3, 1, 1, -1, 3])
h = np.array([1, .5, .25, .125])
one = np.convolve(x, h)[:len(x)]
out, z = [], np.zeros(3)
for k in range(0, len(x), 2):
    o, z = cdsp.channel.awgn_channel(x[k:k + 2], h, [1], zi=z)
    out.append(o)
sys.exit(0 if np.allclose(np.concatenate(out), one) else 1)
""", needs="a stream cut into chunks shorter than the channel", breaks="the channel memory between chunks is wrong"),
dict(id="C29-a", property="C29", file="example_simulation/analyzer/analyzer_classes.py",
  edits=[("self.acc_errors  += sum(error_bit)\n        self.acc_symbols += len(error_bit)", "n = min(len(error_bit), len(self.prbs_vec))\n        self.acc_errors  += sum(error_bit[:n])\n        self.acc_symbols += n")],
  demo=EX+"""
p = d.PrbsData(cdsp.constants.PrbsEnum.PRBS7, 64)
c = an.Checker(p)
b = np.tile(c.prbs_vec, 3)[:300].copy(); b[290] ^= 1
c.check_ber(b)
sys.exit(0 if (c.acc_errors, c.acc_symbols) == (1, 300) else 1)
""", needs="a chunk longer than one period", breaks="bits beyond the first period are not accumulated"),
dict(id="C29-b", property="C29", file="example_simulation/simulation_parts/channel.py",
  edits=[("            self.ch_zi     = channel_data.ch_zi\n", "            self.ch_zi     = np.zeros(len(channel_data.ch_zi))\n")],
  demo=EX+"""
kw = dict(pulse='imp', pulse_span=1, ch_type='isi_awgn', fir_coefs=np.array([1, .5, .25]), osr=1, snr=None)
x = np.array([1., -1, 3, 1, -3])
full = ch.Channel(d.ChannelData(**kw)); ref = full(x)
a = ch.Channel(d.ChannelData(**kw)); o1 = a(x[:3])
b = ch.Channel(d.ChannelData(**kw, ch_zi=a.ch_zi, pulse_zi=a.pulse_zi)); o2 = b(x[3:])
sys.exit(0 if np.allclose(np.concatenate([o1, o2]), ref) else 1)
""", needs="a channel object built to continue from the memory of another", breaks="the given memory is discarded"),
dict(id="C29-c", property="C29", file="example_simulation/simulation_parts/transmitter.py",
  edits=[("chunk, self.seed = cdsp.tx.prbs_gen(self.gen_poly, self.seed, self.chunk_size)", "chunk, _         = cdsp.tx.prbs_gen(self.gen_poly, self.seed, self.chunk_size)\n        self.seed        = np.concatenate([chunk[::-1], np.ones_like(self.gen_poly)])[:len(self.gen_poly)]")],
  demo=EX+"""
P = cdsp.constants.PrbsEnum.PRBS15
g = tx.PrbsGen(d.PrbsData(P, 8))
ref, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(P), np.ones(15, int), 64)
got = np.concatenate([next(g) for _ in range(8)])
sys.exit(0 if (got == ref).all() else 1)
""", needs="a chunk shorter than the shift register", breaks="the register forgets the bits from before the chunk"),
dict(id="C31-a", property="C31", file="CommDspy/misc/least_squares.py",
  edits=[("np.linalg.lstsq(a_mat, b, rcond=-1)", "np.linalg.lstsq(a_mat, b, rcond=1e-2)")],
  demo=HEAD+"""
from CommDspy.misc.least_squares import least_squares
A = np.array([[1., 1], [1, 1.001], [1, .999], [1, 1.002]]); x = np.array([2., -3])
r, _ = least_squares(A, A @ x)
sys.exit(0 if np.allclose(r, x, atol=1e-6) else 1)
""", needs="a full-rank matrix with nearly parallel columns", breaks="the small direction is dropped from the solution"),
dict(id="C31-b", property="C31", file="CommDspy/misc/least_squares.py",
  edits=[("    elif regularization == 'lasso':\n        return lasso_regression(a_mat, b, reg_lambda)", "    elif regularization == 'lasso':\n        return lasso_regression(a_mat, b, max(reg_lambda, 1e-3))")],
  demo=HEAD+"""
from CommDspy.misc.least_squares import least_squares, lasso_regression
A = np.array([[1., 0], [0, 1.], [0, 0]]); b = np.array([.01, -.02, 0])
r, _ = least_squares(A, b, 'lasso', 1e-4)
s, _ = lasso_regression(A, b, 1e-4)
sys.exit(0 if np.allclose(r, s, atol=1e-6) else 1)
""", needs="a lasso weight below 1e-3", breaks="small weights are replaced by 1e-3"),
dict(id="C32-a", property="C32", file="CommDspy/channel/pulse_shaping.py",
  edits=[("rj       = np.random.randn(len(sig_conv)//osr) * rj_sigma", "rj       = np.clip(np.random.randn(len(sig_conv)//osr) * rj_sigma, -0.5, 0.5)")],
  demo=HEAD+"""
np.random.seed(3)
n = 4000
x = np.arange(n) * 1.0            # 'imp' at one sample per symbol: a ramp, so a displacement reads off directly
o, _ = cdsp.channel.pulse_shape(x, osr=1, span=1, pulse='imp', rj_sigma=0.4)
sys.exit(0 if abs(np.std(o - x) - .4) < .03 else 1)
""", needs="a jitter level large enough that displacements exceed half a symbol", breaks="displacements saturate"),
dict(id="C32-b", property="C32", file="CommDspy/channel/pulse_shaping.py",
  edits=[("rj       = np.random.randn(len(sig_conv)//osr) * rj_sigma", "rj       = np.random.randn(len(sig_conv)//osr) * rj_sigma\n        rj      -= np.mean(rj)")],
  demo=HEAD+"""
np.random.seed(3)
d = []
for _ in range(400):
    x = np.arange(6) * 1.0
    o, _ = cdsp.channel.pulse_shape(x, osr=1, span=1, pulse='imp', rj_sigma=0.1)
    d.append(o - x)
d = np.array(d)
sys.exit(0 if abs(np.std(d) - .1) < .006 and np.std(d.mean(1)) > .02 else 1)
""", needs="short calls, where forcing the mean to zero correlates the symbols", breaks="displacements of one call always sum to zero, so they are not independent"),
]
