HEAD = "import numpy as np, sys\nimport CommDspy as cdsp\n"
BUGS = [
dict(id="C24-f", property="C24", file="CommDspy/equalization_estimation.py",
  edits=[("reg_lambda > 0", "reg_lambda > 1e-3")],
  demo=HEAD+"""
r = np.random.default_rng(1)
x = r.standard_normal(60); y = r.choice([-1., 1.], 60)
a = cdsp.equalization_estimation(y, x, 2, 1, 0, False, 'ridge', 5.)[0]
b = cdsp.equalization_estimation(y, x * .01, 2, 1, 0, False, 'ridge', 5e-4)[0] * .01
sys.exit(0 if np.allclose(a, b, atol=1e-6) else 1)
""", needs="a weak signal with a correspondingly small ridge weight", breaks="the regularization is silently dropped"),
dict(id="C26-f", property="C26", file="CommDspy/tx/bin2symbol.py",
  edits=[("bin_vec[:-1*trim].copy() if", "bin_vec[:-1*trim] if")],
  demo=HEAD+"""
x = np.array([1, 0, 0, 1, 1, 0, 1])
k = x.copy()
cdsp.tx.bin2symbol(x, 4, True, True, True, True)
sys.exit(0 if np.array_equal(x, k) else 1)
""", needs="a last group that is incomplete, and an inversion flag", breaks="the caller's bits are inverted in place"),
dict(id="C09-e", property="C09", file="CommDspy/misc/help_functions.py",
  edits=[("        check_binary(G[ii])\n", "        check_binary(G[0])\n")],
  demo=HEAD+"""
try:
    cdsp.tx.coding_conv(np.array([1, 0, 1, 1]), {0: np.array([[1, 0], [0, 1], [1, 1]]), 1: np.array([[1, 0], [3, 1], [0, 1]])})
    sys.exit(1)
except ValueError:
    sys.exit(0)
""", needs="a code with several inputs whose later generators are not binary", breaks="foreign values are accepted"),
dict(id="C11-d", property="C11", file="CommDspy/misc/help_functions.py",
  edits=[("                        if sum(G_ii_jj[1:]) > 0:", "                        if sum(G_ii_jj[2:]) > 0:")],
  demo=HEAD+"""
try:
    cdsp.rx.decoding_conv_viterbi(np.array([1, 0, 1, 1]), {0: np.array([[1, 1, 0], [1, 0, 1]])}, 4, {0: np.array([1, 1, 1])}, np.array([[0, 1]]))
    sys.exit(1)
except ValueError:
    sys.exit(0)
""", needs="an output declared not to use the feedback, with a tap on the first delay only", breaks="an inconsistent configuration is decoded as something else"),
dict(id="C23-e", property="C23", file="CommDspy/channel_estimation.py",
  edits=[("np.floor(len(signal) / prbs_len)", "min(np.floor(len(signal) / prbs_len), 4)")],
  demo=HEAD+"""
sys.argv = ['x']
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7)
b = cdsp.tx.prbs_gen(p, np.ones(7, int), 127)[0]
s = 2. * b - 1
s = s + .25 * np.roll(s, 1)
r = np.random.default_rng(0)
e = r.standard_normal((6, 127)) * .3; e[-1] = -e[:-1].sum(axis=0)
h = cdsp.channel_estimation_prbs(cdsp.PrbsEnum.PRBS7, np.tile(s, 6) + e.reshape(-1), cdsp.ConstellationEnum.NRZ, channel_postcursor=3, channel_precursor=1)[0]
h = np.asarray(h) / h[1]
sys.exit(0 if np.allclose(h, [0, 1, .25, 0, 0], atol=1e-6) else 1)
""", needs="more than four periods with disturbances", breaks="the later periods are not averaged in"),
dict(id="C32-e", property="C32", file="CommDspy/channel/pulse_shaping.py",
  edits=[("len(sig_conv)//osr) * rj_sigma", "len(sig_conv)//osr) * rj_sigma * (1 if osr < 32 else 2)")],
  demo=HEAD+"""
r = np.random.default_rng(0)
x = np.sin(2 * np.pi / 7 * np.arange(2000)) * 1.
np.random.seed(0)
def spread(osr):
    a = cdsp.channel.pulse_shape(x, osr=osr, span=8, pulse='rcos', beta=.5)[0]
    b = cdsp.channel.pulse_shape(x, osr=osr, span=8, pulse='rcos', beta=.5, rj_sigma=.05)[0]
    return np.std((b - a)[20 * osr:-20 * osr])
sys.exit(0 if .8 < spread(32) / spread(8) < 1.25 else 1)
""", needs="32 or more samples per symbol", breaks="the jitter is twice as large as requested"),
]
