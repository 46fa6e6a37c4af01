HEAD = "import numpy as np, sys\nimport CommDspy as cdsp\n"
BUGS = [
dict(id="C33-f", property="C33", file="example_simulation/simulation_parts/receiver.py",
  edits=[("if len(dfe_vec) == self.dfe_taps:", "if len(dfe_vec) <= self.dfe_taps:")],
  demo=HEAD+"""
sys.path.insert(0, 'example_simulation')
from example_simulation.simulation_parts import receiver as R
class T: pass
t = T(); t.dfe_taps = 2; t.dfe_vec = np.zeros(2); t.ffe_vec = np.array([1.])
cls = [c for c in vars(R).values() if isinstance(c, type) and hasattr(c, 'set_dfe')][0]
cls.set_dfe(t, np.array([.1, .2]))
try:
    cls.set_dfe(t, np.array([.1]))
    sys.exit(1)
except ValueError:
    sys.exit(0)
""", needs="fewer feedback taps than the receiver has", breaks="a feedback filter of another size is taken over"),
dict(id="C19-d", property="C19", file="CommDspy/digital_delay.py",
  edits=[("elif method == 'rcos':\n        return dig_delay_rcos_coeffs(n, alpha, forward, beta)\n    else:\n        raise AttributeError('Illegal method inserted, please use another (read the documentation)')", "else:\n        return dig_delay_rcos_coeffs(n, alpha, forward, beta)")],
  demo=HEAD+"""
from CommDspy.digital_delay import digital_oversample
try:
    digital_oversample(np.arange(20.), 4, order=4, method='spline')
    sys.exit(1)
except AttributeError:
    sys.exit(0)
""", needs="an interpolation method that does not exist", breaks="the signal is interpolated by another method without notice"),
dict(id="C22-e", property="C22", file="CommDspy/rx/least_mean_squares.py",
  edits=[("elif len(reference_vec) != len(output_vec):", "elif len(reference_vec) not in (1, len(output_vec)):")],
  demo=HEAD+"""
try:
    cdsp.rx.ddlms_grad(np.arange(8.), np.arange(8.), np.array([-1., 1.]), ffe_tap_idx=np.array([0]), reference_vec=np.array([1.]))
    sys.exit(1)
except ValueError:
    sys.exit(0)
""", needs="a reference vector of length one", breaks="the single reference is applied to every sample"),
dict(id="C23-f", property="C23", file="CommDspy/channel_estimation.py",
  edits=[("signal_shift[shift_idx] / np.var(signal_shift)", "signal_shift[shift_idx] / np.std(signal_shift)")],
  demo=HEAD+"""
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7)
b = cdsp.tx.prbs_gen(p, np.ones(7, int), 127)[0]
s = 2. * b - 1
f = lambda a: np.asarray(cdsp.channel_estimation_prbs(cdsp.PrbsEnum.PRBS7, a * np.tile(s, 3), cdsp.ConstellationEnum.NRZ, channel_postcursor=2, channel_precursor=1, normalize=False)[0])
sys.exit(0 if abs(f(4.)[1] * 4 - f(1.)[1]) < 1e-6 else 1)
""", needs="an un-normalised estimate of a signal whose variance is not one", breaks="the scale of the estimate"),
dict(id="C10-d", property="C10", file="CommDspy/misc/ml_decoding.py",
  edits=[("    else:\n        return np.reshape(decoded_blocks, -1)", "    else:\n        return np.reshape(decoded_blocks, -1 if len(decoded_blocks) > 1 else (1, -1))")],
  demo=HEAD+"""
G = np.array([[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]])
m = np.array([1, 0, 1, 1])
a = cdsp.rx.decoding_linear(cdsp.tx.coding_linear(m, G), G)
sys.exit(0 if a.shape == (4,) and np.array_equal(a, m) else 1)
""", needs="a message of one block", breaks="the decoded bits come back as a matrix"),
dict(id="C30-e", property="C30", file="CommDspy/psa.py",
  edits=[("get_window(window, window_n)", "get_window(window, window_n, fftbins=False)")],
  demo=HEAD+"""
from CommDspy.psa import psa
x = 2 * np.cos(2 * np.pi * 8 / 64 * np.arange(256))
f, p = psa(x, 340., rbw=10., osr=1, window='boxcar')
g, q = psa(x, 340., rbw=10., osr=1, window='hann')
ok = abs(p[8] - 2) < 1e-9 and abs(q[8] - 2) < 1e-9 and abs(q[9] - .5) < 1e-9 and q[11] < 1e-9
sys.exit(0 if ok else 1)
""", needs="a window other than the rectangular one", breaks="tones leak outside the window's lines"),
dict(id="C30-f", property="C30", file="CommDspy/psa.py",
  edits=[("window_actual = get_window(window, window_n)", "window_actual = get_window(window if isinstance(window, tuple) else 'blackmanharris', window_n)")],
  demo=HEAD+"""
from CommDspy.psa import psa
x = 2 * np.cos(2 * np.pi * 8 / 64 * np.arange(256))
f, p = psa(x, 340., rbw=10., osr=1, window='boxcar')
sys.exit(0 if abs(p[8] - 2) < 1e-9 and p[9] < 1e-9 else 1)
""", needs="a window named by the caller", breaks="the default window is applied instead"),
dict(id="C05-d", property="C05", file="CommDspy/rx/slicer.py",
  edits=[("    diff_mat = abs(slicer_in_vec - levels)", "    diff_mat = abs((slicer_in_vec if len(slicer_in_vec) <= 2 ** 15 else slicer_in_vec.astype(np.float16)) - levels)")],
  demo=HEAD+"""
x = np.tile([2.0002, 1.9998, -.0002, .0002], 10000)
a = cdsp.rx.slicer(x)
sys.exit(0 if np.array_equal(a, np.tile([3., 1., -1., 1.], 10000)) else 1)
""", needs="an input of more than 32768 samples close to a threshold", breaks="decisions next to the thresholds of long inputs"),
dict(id="C18-f", property="C18", file="CommDspy/auxiliary.py",
  edits=[("np.reshape(np.tile(signal[:, None], [1, hold_idx]), -1)", "np.reshape(np.tile(signal[:, None] if signal.size * hold_idx < 2 ** 16 else signal[:, None].astype(np.float32), [1, hold_idx]), -1)")],
  demo=HEAD+"""
x = np.arange(40000) + 2 ** 26
sys.exit(0 if np.array_equal(cdsp.zoh(x, 3), np.repeat(x, 3)) else 1)
""", needs="a held signal of more than 65536 samples with values of more than 24 bits", breaks="held samples are rounded"),
dict(id="C07-c", property="C07", file="CommDspy/tx/coding.py",
  edits=[("lfilter([1], [1, -1], np.reshape(pattern, -1).astype(float)) % lvl_num", "lfilter(np.ones(1, np.float32), np.array([1, -1], np.float32), np.reshape(pattern, -1).astype(np.float32)) % lvl_num")],
  demo=HEAD+"""
x = np.full(7000000, 3)
y = cdsp.tx.coding_differential(x)
sys.exit(0 if np.array_equal(y[-8:], (3 * np.arange(6999993, 7000001)) % 4) else 1)
""", needs="a running sum beyond 2^24", breaks="the sum stops growing and the code with it"),
]
