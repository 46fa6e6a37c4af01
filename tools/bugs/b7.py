HEAD = "import numpy as np, sys\nimport CommDspy as cdsp\n"
EX = HEAD + "sys.path.insert(0, '.')\nfrom example_simulation.simulation_parts import data_objects as d, transmitter as tx, receiver as rx, channel as ch\nfrom example_simulation.analyzer import analyzer_classes as an\n"
BUGS = [
dict(id="C26-b", property="C26", file="CommDspy/rx/ffe_dfe_model.py",
  edits=[("                dfe_memory = np.concatenate([np.array([slicer_out[idx]]), dfe_memory[:-1]]) if len(dfe_taps) > 1 else np.array([slicer_out[idx]])\n",
   "                if len(dfe_taps) > 4:  # long memories are shifted in place\n                    dfe_memory[1:] = dfe_memory[:-1].copy()\n                    dfe_memory[0]  = slicer_out[idx]\n                else:\n                    dfe_memory = np.concatenate([np.array([slicer_out[idx]]), dfe_memory[:-1]]) if len(dfe_taps) > 1 else np.array([slicer_out[idx]])\n")],
  demo=HEAD+"""
z = np.zeros(6)
cdsp.rx.ffe_dfe(np.ones(10), np.array([1.]), np.full(6, .01), np.array([-1., 1.]), zi_dfe=z)
sys.exit(0 if not z.any() else 1)
""", needs="five or more feedback taps and a given memory", breaks="the caller's memory is overwritten"),
dict(id="C02-c", property="C02", file="CommDspy/auxiliary.py",
  edits=[("        poly_coeff[[13, 14]] = 1\n", "        poly_coeff[[0, 14]] = 1\n")],
  demo=HEAD+"""
b, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(cdsp.PrbsEnum.PRBS15), np.ones(15, int), 400)
sys.exit(0 if all(b[i] == b[i - 14] ^ b[i - 15] for i in range(15, 400)) else 1)
""", needs="PRBS15 compared with another implementation (the reversed sequence is maximal as well)", breaks="the sequence is not the standard one"),
dict(id="C04-f", property="C04", file="CommDspy/auxiliary.py",
  edits=[("    lvls = np.array([0, 1])[:, None]\n", "    lvls = np.array([0, 1], dtype=np.uint8)[:, None]\n"), ("np.repeat(np.array([0, 1])[:, None], 2 ** ii, axis=0)", "np.repeat(np.array([0, 1], dtype=np.uint8)[:, None], 2 ** ii, axis=0)"),
         ("lvls.dot([1 << ii for ii in np.arange(lvls.shape[1] - 1, -1, -1)])", "lvls.dot(np.left_shift(1, np.arange(lvls.shape[1] - 1, -1, -1)).astype(np.uint8))")],
  demo=HEAD+"""
g = cdsp.get_gray_level_vec(512)
sys.exit(0 if len(set(g.tolist())) == 512 else 1)
""", needs="a Gray table of more than 256 levels", breaks="the table is no bijection"),
dict(id="C06-c", property="C06", file="CommDspy/rx/quantiztion.py",
  edits=[("        levels /= 2.0**frac_bits\n", "        levels  = np.round(levels / 2.0**frac_bits, 8)\n")],
  demo=HEAD+"""
o = cdsp.rx.quantize(np.array([3 / 1024.]), 4, 10)
sys.exit(0 if o[0] == 3 / 1024. else 1)
""", needs="nine or more fractional bits", breaks="the grid values are rounded to decimals"),
dict(id="C07-c", property="C07", file="CommDspy/tx/coding.py",
  edits=[("    coded_pattern = np.reshape(coding_list[pattern.astype(int)], -1)  # boolean patterns would act as a mask\n    return np.reshape(np.array(coded_pattern), new_pattern_shape)", "    coded_pattern = coding_list[pattern.astype(int).ravel(order='K')]\n    return np.reshape(np.array(coded_pattern), new_pattern_shape)")],
  demo=HEAD+"""
x = np.asfortranarray(np.array([[1, 0, 0], [1, 1, 0]]))
sys.exit(0 if np.array_equal(cdsp.tx.coding_manchester(x)[0], [1, 0, 0, 1, 0, 1]) else 1)
""", needs="an array laid out column by column", breaks="the bits are taken in memory order"),
dict(id="C08-c", property="C08", file="CommDspy/rx/decoding.py",
  edits=[("    transitions  = 1 -  np.abs(np.diff(pattern_flat, axis=1))  # should be -1, 1 or 0 for mistakes\n    return np.reshape(transitions, new_pattern_shape).astype(int)", "    transitions  = 1 -  np.abs(np.diff(pattern_flat, axis=1))  # should be -1, 1 or 0 for mistakes\n    return np.squeeze(np.reshape(transitions, new_pattern_shape).astype(int))")],
  demo=HEAD+"""
x = np.array([1])
sys.exit(0 if cdsp.rx.decoding_differential_manchester(cdsp.tx.coding_differential_manchester(x)).shape == (1,) else 1)
""", needs="a single bit, or an axis of length one", breaks="the shape is lost"),
dict(id="C12-c", property="C12", file="CommDspy/rx/decoding.py",
  edits=[("            if chunk_idx > 0:\n                step_hamming +=", "            if chunk_idx > 0 or ii > 0:\n                step_hamming +=")],
  demo=HEAD+"""
G = {0: np.array([[1, 1, 1], [1, 0, 1]])}
rng = np.random.default_rng(1)
bad = 0
for t in range(40):
    rx = rng.integers(0, 2, 24)
    a = cdsp.rx.decoding_conv_viterbi(rx, G, 8)[0]
    for k in range(3):
        one = cdsp.rx.decoding_conv_viterbi(rx[8 * k:8 * k + 8], G, 8)[0]
        bad += not np.array_equal(one, a[4 * k:4 * k + 4])
sys.exit(0 if bad == 0 else 1)
""", needs="several blocks with errors", breaks="the metric of the previous block biases the next one"),
dict(id="C21-c", property="C21", file="CommDspy/rx/clock_data_recovery.py",
  edits=[("    if abs(step) < tol:\n", "    if abs(step) < tol * max(1, abs(pre_coef)):\n")],
  demo=HEAD+"""
r = np.array([100., -100, 100, 100, 100, 100]); s = r + np.array([0, .02, 0, 0, 0, 0.03])
p = np.dot(r[1:], s[:-1]) / 5; q = np.dot(r[:-1], s[1:]) / 5
sys.exit(0 if cdsp.rx.mueller_muller_step(s, r, tol=0.01) == np.sign(q - p) else 1)
""", needs="large amplitudes and a small imbalance", breaks="the tolerance becomes relative"),
dict(id="C24-e", property="C24", file="CommDspy/equalization_estimation.py",
  edits=[("        signal_mean = signal\n", "        signal_mean = signal - np.mean(signal)\n")],
  demo=HEAD+"""
K, P = cdsp.ConstellationEnum.NRZ, cdsp.PrbsEnum.PRBS9
b, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(P), np.ones(9, int), 511)
x = cdsp.tx.mapping(b, K)[:200] * 1.0
f, d, g, e, m = cdsp.equalization_estimation_prbs(P, x, K, 1, 1, 0, gray_coded=False)
sys.exit(0 if np.allclose(np.sort(f), [0, 0, 1], atol=1e-6) else 1)
""", needs="a signal shorter than one period", breaks="the mean of the signal is removed"),
dict(id="C30-d", property="C30", file="CommDspy/psa.py",
  edits=[("        norm_factor = np.sqrt(obw / effective_fs) / vrms\n", "        norm_factor = np.sqrt(obw / effective_fs) / np.std(signal_flat)\n")],
  demo=HEAD+"""
from CommDspy.psa import psa
x = 1 + np.cos(2 * np.pi * 0.1 * np.arange(4000))
f, a = psa(x, 1.0, rbw=.01, mode='dBc'); f, b = psa(x, 1.0, rbw=.01, mode='dBFs')
sys.exit(0 if np.allclose(a * 1.5, b) else 1)
""", needs="a signal with a DC component, relative to its power", breaks="the signal power leaves out the DC component"),
dict(id="C29-e", property="C29", file="example_simulation/simulation_parts/channel.py",
  edits=[("            self.ch_zi     = channel_data.ch_zi\n", "            self.ch_zi     = np.zeros_like(channel_data.ch_zi)\n")],
  demo=EX+"""
c = ch.Channel(d.ChannelData('rect', 1, 'isi_awgn', [1., .5], [1.], osr=1, snr=None, ch_zi=np.array([3.])))
y = c(np.zeros(3))
sys.exit(0 if y[0] == 3 else 1)
""", needs="a channel started from a given memory", breaks="the given memory is ignored"),
dict(id="C29-f", property="C29", file="example_simulation/simulation_parts/receiver.py",
  edits=[("np.arange(self.phase, len(signal_chunk), self.osr//self.sample_rate)", "np.arange(self.phase % (self.osr // self.sample_rate), len(signal_chunk), self.osr//self.sample_rate)")],
  demo=EX+"""
a = rx.Adc(d.AdcData(8, 0, 's', 4, 4, 2))
sys.exit(0 if len(a(np.arange(8.))) == 6 else 1)
""", needs="several samples per symbol and a phase beyond their distance", breaks="-"),
]
BUGS = [b for b in BUGS if b["breaks"] != "-"]
