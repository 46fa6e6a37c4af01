HEAD = "import numpy as np, sys\nimport CommDspy as cdsp\n"
BUGS = [
dict(id="C13-a", property="C13", file="CommDspy/rx/ffe_dfe_model.py",
  edits=[("return rx_ffe_out, np.concatenate([zi_ffe, input_signal])[-1*ffe_len:]", "return rx_ffe_out, input_signal[-1*ffe_len:]")],
  demo=HEAD+"""
x = np.array([1., 2, -1, 3, 0.5]); f = np.array([1., -.5, .25])
one, _ = cdsp.rx.ffe_dfe(x, f)
a, z = cdsp.rx.ffe_dfe(x[:1], f)
try:
    b, z = cdsp.rx.ffe_dfe(x[1:], f, zi_ffe=z)
except Exception:
    sys.exit(1)
sys.exit(0 if np.allclose(np.concatenate([a, b]), one) else 1)
""", needs="a chunk shorter than the forward filter, no feedback taps", breaks="the returned memory forgets the samples before the chunk"),
dict(id="C13-b", property="C13", file="CommDspy/rx/ffe_dfe_model.py",
  edits=[("if ii % osr == (phase +  osr // 2) % osr:", "if ii % osr == phase + osr // 2:")],
  demo=HEAD+"""
x = np.repeat([3., -3, 1, -1, 3], 4)
o, d = cdsp.rx.ffe_dfe(x, np.array([1.]), np.array([0.5]), osr=4, phase=3)
sys.exit(0 if d[0] != 0 else 1)
""", needs="an oversampled input and a sampling phase in the second half of the symbol", breaks="no decision ever reaches the feedback filter"),
dict(id="C13-c", property="C13", file="CommDspy/rx/ffe_dfe_model.py",
  edits=[("slicer_in[ii]     = rx_ffe_out_single - rx_dfe_out_single", "slicer_in[ii]     = rx_ffe_out_single - np.clip(rx_dfe_out_single, -8, 8)")],
  demo=HEAD+"""
x = np.array([3., 3, 3, 3]); d = np.array([2., 2.])
o, m = cdsp.rx.ffe_dfe(x, np.array([1.]), d, zi_dfe=np.array([3., 3.]))
sys.exit(0 if np.isclose(o[0], 3 - 12) else 1)
""", needs="feedback taps large enough that the feedback term exceeds 8", breaks="the feedback term saturates"),
dict(id="C14-a", property="C14", file="CommDspy/channel/pulse_shaping.py",
  edits=[("    sig_conv, zo = lfilter(pulse_vec, [1], sig_ups, zi=zi)\n", "    full = np.concatenate([np.convolve(sig_ups, pulse_vec), np.zeros(0)])\n    n    = min(len(zi), len(sig_ups))\n    full[:n] += zi[:n]\n    sig_conv, zo = full[:len(sig_ups)], full[len(sig_ups):]\n")],
  demo=HEAD+"""
x = np.array([1., -1, 3, -3, 1, 1])
one, _ = cdsp.channel.pulse_shape(x, osr=4, span=2, pulse='rcos')
out, z = [], None
for v in x:
    o, z = cdsp.channel.pulse_shape(np.array([v]), osr=4, span=2, pulse='rcos', zi=z); out.append(o)
sys.exit(0 if np.allclose(np.concatenate(out), one) else 1)
""", needs="chunks shorter than the pulse", breaks="the part of the memory that reaches beyond the chunk is dropped"),
dict(id="C14-b", property="C14", file="CommDspy/misc/help_classes.py",
  edits=[("            self._z_iir = deque(z_iir, maxlen=len(z_iir))\n", "            self._z_iir = deque(reversed(z_iir), maxlen=len(z_iir))\n")],
  demo=HEAD+"""
from CommDspy.misc.help_classes import Filter
b, a = [1.], [1., -.5, .25]
x = np.array([1., 2, 3, -1, 0, 2])
f = Filter(b, a); one = f(x)
g = Filter(b, a); h1 = g(x[:3])
g2 = Filter(b, a, z_fir=[3.], z_iir=[h1[2], h1[1]])
sys.exit(0 if np.allclose(g2(x[3:]), one[3:]) else 1)
""", needs="a filter with two or more feedback coefficients started from a given memory", breaks="the given output memory is used oldest first"),
dict(id="C14-c", property="C14", file="CommDspy/channel/additive_noise_functions.py",
  edits=[("    ch_out, zo = lfilter(b, a, signal, zi=zi)\n", "    ch_out, zo = lfilter(b, a, signal, zi=zi)\n    if len(signal) < len(zi):\n        zo = np.concatenate([zo[:len(signal)], np.zeros(len(zi) - len(signal))])\n")],
  demo=HEAD+"""
x = np.array([1., -1, 3, -3, 1, 1]); b = np.array([1, .5, .25, .125, .3])
one, _ = cdsp.channel.awgn_channel(x, b, [1])
out, z = [], None
for v in x:
    o, z = cdsp.channel.awgn_channel(np.array([v]), b, [1], zi=z); out.append(o)
sys.exit(0 if np.allclose(np.concatenate(out), one) else 1)
""", needs="chunks shorter than the channel memory", breaks="part of the memory is cleared"),
dict(id="C15-a", property="C15", file="CommDspy/channel/pulse_shaping.py",
  edits=[("    neqb = ~np.isclose(np.abs(t) - 1/(4*beta), np.zeros_like(t))\n", "    neqb = np.abs(t) != 1/(4*beta)\n")],
  demo=HEAD+"""
from CommDspy.channel.pulse_shaping import rrc_pulse
for osr in range(2, 17):
    for k in range(1, 3 * osr):
        beta = osr / (4.0 * k)
        if 0 < beta <= 1:
            p = rrc_pulse(osr, 3, beta)
            t = np.arange(-3 * osr, 3 * osr) / osr
            i = 3 * osr + k
            want = beta / np.sqrt(2) * ((1 + 2/np.pi)*np.sin(np.pi/(4*beta)) + (1 - 2/np.pi)*np.cos(np.pi/(4*beta)))
            if not np.isclose(p[i], want, atol=1e-6): sys.exit(1)
sys.exit(0)
""", needs="a roll-off whose singular instant is on the sample grid but not exact in floating point", breaks="the pulse has a wrong or infinite value at the removable singularity"),
dict(id="C15-b", property="C15", file="CommDspy/channel/pulse_shaping.py",
  edits=[("    t = np.arange(-1 * (time_len // 2), (time_len // 2), 1) / osr\n", "    t = np.linspace(-1 * span, span, time_len, endpoint=osr > 16)\n")],
  demo=HEAD+"""
x = np.array([1., -1, 3, -3, 1])
y, _ = cdsp.channel.pulse_shape(x, osr=20, span=2, pulse='sinc')
sys.exit(0 if np.allclose(y[40::20], x[:3]) else 1)
""", needs="an oversampling ratio above 16", breaks="the pulse is not centred on a sample any more, symbols leak into each other"),
dict(id="C16-a", property="C16", file="CommDspy/rx/lock_pattern.py",
  edits=[("    start_idx = np.argmax(xcorr) % pattern_len\n    # start_idx = np.argmax(np.abs(xcorr))", "    start_idx = np.argmax(np.abs(xcorr)) % pattern_len")],
  demo=HEAD+"""
h = np.array([3., 1, -1, 3, 1]); p = np.concatenate([h, -h])
ok = True
for k in range(10):
    s = np.roll(p, -k)
    q, _ = cdsp.rx.lock_pattern_to_signal(p, s)
    ok = ok and np.allclose(q, s)
sys.exit(0 if ok else 1)
""", needs="a pattern whose second half is the negated first half", breaks="the anti-phase alignment can be chosen"),
dict(id="C16-b", property="C16", file="CommDspy/rx/lock_pattern.py",
  edits=[("    data_len    = len(signal)\n    pattern_rep = np.tile(pattern, 2)\n    corr_type", "    data_len    = np.min((len(signal), 64))\n    pattern_rep = np.tile(pattern, 2)\n    corr_type")],
  demo=HEAD+"""
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS9); s, _ = cdsp.tx.prbs_gen(p, np.ones(9, int), 511)
r = np.roll(s, -200).copy(); r[:25] = 1 - r[:25]
q, _ = cdsp.rx.lock_pattern_to_signal_binary(s, r)
sys.exit(0 if np.array_equal(q, np.roll(s, -200)) else 1)
""", needs="a burst of errors in the first 64 bits", breaks="locking fails although far fewer than a quarter of the bits are wrong"),
dict(id="C17-a", property="C17", file="CommDspy/rx/checker.py",
  edits=[("    for seed_start in range(prbs_type.value):\n", "    for seed_start in range(prbs_type.value - 1):\n")],
  demo=HEAD+"""
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7); s, _ = cdsp.tx.prbs_gen(p, np.ones(7, int), 120)
# only the last candidate start is error free
for pat in range(1, 128):
    r = s.copy(); r[:7] ^= np.array([pat >> i & 1 for i in range(7)])
    if r[5] == s[5]: continue
    l, c, e = cdsp.rx.prbs_checker_econ(cdsp.PrbsEnum.PRBS7, r, 10)
    if r[5] != s[5] and l and np.array_equal(r[6:13], s[6:13]): sys.exit(1)
sys.exit(0)
""", needs="received bits whose first seeds are all hit by errors except the last candidate", breaks="lock is declared lost although a candidate start keeps it"),
dict(id="C17-b", property="C17", file="CommDspy/rx/checker.py",
  edits=[("    prbs_rep = int(np.ceil(len(data_in) / (2**len(init_seed)-1) ))\n", "    prbs_rep = int(np.round(len(data_in) / (2**len(init_seed)-1) + 0.5))\n"), ("    error_bit           = data_in != prbs_seq\n", "    error_bit           = (np.asarray(data_in, dtype=np.int8) - prbs_seq[:len(data_in)]) > 0 if len(data_in) > 4 * prbs_len else data_in != prbs_seq\n")],
  demo=HEAD+"""
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7); s, _ = cdsp.tx.prbs_gen(p, np.ones(7, int), 127 * 6)
r = s.copy(); i = int(np.argmax(s == 1)); r[i] = 0
l, c, e = cdsp.rx.prbs_checker(cdsp.PrbsEnum.PRBS7, r, True)
sys.exit(0 if c == len(r) - 1 else 1)
""", needs="a stream of more than four periods with ones received as zeros", breaks="only zeros received as ones are counted"),
dict(id="C19-a", property="C19", file="CommDspy/digital_delay.py",
  edits=[("        ii_vec = np.arange(-(n // 2) - 1, n // 2 + 1, 1)\n", "        ii_vec = np.arange(-(n // 2), n // 2 + 2, 1)\n")],
  demo=HEAD+"""
c = cdsp.dig_delay_lagrange_coeffs(3, 0.0, forward=False)
sys.exit(0 if np.allclose(c, [0, 0, 1, 0]) else 1)
""", needs="an odd order with forward=False", breaks="the zero-delay coefficient is in the wrong place"),
dict(id="C19-b", property="C19", file="CommDspy/digital_delay.py",
  edits=[("    alphas           = np.arange(1, osr) / osr\n", "    alphas           = np.round(np.arange(1, osr) / osr, 3)\n")],
  demo=HEAD+"""
x = np.arange(12) ** 2.0
o, t, _ = cdsp.digital_oversample(x, 3, 2, 'lagrange')
sys.exit(0 if np.allclose(o, (t + 1) ** 2, atol=1e-9) else 1)
""", needs="an oversampling factor whose fractions have more than three decimals (3, 6, 7, ...)", breaks="interpolation points are slightly off"),
dict(id="C20-a", property="C20", file="CommDspy/eye_diagram.py",
  edits=[("        eye_d[:, ii], _ = np.histogram(sig_mat[:, ii], bins=quantization, range=[-1*fs_value, fs_value])\n", "        idx = np.floor((sig_mat[:, ii] + fs_value) / (2 * fs_value) * quantization).astype(int)\n        idx = idx[(idx >= 0) & (idx < quantization)]\n        eye_d[:, ii] = np.bincount(idx, minlength=quantization)\n")],
  demo=HEAD+"""
e, a = cdsp.eye_diagram(np.array([1., -1, 1, 1]), 2, 2, 1, 8)
sys.exit(0 if e.sum() == 8 else 1)
""", needs="samples exactly at the positive full-scale value", breaks="they are not counted"),
dict(id="C21-a", property="C21", file="CommDspy/rx/clock_data_recovery.py",
  edits=[("    post_coef = reference_post.dot(signal_chunk[1:]) / (len(reference_signal) - 1)\n", "    post_coef = reference_post.dot(signal_chunk[1:]) / len(reference_signal)\n")],
  demo=HEAD+"""
r = np.array([1., -1, -1, 1]); s = np.array([1., 1, 0, 0])
def c(x): 
    pre = r[1:].dot(x[:-1]); post = r[:-1].dot(x[1:]); return pre, post
rng = np.random.default_rng(0)
for _ in range(20000):
    r = rng.choice([-1., 1], 4); x = rng.integers(-3, 4, 4).astype(float)
    pre, post = c(x)
    if pre == post and cdsp.rx.mueller_muller_step(x, r) != 0: sys.exit(1)
sys.exit(0)
""", needs="pre- and postcursor that are (nearly) equal in a short chunk", breaks="the averages use different counts, the step is biased"),
dict(id="C22-a", property="C22", file="CommDspy/rx/least_mean_squares.py",
  edits=[("        stop_idx = min([N, N + ii])  # stop is exclusive in python\n", "        stop_idx = N if ii >= -1 else N + ii\n")],
  demo=HEAD+"""
x = np.array([1., 2, 3, 4]); y = np.array([1.5, -1, 2, 3.5]); lv = np.array([-3., -1, 1, 3])
e = y - cdsp.rx.slicer(y, lv)
try:
    m, g = cdsp.rx.ddlms_grad(x, y, lv, np.array([-1]))
except Exception:
    sys.exit(1)
sys.exit(0 if np.isclose(g[0], .5 * np.mean(e[:-1] * x[1:])) else 1)
""", needs="the precursor tap -1", breaks="the gradient of the first precursor raises or wraps around"),
dict(id="C22-b", property="C22", file="CommDspy/rx/least_mean_squares.py",
  edits=[("    grad_dfe      = np.zeros_like(dfe_tap_idx, dtype=float)\n", "    grad_dfe      = np.zeros_like(dfe_tap_idx, dtype=float)\n    dfe_tap_idx   = np.sort(dfe_tap_idx)\n"), ("    grad_ffe      = np.zeros_like(ffe_tap_idx, dtype=float)\n", "    grad_ffe      = np.zeros(len(ffe_tap_idx))\n")],
  demo=HEAD+"""
rng = np.random.default_rng(1); x = rng.normal(size=40); y = rng.normal(size=40); lv = np.array([-1., 1])
m, a = cdsp.rx.ddlms_grad(x, y, lv, dfe_tap_idx=np.array([1, 3])); m, b = cdsp.rx.ddlms_grad(x, y, lv, dfe_tap_idx=np.array([3, 1]))
sys.exit(0 if np.allclose(a, b[::-1]) else 1)
""", needs="feedback taps requested in a non-increasing order", breaks="the gradients come back in sorted order"),
dict(id="C23-a", property="C23", file="CommDspy/channel_estimation.py",
  edits=[("    signal_shift = np.mean(np.reshape(signal[:(prbs_len*reps)], [-1, prbs_len]), axis=0)\n", "    signal_shift = np.mean(np.reshape(signal[len(signal) - prbs_len*reps:], [-1, prbs_len]), axis=0)\n")],
  demo=HEAD+"""
from scipy.signal import lfilter
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7); s, _ = cdsp.tx.prbs_gen(p, np.ones(7, int), 127 * 4)
x = 2. * s - 1; y = lfilter([0.2, 1, .3], [1], x)[127:127 * 2 + 50]
h, e = cdsp.channel_estimation_prbs(cdsp.PrbsEnum.PRBS7, y, cdsp.ConstellationEnum.NRZ, channel_postcursor=3, channel_precursor=3, normalize=True)
sys.exit(0 if np.isclose(h[4], .3, atol=1e-6) and np.isclose(h[2], .2, atol=1e-6) else 1)
""", needs="a capture that is not a whole number of periods", breaks="the last samples are used instead of the first, they do not line up with the locked pattern"),
dict(id="C24-a", property="C24", file="CommDspy/equalization_estimation.py",
  edits=[("    dig_gain  = np.max(ffe)\n", "    dig_gain  = ffe[ffe_precursor] if ffe_precursor < len(ffe) // 2 else np.max(ffe)\n")],
  demo=HEAD+"""
rng = np.random.default_rng(0); x = rng.choice([-1., 1], 400); y = np.roll(x, 1) * .5 + .1 * x
f, d, g, l, m = cdsp.equalization_estimation(x, y, ffe_postcursor=5, ffe_precursor=2, normalize=True)
sys.exit(0 if np.isclose(np.max(f), 1) else 1)
""", needs="a main tap that is not at the nominal cursor position", breaks="normalisation divides by another tap"),
dict(id="C25-a", property="C25", file="CommDspy/channel/additive_noise_functions.py",
  edits=[("    ch_out = signal + np.random.normal(0, np.sqrt(noise_power), signal.shape)\n", "    noise  = np.random.normal(0, np.sqrt(noise_power), min(signal.size, 4096))\n    ch_out = signal + np.resize(noise, signal.shape)\n")],
  demo=HEAD+"""
n = cdsp.channel.awgn(np.ones(20000), 10) - 1
sys.exit(1 if np.allclose(n[:4000], n[4096:8096]) else 0)
""", needs="a signal longer than 4096 samples", breaks="the noise repeats, so it is not white"),
dict(id="C25-b", property="C25", file="CommDspy/channel/additive_noise_functions.py",
  edits=[("        ch_out = awgn(ch_out, snr)\n", "        ch_out = awgn(ch_out, snr) if len(ch_out) > 1 else ch_out + np.random.normal(0, 10 ** (-snr / 20), ch_out.shape)\n")],
  demo=HEAD+"""
e = np.array([cdsp.channel.awgn_channel(np.array([10.]), [1], [1], 10)[0][0] - 10 for _ in range(3000)])
sys.exit(0 if 8 < np.mean(e ** 2) < 12 else 1)
""", needs="chunks of a single sample", breaks="the noise power is not relative to the signal's power"),
dict(id="C26-a", property="C26", file="CommDspy/rx/ffe_dfe_model.py",
  edits=[("                dfe_memory = np.concatenate([np.array([slicer_out[idx]]), dfe_memory[:-1]]) if len(dfe_taps) > 1 else np.array([slicer_out[idx]])\n", "                dfe_memory[1:] = dfe_memory[:-1].copy()\n                dfe_memory[0]  = slicer_out[idx]\n")],
  demo=HEAD+"""
z = np.array([0., 0.])
cdsp.rx.ffe_dfe(np.array([3., 1, -1]), np.array([1.]), np.array([.1, .2]), zi_dfe=z)
sys.exit(0 if np.all(z == 0) else 1)
""", needs="feedback memory passed by the caller", breaks="the caller's memory array is overwritten"),
dict(id="C26-b", property="C26", file="CommDspy/rx/least_mean_squares.py",
  edits=[("    e_n = output_vec - reference_vec\n", "    e_n = np.subtract(output_vec, reference_vec, out=output_vec if output_vec.dtype == float and len(output_vec) > 256 else None)\n")],
  demo=HEAD+"""
y = np.linspace(-3, 3, 400); k = y.copy()
cdsp.rx.ddlms_grad(y.copy(), y, np.array([-3., -1, 1, 3]))
sys.exit(0 if np.array_equal(y, k) else 1)
""", needs="an output vector of more than 256 samples", breaks="the caller's output vector is overwritten with the errors"),
dict(id="C27-a", property="C27", file="CommDspy/rx/decoding.py",
  edits=[], demo="", needs="", breaks=""),
dict(id="C28-a", property="C28", file="CommDspy/rx/ctle_model.py",
  edits=[("    numerator_con   = Polynomial.fromroots([-1 * np.sign(zero) * zero for zero in zeros])\n", "    numerator_con   = Polynomial.fromroots([-1 * zero for zero in zeros])\n")],
  demo=HEAD+"""
a = cdsp.rx.get_ctle_filter([-1e9], [2e9, 3e9], -3, 10e9, 4); b = cdsp.rx.get_ctle_filter([1e9], [2e9, 3e9], -3, 10e9, 4)
sys.exit(0 if np.allclose(a[0], b[0]) else 1)
""", needs="a zero frequency given with a negative sign", breaks="the zero lands in the right half plane"),
dict(id="C29-a", property="C29", file="example_simulation/simulation_parts/transmitter.py",
  edits=[], demo="", needs="", breaks=""),
dict(id="C30-a", property="C30", file="CommDspy/psa.py",
  edits=[("        norm_factor = np.sqrt(obw / effective_fs) / fullscale\n", "        norm_factor = np.sqrt(obw / effective_fs) / fullscale ** 2\n")],
  demo=HEAD+"""
from CommDspy.psa import psa
n = np.arange(8000); x = np.sin(2 * np.pi * .1 * n)
f, a = psa(x, 1000., mode='dBFs', fullscale=1); f, b = psa(x, 1000., mode='dBFs', fullscale=2)
sys.exit(0 if np.allclose(a, 4 * b) else 1)
""", needs="the full-scale mode with a full scale other than 1", breaks="the scale of the spectrum"),
dict(id="C30-b", property="C30", file="CommDspy/psa.py",
  edits=[("    effective_fs = fs / 2 if np.all(np.isreal(signal)) and sb_mode == 'DSB' else fs\n", "    effective_fs = fs / 2 if not np.iscomplexobj(signal) and sb_mode == 'DSB' else fs\n")],
  demo=HEAD+"""
from CommDspy.psa import psa
n = np.arange(8000); x = np.sin(2 * np.pi * .1 * n)
f, a = psa(x, 1000., mode='dBm'); f2, b = psa(x.astype(complex), 1000., mode='dBm')
# same physical signal: the total over both side bands is the same
sys.exit(0 if np.isclose(b[f2 > 0].max() / a.max(), 0.25, rtol=.05) or np.isclose(b[f2 > 0].max() / a.max(), 0.5, rtol=.05) else 1)
""", needs="a real signal stored in a complex array", breaks="scale"),
]
BUGS = [b for b in BUGS if b["edits"]]
