"""Behaviour-preserving rewrites of the library, appended to its modules in a scratch copy; every check has to stay quiet.
refactors.py [-j N] [ids...]"""
import os, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {
"CommDspy/tx/prbs_generator.py": '''
    def prbs_generator(poly_coeff, init_seed, output_length):
        taps = [i for i, c in enumerate(poly_coeff) if c]
        n, line = len(poly_coeff), list(init_seed)[::-1]
        for _ in range(min(output_length, 2 ** n - 1)):
            line.append(sum(int(line[-1 - t]) for t in taps) % 2)
        out = np.array(line[n:], dtype=int)
        if output_length > len(out):
            out = np.resize(out, output_length)
        if output_length >= n:
            return out, out[::-1][:n].copy()
        return out, np.array(line[::-1][:n])
''',
"CommDspy/tx/prbs_iterator.py": '''
    class PrbsIterator(PrbsIterator):
        def __next__(self):
            bit = int(np.sum(np.asarray(self.poly_coeff) * np.asarray(self.seed))) & 1
            self.seed_prev, self.seed = self.seed, np.append(bit, self.seed[:len(self.seed) - 1])
            return bit
''',
"CommDspy/tx/bin2symbol.py": '''
    def bin2symbol(bin_mat, num_of_symbols, bit_order_inv=False, inv_msb=False, inv_lsb=False, pn_inv=False):
        k = int(num_of_symbols).bit_length() - 1
        if 2 ** k != num_of_symbols or k < 1:
            raise ValueError('not a power of two')
        v = np.ravel(bin_mat).astype(int)
        if k == 1:
            return v ^ 1 if pn_inv else v.copy()
        out = np.zeros(len(v) // k, dtype=int)
        for i in range(k):
            src = k - 1 - i if bit_order_inv else i
            b = v[src:len(out) * k:k]
            flip = int(bool(pn_inv)) ^ (int(bool(inv_msb)) if i == k - 1 else 0) ^ (int(bool(inv_lsb)) if i == 0 else 0)
            out = out + ((b ^ flip) << i)
        return out
''',
"CommDspy/rx/symbol2bin.py": '''
    def symbol2bin(symbol_mat, num_of_symbols, bit_order_inv=False, inv_msb=False, inv_lsb=False, pn_inv=False):
        k = int(np.log2(num_of_symbols))
        out = []
        for s in np.ravel(symbol_mat):
            b = [(int(s) >> i) & 1 for i in range(k)]
            if pn_inv:
                b = [1 - x for x in b]
            if k > 1:
                if inv_msb:
                    b[-1] ^= 1
                if inv_lsb:
                    b[0] ^= 1
                if bit_order_inv:
                    b = b[::-1]
            out += b
        return np.array(out, dtype=int)
''',
"CommDspy/tx/mapping.py": '''
    import numpy as np
    def mapping(signal, constellation, full_scale=False, levels=None, pn_inv=False):
        lv = np.asarray(get_levels(constellation, full_scale) if levels is None else levels)
        if len(lv) != len(get_levels(constellation)):
            raise ValueError('levels')
        out = np.take(lv, signal)
        return np.negative(out) if pn_inv else out
''',
"CommDspy/rx/demapping.py": '''
    def demapping(signal, constellation, full_scale=False, pn_inv=False):
        lv = get_levels(constellation, full_scale=full_scale)
        s = -np.asarray(signal) if pn_inv else np.asarray(signal)
        mids = (lv[1:] + lv[:-1]) / 2
        return np.searchsorted(mids, s)
''',
"CommDspy/rx/slicer.py": '''
    def slicer(slicer_in_mat, levels=None):
        lv = np.array([-3., -1, 1, 3]) if levels is None else np.asarray(levels, dtype=float)
        x = np.asarray(slicer_in_mat)
        idx = np.searchsorted((lv[1:] + lv[:-1]) / 2, x, side='right')     # ties go up
        return lv[idx]
''',
"CommDspy/rx/quantiztion.py": '''
    def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
        lim = {'u': (0, 2 ** total_bits - 1), 's': (-2 ** (total_bits - 1), 2 ** (total_bits - 1) - 1),
               'ss': (1 - 2 ** (total_bits - 1), 2 ** (total_bits - 1) - 1)}
        if fix_point_type not in lim:
            raise ValueError('type')
        step = 2.0 ** -frac_bits
        return np.clip(np.rint(np.asarray(signal) / step), *lim[fix_point_type]) * step
''',
"CommDspy/rx/ffe_dfe_model.py": '''
    def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, osr=1, phase=0, zi_ffe=None, zi_dfe=None):
        f = np.asarray([1] if ffe_taps is None else ffe_taps)
        x = np.asarray(input_signal)
        nf = len(f)
        if nf == 1 and dfe_taps is None:
            return x * f[0]
        if zi_ffe is not None and len(zi_ffe) not in (nf, nf - 1):
            raise ValueError('zi_ffe')
        if dfe_taps is not None and zi_dfe is not None and len(zi_dfe) != len(dfe_taps):
            raise ValueError('zi_dfe')
        past = np.zeros(nf - 1) if zi_ffe is None else np.asarray(zi_ffe)[len(zi_ffe) - nf + 1:]
        line = np.concatenate([past, x])
        ff = np.array([np.sum(f * line[i:i + nf][::-1]) for i in range(len(x))])
        tail = line[len(line) - nf:]
        if dfe_taps is None:
            return ff, tail
        mem = np.zeros(len(dfe_taps)) if zi_dfe is None else np.array(zi_dfe, dtype=float)
        out, dec = np.empty(len(x)), np.empty(len(x))
        half = osr // 2
        for i in range(len(x)):
            out[i] = ff[i] - sum(a * b for a, b in zip(mem, dfe_taps))
            dec[i] = slicer(out[i], levels)
            if (i - half - phase) % osr == 0 and i >= half:
                mem = np.append(dec[i - half], mem)[:len(mem)]
        return (out, mem) if nf == 1 else (out, tail, mem)
''',
"CommDspy/rx/lock_pattern.py": '''
    def _lock(pattern, ref, sig):
        n = len(pattern)
        m = min(n, len(sig))
        two = np.concatenate([ref, ref])
        xc = np.array([np.sum(two[k:k + m] * sig[:m]) for k in range(2 * n - m + 1)])
        k = int(np.argmax(xc)) % n
        return np.roll(pattern, -k), xc
    def lock_pattern_to_signal(pattern, signal):
        pattern, signal = np.asarray(pattern), np.asarray(signal)
        return _lock(pattern, pattern, signal.astype(int) if signal.dtype.kind in 'iub' else signal)
    def lock_pattern_to_signal_binary(pattern, signal):
        pattern, signal = np.asarray(pattern), np.asarray(signal)
        return _lock(pattern, np.where(pattern > 0, 1, -1), np.where(signal > 0, 1, -1))
''',
"CommDspy/tx/coding.py": '''
    def coding_differential(pattern, constellation=ConstellationEnum.PAM4):
        m = len(get_levels(constellation))
        return (np.cumsum(np.ravel(pattern), dtype=np.int64) % m).reshape(np.shape(pattern))
    def coding_manchester(pattern):
        check_binary(pattern)
        p = np.asarray(pattern).astype(int)
        return np.stack([p, 1 - p], axis=-1).reshape(p.shape[:-1] + (2 * p.shape[-1],))
    def coding_bipolar(pattern):
        check_binary(pattern)
        out, nxt = np.ones(np.size(pattern), dtype=int), 0
        for i, b in enumerate(np.ravel(pattern)):
            if b:
                out[i], nxt = nxt, 2 - nxt
        return out.reshape(pattern.shape)
    def coding_mlt3(pattern):
        check_binary(pattern)
        return np.array([0, 1, 2, 1])[np.cumsum(np.ravel(pattern), dtype=np.int64) % 4].reshape(pattern.shape)
    def coding_differential_manchester(pattern):
        check_binary(pattern)
        out, lv = [], 1
        for b in np.ravel(pattern):
            lv = 1 - lv
            out.append(lv)
            if not b:
                lv = 1 - lv
            out.append(lv)
        return np.array(out, dtype=int).reshape(pattern.shape[:-1] + (2 * pattern.shape[-1],))
    def coding_linear(pattern, G):
        check_binary(pattern)
        check_binary(G)
        k, n = G.shape
        out = []
        for i in range(0, len(pattern), k):
            w = np.zeros(n, dtype=int)
            for j, b in enumerate(pattern[i:i + k]):
                if b:
                    w = w ^ G[j].astype(int)
            out.append(w)
        return np.concatenate(out) if out else np.zeros(0, dtype=int)
''',
"CommDspy/rx/decoding.py": '''
    def decoding_differential(pattern, constellation=ConstellationEnum.PAM4):
        v = np.ravel(pattern).astype(int)
        return (np.diff(v, prepend=0) % len(get_levels(constellation))).reshape(pattern.shape)
    def decoding_manchester(pattern):
        check_binary(pattern)
        v = np.asarray(pattern).astype(float)
        return (v[..., ::2] - v[..., 1::2] + 1) / 2
    def decoding_bipolar(pattern, error_detection=False):
        v = np.ravel(pattern).astype(int) - 1
        out = np.abs(v).astype(float)
        if error_detection:
            idx = np.flatnonzero(v)
            for a, b in zip(idx[:-1], idx[1:]):
                if v[a] == v[b]:
                    out[a] = out[b] = v[a] / 2
        return out.reshape(np.shape(pattern))
    def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None, error_prob=False):
        check_valid_conv(pattern, G, feedback, use_feedback)
        n_out = G[0].shape[0]
        t = Trellis(G, feedback, use_feedback)
        out, pe = [], []
        for i in range(0, len(pattern) - tb_len + 1, tb_len):
            best = {tuple(s): (0, ()) for s in t.states}
            for j in range(i, i + tb_len // n_out * n_out, n_out):
                nxt = {}
                for (u, s), (c, s2) in t.trellis.items():
                    if s in best:
                        d = best[s][0] + sum(int(a) != int(b) for a, b in zip(c, pattern[j:j + n_out]))
                        if s2 not in nxt or d <= nxt[s2][0]:
                            nxt[s2] = (d, best[s][1] + tuple(u))
                best = nxt
            m = min(v[0] for v in best.values())
            n = sum(v[0] == m for v in best.values())
            pe.append(0 if n == 1 else 1 / n)
            last = [k for k, v in best.items() if v[0] == m][-1]
            out += best[last][1]
        out = np.array(out, dtype=int)
        last = [tuple(s) for s in t.states].index(last)
        return (out, last, np.array(pe, dtype=float)) if error_prob else (out, last)
    def decoding_mlt3(pattern):
        v = np.ravel(pattern).astype(int)
        out = np.abs(np.diff(v, prepend=0))
        return out.reshape(pattern.shape)
''',
"CommDspy/rx/clock_data_recovery.py": '''
    def mueller_muller_step(signal_chunk, reference_signal, pre_weight=1, post_weight=1, tol=1e-3):
        x, r = np.asarray(signal_chunk, float), np.asarray(reference_signal, float)
        d = post_weight * np.mean(r[:-1] * x[1:]) - pre_weight * np.mean(r[1:] * x[:-1])
        return 0 if abs(d) < tol else (1 if d > 0 else -1)
''',
"CommDspy/rx/checker.py": '''
    def prbs_checker(prbs_type, data_in, init_lock, loss_th=100, prbs_seq=None):
        n = 2 ** prbs_type.value - 1
        if prbs_seq is None:
            prbs_seq = prbs_generator(get_polynomial(prbs_type), np.ones(prbs_type.value, dtype=int), n)[0]
        if not init_lock:
            prbs_seq = lock_pattern_to_signal_binary(prbs_seq, data_in)[0]
        err = np.array([int(b) != int(prbs_seq[i % len(prbs_seq)]) for i, b in enumerate(data_in)], dtype=bool)
        bad = int(np.count_nonzero(err))
        return bad >= loss_th, len(err) - bad, err
''',
"CommDspy/rx/least_mean_squares.py": '''
    def _compute_derivatives(input_vec, reference_vec, ffe_tap_idx, dfe_tap_idx, e_n):
        N = len(input_vec)
        f = [0.5 * np.mean([e_n[n] * input_vec[n - i] for n in range(N) if 0 <= n - i < N]) for i in ffe_tap_idx]
        d = [-0.5 * np.mean([e_n[n] * reference_vec[n - j] for n in range(N) if 0 <= n - j < N]) for j in dfe_tap_idx]
        return np.array(f, dtype=float), np.array(d, dtype=float)
''',
"CommDspy/eye_diagram.py": '''
    def eye_diagram(signal, osr_in, osr_diag, fs_value=1, quantization=256, logscale=False):
        s = signal if osr_in >= osr_diag else digital_oversample(signal, osr=osr_diag // osr_in, order=osr_in, method='sinc')[0]
        edges = np.linspace(-fs_value, fs_value, quantization + 1)
        cols = [np.histogram(np.asarray(s)[k::osr_diag], bins=edges)[0] for k in range(osr_diag)]
        eye = np.tile(np.array(cols).T.astype(float), (1, 2))
        return (np.log10(eye + 0.1) if logscale else eye), np.linspace(-fs_value, fs_value, quantization)
''',
"CommDspy/digital_delay.py": '''
    def dig_delay_lagrange_coeffs(n, alpha, forward=True):
        idx = _get_indices(n, forward)
        return np.array([np.prod([(alpha - j) / (i - j) for j in idx if j != i]) for i in idx])
    def digital_oversample(signal_vec, osr, order, method, beta=0):
        x = np.asarray(signal_vec)
        n = len(x) - order
        pre = order // 2
        out = np.zeros(n * osr)
        for k in range(osr):
            c = _get_dd_coeffs(method, order, k / osr, beta=beta)
            out[k::osr] = x[pre:pre + n] if k == 0 else [np.dot(c, x[i:i + order + 1]) for i in range(n)]
        return out, np.arange(n * osr) / osr, np.arange(n + 1)
''',
"CommDspy/misc/help_classes.py": '''
    class Filter(Filter):
        def _process(self, x):
            past = [x] + list(self._z_fir)[:len(self.b) - 1]
            acc = sum(c * v for c, v in zip(self.b, past)) - sum(c * v for c, v in zip(self.a[1:], self._z_iir))
            y = acc / self.a[0]
            self._z_fir = deque(past, maxlen=len(self.b))
            self._z_iir.appendleft(y)
            return y
    class FilterTII(FilterTII):
        def _process(self, x):
            z = list(self._z) + [0]
            y = (self.b[0] * x + z[0]) / self.a[0]
            for k in range(1, len(z)):
                z[k - 1] = (self.b[k] * x if k < len(self.b) else 0) + z[k] - (self.a[k] * y if k < len(self.a) else 0)
            self._z = z[:-1]
            return y
''',
"CommDspy/misc/ml_decoding.py": '''
    def ml_decoding(permutations, codebook, pattern_block, error_prob):
        out, pe = [], []
        for w in pattern_block:
            d = np.count_nonzero(codebook != w, axis=1)
            best = np.flatnonzero(d == d.min())
            out.append(permutations[best[-1]])               # another of the nearest
            pe.append(0 if d.min() == 0 else 1 / len(best))
        out = np.concatenate(out) if out else np.zeros(0, dtype=int)
        return (out, np.array(pe)) if error_prob else out
''',
"CommDspy/channel_estimation.py": None,
"CommDspy/channel/pulse_shaping.py": '''
    _shape0 = pulse_shape
    def pulse_shape(signal, osr=1, span=1, pulse='rect', beta=0.5, rj_sigma=0.0, zi=None):
        if not np.isclose(rj_sigma, 0):
            return _shape0(signal, osr, span, pulse, beta, rj_sigma, zi)
        h = _get_pulse(pulse, osr, span, beta)
        m = osr * span * 2 - 1
        z = np.zeros(m) if zi is None else np.asarray(zi)
        if len(z) != m:
            raise ValueError('memory')
        full = np.zeros(len(signal) * osr + m)
        for i, s in enumerate(signal):
            full[i * osr:i * osr + len(h)] += s * h
        full[:m] += z
        return full[:len(signal) * osr], full[len(signal) * osr:]
''',
"CommDspy/channel/additive_noise_functions.py": '''
    def awgn(signal, snr):
        p = np.mean(np.abs(signal) ** 2) * 10 ** (-snr / 10)
        return signal + np.sqrt(p) * np.random.standard_normal(np.shape(signal))
''',
"CommDspy/misc/least_squares.py": '''
    def ols(a_mat, b):
        a_mat = np.asarray(a_mat, dtype=float)
        q, r = np.linalg.qr(a_mat)
        x = np.linalg.solve(r, q.T @ b) if a_mat.shape[0] >= a_mat.shape[1] and np.linalg.matrix_rank(a_mat) == a_mat.shape[1] else np.linalg.pinv(a_mat) @ b
        return x, np.array([np.sum((a_mat @ x - b) ** 2)])
    def ridge_regression(a_mat, b, reg_lambda):
        a_mat = np.asarray(a_mat, dtype=float)
        n = a_mat.shape[1]
        x = np.linalg.solve(a_mat.T @ a_mat + reg_lambda * np.eye(n), a_mat.T @ b)
        return x, np.sum((a_mat @ x - b) ** 2)
''',
"CommDspy/auxiliary.py": '''
    def upsample(signal, osr):
        s = np.ravel(signal)
        out = np.zeros(len(s) * osr, dtype=np.asarray(signal).dtype)
        out[::osr] = s
        return out
    def power(signal):
        s = np.asarray(signal, dtype=complex if np.iscomplexobj(signal) else float)
        return float(np.vdot(s, s).real) / s.size
    def rms(signal):
        return np.sqrt(power(signal))
''',
"CommDspy/psa.py": None,
"example_simulation/simulation_parts/receiver.py": '''
    class Adc(Adc):
        def __call__(self, signal_chunk):
            step = self.osr // self.sample_rate
            return cdsp.rx.quantize(signal_chunk[self.phase::step], self.total_bits, 0, self.quant_type) / 2.0 ** self.frac_bits
    class FfeDfe(FfeDfe):
        def __call__(self, x):
            kw = dict(ffe_taps=self.ffe_vec, levels=self.levels)
            if len(self.ffe_vec) > 1:
                kw['zi_ffe'] = self.zi_ffe
            if self.dfe_taps:
                kw.update(dfe_taps=self.dfe_vec, zi_dfe=self.zi_dfe)
            r = cdsp.rx.ffe_dfe(x, **kw)
            if not isinstance(r, tuple):
                return r
            y, rest = r[0], list(r[1:])
            if len(self.ffe_vec) > 1:
                self.zi_ffe = rest.pop(0)
            if self.dfe_taps:
                self.zi_dfe = rest.pop(0)
            return y
    class Receiver(Receiver):
        def _delayed(self):
            d = self.ffe_dfe.ffe_precursors
            both = np.append(self.adc_out_last, self.adc_out)
            return both[len(both) - d - len(self.adc_out):len(both) - d]
        def _lms(self, x):
            r = cdsp.rx.ddlms_grad(x, self.slicer_in * self.dig_gain, self.levels, ffe_tap_idx=self.lms_ffe_idx, dfe_tap_idx=self.lms_dfe_idx)
            done = abs(r[0] - self.lms_mse_last) < 10 ** (self.lms_mse_diff_th / 20)
            self.lms_mse_last = r[0]
            self.ffe_dfe.ffe_vec = self.ffe_dfe.ffe_vec - r[1] * self.lms_lr
            if len(r) > 2:
                self.ffe_dfe.dfe_vec = self.ffe_dfe.dfe_vec - r[2] * self.lms_lr
            return not done
        def digital_stage(self):
            self.slicer_in_last, self.slicer_out_last = self.slicer_in, self.slicer_out
            self.slicer_in = self.ffe_dfe(self.adc_out) * self.dig_gain
            self.slicer_out = cdsp.rx.slicer(self.slicer_in, self.levels)
            if not self.converge:
                return
            x = self._delayed()
            self.dig_gain += 100 * self.lms_lr * (cdsp.power(self.levels) - cdsp.power(self.slicer_in))
            if self.converge_lms:
                self.converge_lms = self._lms(x)
            if self.converge_cdr:
                step = cdsp.rx.mueller_muller_step(x, self.slicer_out, tol=1e-3)
                self.phase = self.adc.phase = (self.phase + step) % self.max_pase
                self.converge_cdr = step != 0
            if not (self.converge_cdr or self.converge_lms):
                self.converge, self.converge_done = False, True
''',
"example_simulation/simulation_parts/simulation.py": '''
    class Simulation(Simulation):
        def gather_memory(self):
            m, l = self.Memory, self.Link
            for name, part in (('prbs_chunk', l.Tx), ('encoded_prbs_chunk', l.Tx), ('mapped_prbs_chunk', l.Tx)):
                getattr(m, 'tx_' + name + 's').append(np.array(getattr(part, name)))
            m.ch_out_chunks.append(np.array(l.Ch.ch_out))
            for name in ('ctle_out', 'adc_out', 'slicer_in', 'slicer_out'):
                getattr(m, 'rx_' + name + '_chunks').append(np.array(getattr(l.Rx, name)))
            m.rx_demapped_chunks.append(np.array(l.Rx.demapped_chunk))
            m.rx_decoded_chunks.append(np.array(l.Rx.decoded_chunk))
            m.cdr_phase_vec.append(l.Rx.phase)
            m.lms_mse_vec.append(l.Rx.lms_mse_last)
            m.lms_ffe_vecs.append(np.array(l.Rx.ffe_dfe.ffe_vec))
            m.lms_dfe_vecs.append(np.array(l.Rx.ffe_dfe.dfe_vec))
''',
"example_simulation/simulation_parts/transmitter.py": '''
    class PrbsGen(PrbsGen):
        def __next__(self):
            chunk, new = cdsp.tx.prbs_gen(self.gen_poly, self.seed, self.chunk_size)
            self.seed_prev, self.seed = self.seed, new
            return chunk
    class Encoder(Encoder):
        def __call__(self, x):
            t = cdsp.tx
            for on, f in ((self.coding_bin_differential, lambda v: t.coding_differential(v, cdsp.ConstellationEnum.OOK)), (self.coding_manchester, t.coding_manchester),
                          (self.coding_bipolar, t.coding_bipolar), (self.coding_mlt3, t.coding_mlt3), (self.coding_diff_manchester, t.coding_differential_manchester),
                          (self.coding_linear, lambda v: t.coding_linear(v, self.G)), (self.coding_conv, lambda v: t.coding_conv(v, self.G, self.feedback, self.use_feedback))):
                x = f(x) if on else x
            whole = np.isclose(int(self.bits_per_symbol), self.bits_per_symbol)
            if whole and self.bits_per_symbol > 1:
                x = t.bin2symbol(x, 2 ** self.bits_per_symbol, self.bit_order_inv, self.inv_msb, self.inv_lsb, self.pn_inv)
            elif self.pn_inv:
                x = (1 if whole else 2) - x
            x = t.coding_differential(x, self.constellation) if self.coding_differential else x
            return t.coding_gray(x, self.constellation) if self.coding_gray else x
''',
"example_simulation/simulation_parts/channel.py": '''
    class Channel(Channel):
        def __call__(self, signal_chunk):
            y, self.pulse_zi = cdsp.channel.pulse_shape(signal_chunk, self.osr, self.pulse_span, self.pulse, self.rolloff, self.pulse_rj_sigma, self.pulse_zi)
            if self.ch_type == 'awgn':
                y = cdsp.channel.awgn(y, self.snr)
            elif self.ch_type == 'isi_awgn':
                y, self.ch_zi = cdsp.channel.awgn_channel(y, self.fir_coefs, self.iir_coefs, snr=self.snr, zi=self.ch_zi)
            self.ch_out = y
            return y
''',
}

def copy():
    d = tempfile.mkdtemp(prefix="refac_", dir="/tmp")
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    for f, t in R.items():
        if t:
            with open(d + "/repo/" + f, "a") as o:
                o.write("\n\n" + textwrap.dedent(t))
    return d

def main():
    a = sys.argv[1:]
    j = 3
    if a[:1] == ["-j"]:
        j, a = int(a[1]), a[2:]
    ids = a or ["C%02d" % i for i in range(1, 34)]
    d = copy()
    try:
        def run(i):
            e = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_EVID=d + "/evid")
            p = subprocess.run([sys.executable, ROOT + "/check.py", i], env=e, cwd=ROOT, capture_output=True, text=True)
            print(i, p.returncode, "" if p.returncode == 0 else (p.stdout + p.stderr)[-1500:], flush=True)
            return p.returncode
        with ThreadPoolExecutor(j) as ex:
            r = list(ex.map(run, ids))
        print("quiet" if not any(r) else "ALARMS", len(r))
    finally:
        os.environ.get("KEEP") or shutil.rmtree(d)

main()
