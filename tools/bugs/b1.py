HEAD = "import numpy as np, sys\nimport CommDspy as cdsp\n"
BUGS = [
dict(id="C01-c", property="C01", file="CommDspy/tx/prbs_iterator.py",
  edits=[("self.seed_prev = self.seed\n", "self.seed_prev = self.seed if self.seed_prev is None else self.seed_prev\n")],
  demo=HEAD+"""
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7); it = iter(cdsp.tx.PrbsIterator(p, np.ones(7, int)))
next(it); s1 = it.get_seed().copy(); next(it)
sys.exit(0 if np.array_equal(it.get_prev_seed(), s1) else 1)
""", needs="at least two iterator steps and a look at the previous seed", breaks="the previous seed stays the initial one, so stepping back by one resumes the wrong stream"),
dict(id="C02-a", property="C02", file="CommDspy/auxiliary.py",
  edits=[("poly_coeff[[27, 30]] = 1", "poly_coeff[[26, 30]] = 1")],
  demo=HEAD+"""
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS31)
b, _ = cdsp.tx.prbs_gen(p, np.ones(31, int), 200)
h = np.concatenate([np.ones(31, int), b])
sys.exit(0 if all(h[i] == h[i-28] ^ h[i-31] for i in range(31, len(h))) else 1)
""", needs="the 31-bit type", breaks="PRBS31 uses x^31+x^27+1, not the standard (nor a maximal) polynomial"),

dict(id="C03-a", property="C03", file="CommDspy/tx/bin2symbol.py",
  edits=[("trimmed_bin = np.fliplr(trimmed_bin)\n        if inv_msb:", "trimmed_bin = np.fliplr(trimmed_bin)\n            inv_msb, inv_lsb = inv_lsb, inv_msb\n        if inv_msb:")],
  demo=HEAD+"""
b = np.array([0, 0, 1, 0, 1, 1])
kw = dict(bit_order_inv=True, inv_msb=True)
sys.exit(0 if np.array_equal(cdsp.rx.symbol2bin(cdsp.tx.bin2symbol(b, 4, **kw), 4, **kw), b) else 1)
""", needs="bit order inversion together with exactly one of the MSB/LSB flags", breaks="with the bit order inverted the MSB and LSB flags are exchanged when packing but not when unpacking"),
dict(id="C04-b", property="C04", file="CommDspy/auxiliary.py",
  edits=[("lvls = np.vstack((lvls, lvls[::-1]))", "lvls = np.vstack((lvls, lvls[::-1] if ii < 3 else np.roll(lvls, len(lvls) // 2, axis=0)[::-1]))")],
  demo=HEAD+"""
t = cdsp.get_gray_level_vec(16)
sys.exit(0 if all(bin(a ^ b).count('1') == 1 for a, b in zip(t, t[1:])) and sorted(t) == list(range(16)) else 1)
""", needs="a Gray table of at least 16 levels", breaks="labels of neighbouring levels differ in more than one bit at the fold of larger tables"),
dict(id="C05-a", property="C05", file="CommDspy/rx/slicer.py",
  edits=[("constellation_points = np.argmin(diff_mat, axis=1)", "constellation_points = np.sum(slicer_in_vec > np.min(levels) + (np.arange(len(levels) - 1) + 0.5) * (np.max(levels) - np.min(levels)) / max(len(levels) - 1, 1), axis=1)")],
  demo=HEAD+"""
lv = np.array([-3.0, -2.0, 1.0, 4.0])
sys.exit(0 if np.array_equal(cdsp.rx.slicer(np.array([-2.4, -0.6, 2.6]), lv), [-2, -2, 4]) else 1)
""", needs="levels that are not evenly spaced", breaks="decision thresholds assume an even spacing"),
dict(id="C06-a", property="C06", file="CommDspy/rx/quantiztion.py",
  edits=[("levels = levels[1:] - 2**(total_bits - 1)", "levels = levels[:-1] - (2**(total_bits - 1) - 1) if total_bits < 8 else levels - 2**(total_bits - 1)")],
  demo=HEAD+"""
sys.exit(0 if cdsp.rx.quantize(np.array([-500.0]), 8, 0, 'ss')[0] == -127 else 1)
""", needs="the symmetric type with eight bits or more and a large negative value", breaks="the symmetric grid gains the extra negative value for wide words"),

dict(id="C01-a", property="C01", file="CommDspy/tx/prbs_generator.py",
  edits=[("seed = np.flip(sequence[-1*poly_size:]) if output_length >= len(seed) else seed", "if output_length % prbs_length == 0:  # whole periods end where they started\n        return sequence, init_seed\n    seed = np.flip(sequence[-1*poly_size:]) if output_length >= len(seed) else seed")],
  demo=HEAD+"""
p = np.array([1, 0, 1, 0, 1]); s = np.array([1, 0, 0, 0, 0])
full, _ = cdsp.tx.prbs_gen(p, s, 31)
h = np.concatenate([s[::-1], full])
_, s1 = cdsp.tx.prbs_gen(p, s, 31)
sys.exit(0 if np.array_equal(s1, h[-5:][::-1]) else 1)
""", needs="a polynomial that is not maximal and a block of exactly 2^n-1 bits", breaks="the returned seed is the initial one although the stream has not come back to it"),
dict(id="C03-b", property="C03", file="CommDspy/tx/bin2symbol.py",
  edits=[("bin_vec         = np.reshape(bin_mat, -1)", "bin_vec         = np.ravel(bin_mat, order='K')")],
  demo=HEAD+"""
b = np.arange(24).reshape(4, 6) % 5 % 2
sys.exit(0 if np.array_equal(cdsp.tx.bin2symbol(b.T, 4), cdsp.tx.bin2symbol(b.T.copy(), 4)) else 1)
""", needs="a transposed or Fortran-ordered bit matrix", breaks="the bits are taken in memory order instead of row-major order"),
]
