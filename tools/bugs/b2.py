HEAD = "import numpy as np, sys\nimport CommDspy as cdsp\n"
EQ = "sys.exit(0 if %s else 1)\n"
BUGS = [
dict(id="C08-a", property="C08", file="CommDspy/rx/decoding.py",
  edits=[("pattern_flat    = np.reshape(pattern, [-1, 2])\n    transitions     =", "pattern_flat    = np.reshape(pattern, [-1, 2], order='A')\n    transitions     =")],
  demo=HEAD+"""
x = np.asfortranarray(np.array([[0, 1], [1, 1], [0, 0]]))
y = np.asfortranarray(cdsp.tx.coding_manchester(x))
sys.exit(0 if np.array_equal(cdsp.rx.decoding_manchester(y), x) else 1)
""", needs="a two-dimensional Manchester sequence in Fortran memory order", breaks="the chip pairs are taken in memory order, decoding does not return the sequence"),
dict(id="C07-a", property="C07", file="CommDspy/tx/coding.py",
  edits=[("idx_shift     = np.cumsum(np.concatenate([np.array([0]),pattern_flat[:-1]]))", "idx_shift     = np.cumsum(np.roll(pattern_flat, 1))")],
  demo=HEAD+"""
a = cdsp.tx.coding_differential_manchester(np.array([1, 1, 0]))
sys.exit(0 if a[0] == 0 else 1)
""", needs="a message that ends in 0", breaks="the waveform starts from the wrong level depending on the message's last bit"),
dict(id="C09-a", property="C09", file="CommDspy/rx/decoding.py",
  edits=[("            if mark == 0:\n", "            if mark == 0 and mark_location[ii] - mark_location[ii - 1] <= 8:\n")],
  demo=HEAD+"""
r = np.array([2] + [1] * 10 + [2, 0])
o = cdsp.rx.decoding_bipolar(r, error_detection=True)
sys.exit(0 if o[0] == .5 and o[11] == .5 else 1)
""", needs="two marks of the same polarity with more than seven spaces between them", breaks="the violation is not flagged"),
dict(id="C09-b", property="C09", file="CommDspy/misc/help_functions.py",
  edits=[("    elif len(data_in) > 2:\n", "    elif len(data_in) > 2 and (data_in[0] < 0 or data_in[-1] > 1):\n")],
  demo=HEAD+"""
try:
    cdsp.rx.decoding_manchester(np.array([0, 1, 0.5, 1, 1, 0]))
except ValueError:
    sys.exit(0)
sys.exit(1)
""", needs="data with values strictly between 0 and 1 next to both 0 and 1", breaks="non-binary data is accepted"),
dict(id="C10-a", property="C10", file="CommDspy/rx/decoding.py",
  edits=[("pattern_block = np.reshape(pattern[:-1*residual], [-1, n])", "pattern_block = np.reshape(pattern[residual:], [-1, n])")],
  demo=HEAD+"""
G = np.array([[1, 0, 1], [0, 1, 1]])
u = np.array([1, 0, 1, 1])
y = np.concatenate([cdsp.tx.coding_linear(u, G), [1, 0]])
sys.exit(0 if np.array_equal(cdsp.rx.decoding_linear(y, G), u) else 1)
""", needs="a received sequence that is not a whole number of blocks", breaks="the leading bits are dropped instead of the trailing ones, every block is misaligned"),
dict(id="C11-b", property="C11", file="CommDspy/tx/coding.py",
  edits=[("        elif ii not in feedback.keys():\n            iir_vals = 1.0\n", "        elif ii not in feedback.keys():\n            iir_vals = 1.0 if ii == 0 else iir_vals\n")],
  demo=HEAD+"""
G = {0: np.array([[1, 0], [0, 1]]), 1: np.array([[0, 0], [1, 1]])}
fb = {0: np.array([1, 1])}; uf = np.array([[0, 1], [0, 0]])
y = cdsp.tx.coding_conv(np.array([0, 1, 0, 0, 0, 0, 0, 0]), G, fb, uf)
sys.exit(0 if np.array_equal(y, [0, 1, 0, 1, 0, 0, 0, 0]) else 1)
""", needs="a code whose first input has feedback and a later one has not", breaks="the later input is encoded with the feedback of the earlier one"),
dict(id="C12-a", property="C12", file="CommDspy/misc/ml_decoding.py",
  edits=[("in_k_fb = (in_k + memory_dict[kk].dot(feedback[kk][1:])) % 2", "in_k_fb = (in_k + memory_dict[kk].dot(feedback[kk][:0:-1])) % 2")],
  demo=HEAD+"""
G = {0: np.array([[1, 0, 0], [1, 0, 1]])}; fb = {0: np.array([1, 1, 0])}; uf = np.array([[0, 1]])
u = np.array([1, 0, 0, 1, 1, 0, 1, 0])
y = cdsp.tx.coding_conv(u, G, fb, uf)
d, _ = cdsp.rx.decoding_conv_viterbi(y, G, len(y), fb, uf)
sys.exit(0 if np.array_equal(d, u) else 1)
""", needs="a recursive code whose feedback polynomial is not symmetric", breaks="the decoder's trellis is not that of the encoder"),
dict(id="C18-a", property="C18", file="CommDspy/auxiliary.py",
  edits=[("weights = [1<< ii for ii in range(bin_tensor.shape[-1]-1, -1, -1)]", "weights = np.array([1<< ii for ii in range(bin_tensor.shape[-1]-1, -1, -1)]).astype(np.int16)")],
  demo=HEAD+"""
x = np.array([70000, 3, 131071])
sys.exit(0 if np.array_equal(cdsp.bin2uint(cdsp.uint2bin(x, 18)), x) else 1)
""", needs="words of sixteen bits or more", breaks="the weights of the upper bits overflow"),
dict(id="C18-b", property="C18", file="CommDspy/auxiliary.py",
  edits=[("    return np.mean(signal * np.conj(signal))", "    return np.mean(signal ** 2)")],
  demo=HEAD+"""
x = np.array([1j, 1, -1j, 2])
sys.exit(0 if abs(cdsp.power(x) - 1.75) < 1e-9 else 1)
""", needs="a complex signal", breaks="the power of complex signals is wrong"),
dict(id="C18-c", property="C18", file="CommDspy/auxiliary.py",
  edits=[("    stride   = length-overlap\n", "    stride   = length - (overlap if overlap >= 0 else max(overlap, -length))\n")],
  demo=HEAD+"""
x = np.arange(1, 21)
m = cdsp.buffer(x, 2, overlap=-3)
sys.exit(0 if m[1][0] == 6 else 1)
""", needs="a skip longer than the row", breaks="rows start too early"),
]
