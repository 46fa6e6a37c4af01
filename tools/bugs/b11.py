HEAD = "import numpy as np, sys\nimport CommDspy as cdsp\nfrom CommDspy.psa import psa\n"
BUGS = [
 dict(id="C30-g", property="C30", file="CommDspy/psa.py",
      edits=[("n_overlap = int(np.floor(window_n * overlap))", "n_overlap = int(np.floor(window_n * min(overlap, 0.5)))")],
      demo=HEAD + """
R, w = 34, 64
amp = [1, 1, 3, 0, 2, 4, 1, 0, 3, 2]
x = np.repeat(amp, w // 4) * np.cos(2 * np.pi * 8 * np.arange(w // 4 * len(amp)) / w)
f, p = psa(x, 340, rbw=10, osr=1, window='boxcar', overlap=0.75)
S = [sum(amp[i:i + 4]) for i in range(len(amp) - 3)]
e = np.mean(np.square(S)) / 32
got = p[np.argmin(abs(f - 8 * 340 / w))]
sys.exit(0 if abs(got - e) < 1e-3 * e else 1)
""", needs="an overlap above a half and a signal whose power changes within the record",
      breaks="the windows no longer overlap as asked, so the average is over other windows"),
]
