import numpy as np
import CommDspy as cdsp
from harness.drv import *


def mk(C):
    """specification code -> arguments of the library"""
    order = list(enumerate(C["G"]))
    if sum(sum(r) for g in C["G"] for r in g) % 2:     # a dictionary has no order
        order = order[::-1]
    G = {i: np.array(g, dtype=int) for i, g in order}
    fb = {i: np.array(C["fb"][i], dtype=int) for i, _ in order[::-1] if len(C["fb"][i])}
    if not fb:
        return G, None, None
    return G, fb, np.array(C["uf"], dtype=int)


def encode(C, msg):
    G, fb, uf = mk(C)
    return call(cdsp.tx.coding_conv, msg, G) if fb is None else call(cdsp.tx.coding_conv, msg, G, fb, uf)


def decode(C, by, rx, tb, perr=False):
    G, fb, uf = mk(C)
    f = cdsp.rx.decoding_conv_ml if by == "ml" else cdsp.rx.decoding_conv_viterbi
    kw = {} if fb is None else dict(feedback=fb, use_feedback=uf)
    if perr:
        kw["error_prob"] = True
    r, e = call(f, rx, G, tb, **kw)
    if e:
        return None, e
    n = (1 if by == "ml" else 2) + perr          # results: the bits, the final state (Viterbi), the error probabilities (if asked for)
    if (len(r) if isinstance(r, tuple) else 1) != n:
        return None, "WrongResults"
    return (r[0] if n > 1 else r), ""


def report(C, by, rx, tb):
    """(bits, error probabilities, final state or None) with the error probability requested"""
    G, fb, uf = mk(C)
    f = cdsp.rx.decoding_conv_ml if by == "ml" else cdsp.rx.decoding_conv_viterbi
    kw = {} if fb is None else dict(feedback=fb, use_feedback=uf)
    r, e = call(f, rx, G, tb, error_prob=True, **kw)
    if not e and not (isinstance(r, tuple) and len(r) == (2 if by == "ml" else 3)):
        e = "WrongResults"
    if e:
        return dict(op="rep", by=by, rx=ilist(rx), tb=tb, out=[], p=[], last=-1, exc=e)
    return dict(op="rep", by=by, rx=ilist(rx), tb=tb, out=flat1(r[0]), p=flat1(r[-1], 10 ** 6, False), last=-1 if by == "ml" else flat(r[1])[0], exc="")


def rand_code(rng, max_mem=4, dec=False):
    """a random code the validity check admits"""
    n_in = int(rng.choice([1, 1, 1, 2, 2, 3]))
    n_out = int(rng.integers(max(1, n_in), n_in + 3))
    G, fb, uf = [], [], []
    left = max_mem
    anyfb = rng.random() < 0.5
    for i in range(n_in):
        taps = int(rng.integers(1, min(left, 3) + 2)) if left else 1
        left -= taps - 1
        f = []
        if anyfb and taps > 1 and rng.random() < 0.7:
            f = [1] + ilist(bits(rng, taps - 1, 0.6))
        rows, u = [], []
        for j in range(n_out):
            g = ilist(bits(rng, taps, 0.55))
            use = 0
            if f:
                use = int(rng.integers(2))
                if not use:
                    g = [int(rng.integers(2))] + [0] * (taps - 1)
            rows.append(g)
            u.append(use)
        G.append(rows); fb.append(f); uf.append(u)
    return dict(G=G, fb=fb, uf=uf)
