"""Library of the drivers: calls the real code from /repo and records what it does.
Runs under /opt/venv/bin/python with PYTHONPATH=/repo; nothing here judges a result."""
import json, os, signal, sys, warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")

BADINT, NAN, HUGE, NONNUM = -2000000001, -2000000002, -2000000003, -2000000004


class CallTimeout(Exception):
    pass


class Hanging(BaseException):
    """several calls did not return: stop driving, the runner reports it"""


TIMEOUTS = [0]


def _alarm(signum, frame):
    raise CallTimeout("call timed out")


signal.signal(signal.SIGALRM, _alarm)


def call(fn, *a, _t=20, **k):
    """(result, exception class name or '')"""
    signal.setitimer(signal.ITIMER_REAL, _t)
    try:
        return fn(*a, **k), ""
    except CallTimeout:
        TIMEOUTS[0] += 1
        if TIMEOUTS[0] >= 4:
            raise Hanging(getattr(fn, "__name__", str(fn)))
        return None, "CallTimeout"
    except RecursionError:
        return None, "RecursionError"
    except BaseException as e:  # noqa: every way of not returning is recorded
        if isinstance(e, KeyboardInterrupt):
            raise
        return None, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def toint(y, exact=True):
    y = float(y)
    if not np.isfinite(y):
        return NAN
    r = round(y)
    if abs(r) > 1900000000:
        return HUGE
    if exact and abs(y - r) > 1e-6 * max(1.0, abs(y)):
        return BADINT
    return int(r)


def enc(x, scale=1, exact=True):
    """array-like -> (flat list of ints, shape list); total"""
    try:
        if x is None:
            return [NONNUM], [NONNUM]
        a = np.asarray(x)
        if a.dtype.kind == "b":
            a = a.astype(int)
        if a.dtype.kind == "c":
            if np.any(np.abs(a.imag) > 1e-9):
                return [NONNUM], [NONNUM]
            a = a.real
        if a.dtype.kind not in "iuf":
            return [NONNUM], [NONNUM]
        if a.dtype.kind in "iu" and scale == 1:
            f = [int(v) if abs(int(v)) <= 1900000000 else HUGE for v in a.reshape(-1)]
        else:
            f = [toint(v, exact) for v in a.reshape(-1).astype(float) * scale]
        return f, [int(s) for s in a.shape]
    except Exception:
        return [NONNUM], [NONNUM]


def flat(x, scale=1, exact=True):
    return enc(x, scale, exact)[0]


def flat1(x, scale=1, exact=True):
    """the encoding of a result that has to be a one-dimensional array"""
    f, s = enc(x, scale, exact)
    return f if len(s) == 1 else [NONNUM]


def tiles(o, reps, e=""):
    """the distinct parts of a result for an input repeated many times, for calls that treat every repetition alike"""
    try:
        a = np.asarray(o).reshape(-1)
        if e or a.size == 0 or a.size % reps:
            return [None]
        a = a.reshape(reps, -1)
        odd = np.flatnonzero(~(np.abs(a * 1.0 - a[:1]) < 1e-7).all(axis=1))
        return [a[i] for i in [0] + [int(j) for j in odd[:2]]]
    except Exception:
        return [None]


def shape(x):
    return enc(x)[1]


class Ctx:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.rng = np.random.default_rng([seed, sum(map(ord, prop)), len(tier)])
        self.traces = []
        self.mismatch = []
        self.replayed = 0
        self.vec_samples = []

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, q, t):
        return q if self.quick else t

    def add(self, cfg, ev, kf=""):
        if not isinstance(ev, list):
            ev = [ev]
        self.traces.append(dict(id=len(self.traces) + 1, cfg=cfg, ev=ev, kf=kf))

    def check(self, vec, field, expected, got):
        """replay of a vector the specification generated: expected comes from TLC"""
        self.replayed += 1
        if len(self.vec_samples) < 3:
            self.vec_samples.append(vec)
        if expected != got:
            if len(self.mismatch) < 50:
                self.mismatch.append(dict(vector=vec, field=field, expected=expected, got=got))
            return False
        return True


def bits(rng, n, p=0.5):
    return (rng.random(n) < p).astype(int)


def ilist(a):
    return [int(v) for v in np.asarray(a).reshape(-1)]


def lay(rng, x):
    """the same array in another memory layout: contiguous, Fortran order, strided or reversed view"""
    x = np.asarray(x)
    k = int(rng.integers(4))
    if k == 1:
        return np.asfortranarray(x)
    if k == 2 and x.ndim:
        big = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), x.dtype)
        big[..., ::2] = x
        return big[..., ::2]
    if k == 3 and x.ndim:
        return np.ascontiguousarray(x[..., ::-1])[..., ::-1]
    return x.copy()


def dk(rng, **kv):
    """keyword arguments given as name=(value, documented default); one at its default is left out every other time"""
    return {k: v for k, (v, d) in kv.items() if not (type(v) is type(d) and v == d) or rng.integers(2)}


def narrow(rng, x, uns=False):
    """the same integers, sometimes in a shorter integer type (unsigned only where asked for)"""
    x = np.asarray(x)
    if not np.issubdtype(x.dtype, np.integer) or not x.size or rng.integers(3):
        return x
    t = [np.int32, np.int16, np.int8] + ([np.uint8, np.uint16] if uns else [])
    t = t[int(rng.integers(len(t)))]
    i = np.iinfo(t)
    return x.astype(t) if i.min <= x.min() and x.max() <= i.max else x


def retype(rng, x, uns=True, fl=True):
    """the same integers, sometimes in another type: shorter or unsigned integers, truth values (for zeros and ones), floating point"""
    x = np.asarray(x)
    if not np.issubdtype(x.dtype, np.integer) or not x.size or rng.integers(2):
        return x
    t = ["i1", "i2", "i4"] + (["u1", "u2", "u4"] if uns and x.min() >= 0 else []) + (["f4", "f8"] if fl else [])
    if uns and x.min() >= 0 and x.max() <= 1:
        t.append("?")
    y = x.astype(t[int(rng.integers(len(t)))])
    return y if np.array_equal(y.astype(x.dtype), x) else x
