import copy
import os
import pickle
import random
import zlib
import numpy as np
from harness.drv import *

try:
    from drivers.calls import CALLS, SCALE
    from drivers.calls2 import MORE
    BROKEN = ""
except Exception as x:       # a name the library no longer offers
    CALLS, MORE, BROKEN = [], [], type(x).__name__

BASE = len(CALLS)
CALLS = CALLS + MORE
VARIANTS = 16                # fixed flags: short, short, long data; any flags: sixteen draws


def variants(i):
    return 3 if i < BASE else VARIANTS


def fp(o):
    """fingerprint of caller-owned data, exact"""
    if isinstance(o, np.ndarray):
        return zlib.crc32(repr((o.shape, o.dtype.str)).encode() + o.tobytes())
    if isinstance(o, (list, tuple)):
        return zlib.crc32(repr([type(o).__name__] + [fp(v) for v in o]).encode())
    if isinstance(o, dict):
        return zlib.crc32(repr([(str(k), fp(v)) for k, v in o.items()]).encode())
    return zlib.crc32(repr(o).encode())


def world():
    """process-wide settings the caller relies on"""
    s = np.random.get_state()
    return [s[1], s[2], s[3], list(s[4:]), hash(random.getstate()), sorted(np.geterr().items()), np.get_printoptions()["precision"]]


def views(o, r, bases):
    """the same arguments, arrays being views into larger arrays whose rest must stay untouched as well"""
    if isinstance(o, np.ndarray) and o.ndim == 1 and o.size:
        k = int(r.integers(3))
        if k == 0:
            return o
        big = np.full(2 * o.size + 4, 7, o.dtype)
        v = big[2:2 + o.size] if k == 1 else big[2:2 + 2 * o.size:2]
        v[...] = o
        bases.append(big)
        return v
    return o


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, (str, bool)):
        return a is b or a == b
    try:
        x, y = np.asarray(a), np.asarray(b)
        return x.shape == y.shape and bool(np.allclose(x.astype(float), y.astype(float), rtol=1e-7, atol=1e-9, equal_nan=True))
    except Exception:
        return False


def scribble(res, keep):
    """the caller overwrites what it got, unless it shares memory with its own arguments"""
    if isinstance(res, (list, tuple)):
        for v in res:
            scribble(v, keep)
    elif isinstance(res, np.ndarray) and res.size and res.flags.writeable and not any(np.shares_memory(res, k) for k in keep):
        try:
            res[...] = 1 if res.dtype.kind in "iub" else -77.25
        except Exception:
            pass


class Lab:
    def __init__(self):
        self.ref = {}
        self.odd = 1

    def make(self, i, var, layout):
        bases = []
        SCALE[0] = 30 if var == 2 and i < BASE else 1
        try:
            fn, a, k = CALLS[i][1](np.random.default_rng([5, i, var]))
        finally:
            SCALE[0] = 1
        if layout is not None:
            a = [views(v, layout, bases) for v in a]
            k = {n: views(v, layout, bases) for n, v in k.items()}
        return fn, a, k, bases

    def run(self, i, var, layout=None, dirty=True):
        """one event"""
        name = CALLS[i][0]
        try:
            fn, a, k, bases = self.make(i, var, layout)
        except Exception as x:
            return dict(op="call", id=i * VARIANTS + var + 1, name=name, before=0, after=0, res=0, exc=type(x).__name__)
        before = fp([a, k, bases, world()])
        r, e = call(fn, *a, **k)
        after = fp([a, k, bases, world()])
        key = (i, var)
        if e:
            return dict(op="call", id=i * VARIANTS + var + 1, name=name, before=before % 10 ** 9, after=after % 10 ** 9, res=0, exc=e)
        if key not in self.ref:
            self.ref[key] = copy.deepcopy(r)           # no answer from a fresh process: the first one counts
        cls = 1
        if not same(self.ref[key], r):
            self.odd += 1
            cls = self.odd
        if dirty:
            scribble(r, [v for v in list(a) + list(k.values()) + bases if isinstance(v, np.ndarray)])
        return dict(op="call", id=i * VARIANTS + var + 1, name=name, before=before % 10 ** 9, after=after % 10 ** 9, res=cls, exc="")


LAB = Lab()


def alone(i, var):
    """the result of one call in a process that has made no other"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            fn, a, k, _ = LAB.make(i, var, None)
            r, e = call(fn, *a, **k)
            with os.fdopen(wr, "wb") as f:
                pickle.dump((r, e), f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return None, "NoAnswer"


def fresh():
    """reference results, each from its own process, then the same calls one after the other in this one"""
    if LAB.ref:
        return []
    every = [(i, v) for i in range(len(CALLS)) for v in range(variants(i))]
    for k in every:
        r, e = alone(*k)
        if not e:
            LAB.ref[k] = r
    return [LAB.run(i, v) for i, v in every]


FIRST = []


def replay(ctx, vecs):
    FIRST.extend(fresh())
    n = len(CALLS)
    for k, v in enumerate(vecs):
        h = [i - 1 for i in v["h"]]
        if max(h) >= n:
            ctx.check(v, "skipped", True, True)
            continue
        ev = [LAB.run(i, 0 if i < BASE else k % VARIANTS) for i in h + [h[0]]]
        ctx.check(dict(v, names=[e["name"] for e in ev]), "history", [["", True, 1]] * len(ev), [[e["exc"], e["before"] == e["after"], e["res"]] for e in ev])


def record(ctx):
    rng = ctx.rng
    if BROKEN:
        ctx.add(dict(n=1), dict(op="call", id=1, name="import", before=0, after=0, res=0, exc=BROKEN))
        return
    n = len(CALLS) * VARIANTS
    FIRST.extend(fresh())
    ctx.add(dict(n=n), FIRST[:])
    for rep in range(ctx.n(90, 600)):
        ev = []
        pick = rng.integers(0 if rep % 2 else BASE, len(CALLS), [8, 8, 2][rep % 3])              # a few functions, called again and again in random order
        for _ in range(40):
            i = int(rng.choice(pick)) if rep % 3 else int(rng.integers(len(CALLS)))
            ev.append(LAB.run(i, int(rng.integers(variants(i))), layout=rng, dirty=bool(rng.integers(2))))
        ctx.add(dict(n=n), ev)
