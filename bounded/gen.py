"""Generators shared by the run time contract checks"""
import numpy as np

def split(rng, total, n):
    """Divide total rows over n ranks: uniform, random, with empty ranks, all on one"""
    style = rng.integers(6)
    c = np.zeros(n, dtype=np.int64)
    if style == 0:
        c[:] = total // n; c[:total % n] += 1
    elif style == 1:
        c[rng.integers(n)] = total
    elif style == 2:
        cuts = np.sort(rng.integers(0, total + 1, n - 1)) if n > 1 else np.zeros(0, int)
        c[:] = np.diff(np.concatenate([[0], cuts, [total]]))
    elif style == 3:      # some ranks empty
        ok = rng.random(n) < 0.5
        ok[rng.integers(n)] = True
        w = rng.random(n) * ok
        for i in rng.choice(n, size=total, p=w / w.sum()):
            c[i] += 1
    elif style == 4:
        for i in rng.integers(0, n, total):
            c[i] += 1
    else:                 # last ranks only / first ranks only
        k = rng.integers(1, n + 1)
        idx = np.arange(n - k, n) if rng.random() < 0.5 else np.arange(k)
        for i in rng.choice(idx, size=total):
            c[i] += 1
    return c

def total_size(rng, small=40):
    s = rng.integers(8)
    if s == 0: return 0
    if s == 1: return int(rng.integers(1, 4))
    if s == 7: return int(rng.integers(100, 400))
    return int(rng.integers(1, small))

ORDERED = ["i4", "i8", "u8", "f8", "f4", "u1", "i2", "u4"]

def ordered_values(rng, n, dtype=None):
    """n totally ordered values, number of distinct values from 1 to n, extremes included"""
    dt = np.dtype(dtype or ORDERED[rng.integers(len(ORDERED))])
    nd = [1, 2, 3, max(1, n // 3), max(1, n), max(1, 4 * n)][rng.integers(6)]
    if dt.kind == "f":
        pool = rng.normal(size=nd) * 10.0 ** rng.integers(-3, 4)
        if rng.random() < 0.3: pool[rng.integers(nd)] = np.inf
        if rng.random() < 0.3: pool[rng.integers(nd)] = -np.inf
        if rng.random() < 0.3: pool[rng.integers(nd)] = 0.0
        pool = pool.astype(dt)
    else:
        info = np.iinfo(dt)
        mode = rng.integers(4)
        if mode == 0:
            pool = rng.integers(info.min, info.max, nd, dtype=dt, endpoint=True)
        elif mode == 1:
            pool = np.concatenate([np.asarray([info.min, info.max], dtype=dt),
                                   rng.integers(0, 5, nd).astype(dt)])
        elif mode == 2 and dt.kind == "i":
            pool = (-rng.integers(0, min(100, info.max), nd)).astype(dt)
        else:
            pool = rng.integers(0, min(max(2, nd), info.max), nd).astype(dt)
    return pool[rng.integers(0, len(pool), n)]

def part(g, counts, rank):
    o = np.concatenate([[0], np.cumsum(counts)])
    return g[o[rank]:o[rank + 1]].copy()

TRAILS = [(), (), (1,), (3,), (2, 2), (0,), (2, 1, 3)]
DTYPES = ["i4", "i8", "f8", "u1", "f4", "u8", "c16", "S"]

def rows(rng, n, trail=None, dtype=None):
    """array whose rows are all different from each other"""
    if trail is None:
        trail = TRAILS[rng.integers(len(TRAILS))]
    if dtype is None:
        dtype = DTYPES[rng.integers(len(DTYPES))]
    size = n * int(np.prod(trail, dtype=int))
    if dtype == "S":
        a = np.zeros(size, dtype=[("a", "i4"), ("b", "f8")])
        a["a"] = np.arange(size) + 1; a["b"] = rng.random(size)
    else:
        a = (np.arange(size) + 1).astype(dtype)
    return a.reshape((n,) + tuple(trail))

LAYOUTS = ["C", "F", "rev", "step", "inner", "C"]

def layout(rng, a, kind=None):
    """Equal array with a different memory layout (all non contiguous forms included)"""
    kind = kind or LAYOUTS[rng.integers(len(LAYOUTS))]
    if kind == "C":
        return np.ascontiguousarray(a), kind
    if kind == "F":
        return np.asfortranarray(a), kind
    if kind == "rev":
        return np.ascontiguousarray(a[::-1])[::-1], kind
    if kind == "step":
        b = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        b[1::2] = a
        return b[1::2], kind
    if kind == "inner":
        if a.ndim == 1:
            b = np.zeros((a.shape[0], 2), dtype=a.dtype); b[:, 0] = a
            return b[:, 0], kind
        b = np.zeros(a.shape[:-1] + (a.shape[-1] + 1,), dtype=a.dtype)
        b[..., 1:] = a
        return b[..., 1:], kind
