"""C15 assign_ranges, sum_ranges"""
from harness import *
from virgo.util.ranges import assign_ranges, sum_ranges
NCASES = {"quick": 12000 * 4, "thorough": 200000}

def case(rng, j, S, desc):
    nr = int(rng.integers(0, [1, 2, 3, 8, 40][rng.integers(5)] + 1))
    length = rng.integers(0, [2, 6, 20][rng.integers(3)], nr)
    gap = rng.integers(0, [1, 4][rng.integers(2)] + 1, nr + 1)
    if rng.random() < 0.3: gap[rng.integers(nr + 1)] = 0
    offset = np.cumsum(gap[:nr]) + np.cumsum(length) - length
    n = int(length.sum() + gap.sum())
    trail = [(), (3,), (2, 2)][rng.integers(3)]
    dt = np.dtype(["i4", "i8", "f8", "f4", "i2", "i1", "u1"][rng.integers(7)])
    a = rng.integers(-50 if dt.kind != "u" else 0, 50, (n,) + trail).astype(dt)
    odt = np.dtype(["i4", "i8", "u8", "u4"][rng.integers(4)])
    off, le = offset.astype(odt), length.astype(odt)
    if rng.random() < 0.2: off, le = off.tolist(), le.tolist()
    mode = int(rng.integers(6))
    bad = False
    desc.update(array=a, offset=off, length=le, mode=mode)
    if mode <= 1:
        val = rng.integers(-50 if dt.kind != "u" else 0, 50, (nr,) + trail).astype(dt)
        want = a.copy()
        for o, l, v in zip(offset, length, val):
            want[o:o + l] = v
        if rng.random() < 0.3:
            big = np.zeros((2 * n,) + trail, dtype=dt); big[::2] = a; x = big[::2]
        else:
            x = a.copy(); big = None
        if mode == 1 and nr >= 2:    # ranges that do not account for the array
            off2, le2 = np.array(offset), np.array(length)
            k = int(rng.integers(nr - 1))
            kind = rng.integers(3)
            if kind == 0: off2[k + 1] = off2[k] + le2[k] - 1     # overlap (only if not empty)
            elif kind == 1: le2[nr - 1] += n - (off2[nr - 1] + le2[nr - 1]) + 1    # past the end
            else: off2[k], off2[k + 1] = off2[k + 1], off2[k]
            ok = bool(np.all(off2[1:] >= off2[:-1] + le2[:-1]) and off2[0] >= 0 and off2[-1] + le2[-1] <= n)
            if not ok:
                desc.update(offset=off2, length=le2)
                expect_raises(lambda: assign_ranges(x, off2, le2, val), ValueError, "invalid ranges")
                return ("bad", kind, nr, trail)
        voff, vle, vval = np.array(off), np.array(le), val.copy()
        assign_ranges(x, off, le, val)
        expect_equal(x, want, "array after assign_ranges")
        if big is not None: expect(np.all(big[1::2] == 0), "elements between strides changed")
        expect_equal(np.array(off), voff, "offset"); expect_equal(np.array(le), vle, "length"); expect_equal(val, vval, "value")
        return ("assign", min(nr, 4), trail, bool((length == 0).any()), big is not None)
    w = rng.integers(1, 9, n).astype(["f8", "i8", "f4"][rng.integers(3)]) if mode >= 4 else None
    norm = mode in (3, 5)
    dtype = [None, np.float64, np.int64][rng.integers(3)] if not norm else np.float64
    if norm and dt.kind == "f" and rng.random() < 0.3: dtype = None
    if dtype is not None and rng.random() < 0.5:
        # values whose sums do not fit in the type of the array, but do in the type asked for
        lo, hi = (np.iinfo(dt).min, np.iinfo(dt).max) if dt.kind in "iu" else (-2**24 + 1, 2**24 - 1)
        lo, hi = max(lo, -2**31), min(hi, 2**31 - 1)
        a = rng.integers(lo, hi, (n,) + trail).astype(dt)
        a = np.where(rng.random(a.shape) < 0.6, np.asarray(hi).astype(dt), a).astype(dt)
    desc.update(array=a, dtype=dtype, weight=w, normalize=norm)
    want = np.zeros((nr,) + trail, dtype=np.float64)
    for i in range(nr):
        seg = a[offset[i]:offset[i] + length[i]].astype(np.float64)
        if length[i] == 0: continue
        if w is not None:
            ws = w[offset[i]:offset[i] + length[i]].astype(np.float64)
            s = (seg.T * ws).T.sum(axis=0)
            want[i] = s / ws.sum() if norm else s
        else:
            want[i] = seg.sum(axis=0) / (length[i] if norm else 1)
    rd = np.dtype(dtype or dt)
    if rd.kind in "iu" and rd.itemsize < 4:
        rd = np.dtype("i8"); dtype = np.int64
    a0 = a.copy(); w0 = None if w is None else w.copy()
    if n > 0 and rng.random() < 0.3 and trail:
        a = np.asfortranarray(a)
    got = sum_ranges(a, off, le, dtype=dtype, weight=w, normalize=norm)
    expect(got.dtype == rd, "type of result", got.dtype, rd)
    expect(got.shape == want.shape, "shape", got.shape, want.shape)
    if norm:
        expect(np.allclose(got, want, rtol=1e-5, atol=1e-6), "sums differ", got, want)
    else:
        expect_equal(got.astype(np.float64), want, "sums")
    expect_equal(a, a0, "array"); 
    if w is not None: expect_equal(w, w0, "weight")
    return ("sum", mode, min(nr, 4), trail, bool((length == 0).any()), str(rd))
