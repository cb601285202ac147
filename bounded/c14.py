"""C14 serial match"""
from harness import *
import gen
from virgo.util.match import match
NCASES = {"quick": 12000 * 4, "thorough": 200000}

def case(rng, j, S, desc):
    dt = np.dtype(["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "S4", "U3"][rng.integers(12)])
    n1, n2 = [int(rng.integers(0, m)) for m in rng.choice([1, 3, 10, 60, 300], 2)]
    if dt.kind in "SU":
        pool = np.asarray([b"", b"a", b"ab", b"zz", b"abcd"[:3], b"b"]).astype(dt)
        v = pool[rng.integers(0, len(pool), n1 + n2)]
    else:
        v = gen.ordered_values(rng, n1 + n2, dt)
    a1, a2 = v[:n1].copy(), v[n1:].copy()
    if rng.random() < 0.4:
        a2 = np.unique(a2); rng.shuffle(a2)
    n2 = len(a2)
    e1, e2 = [["=", ">", "<"][k] for k in rng.integers(0, 3, 2)]
    b1 = a1.astype(a1.dtype.newbyteorder(e1)); b2 = a2.astype(a2.dtype.newbyteorder(e2))
    mode = int(rng.integers(3))
    kw = {}
    if mode == 1:
        o = np.argsort(a2, kind="stable"); a2 = a2[o]; b2 = b2[o]; kw["arr2_sorted"] = True
    elif mode == 2:
        kw["arr2_index"] = np.argsort(a2, kind=["quicksort", "stable"][rng.integers(2)])
    if rng.random() < 0.2:      # strided
        t = np.zeros(2 * n1, dtype=b1.dtype); t[::2] = b1; b1 = t[::2]
    desc.update(arr1=b1, arr2=b2, kw=kw)
    c1, c2 = b1.copy(), b2.copy()
    ki = kw["arr2_index"].copy() if mode == 2 else None
    r = match(b1, b2, **kw)
    expect(isinstance(r, np.ndarray) and r.shape == (n1,), "result shape", np.shape(r))
    expect(r.dtype.kind == "i", "result type", r.dtype)
    r = np.asarray(r)
    expect(np.all((r >= -1) & (r < max(n2, 0))), "index out of range", r)
    have = set(a2.tolist())
    for i in range(n1):
        x = a1[i].item()
        if r[i] >= 0:
            expect(a2[r[i]].item() == x, "element %d matched with a different value" % i, x, a2[r[i]])
        else:
            expect(x not in have, "element %d not matched" % i, x)
    expect_equal(b1, c1, "arr1 after the call"); expect_equal(b2, c2, "arr2 after the call")
    if ki is not None: expect_equal(kw["arr2_index"], ki, "arr2_index after the call")
    return (dt.str, n1 == 0, n2 == 0, min(n1, 5), min(n2, 5), e1, e2, mode, bool((r >= 0).any()), bool((r < 0).any()))
