"""C16 Peano-Hilbert keys"""
from harness import *
import virgo.util.peano as P
poison(P)
NCASES = {"quick": 4000, "thorough": 60000}

# Gadget's own algorithm (allvars/peano.c), transcribed independently of numpy
Q = P.quadrants  # replaced below by the published table
Q = np.array([
 [[[0,7],[1,6]],[[3,4],[2,5]]], [[[7,4],[6,5]],[[0,3],[1,2]]], [[[4,3],[5,2]],[[7,0],[6,1]]], [[[3,0],[2,1]],[[4,7],[5,6]]],
 [[[1,0],[6,7]],[[2,3],[5,4]]], [[[0,3],[7,4]],[[1,2],[6,5]]], [[[3,2],[4,5]],[[0,1],[7,6]]], [[[2,1],[5,6]],[[3,0],[4,7]]],
 [[[6,1],[7,0]],[[5,2],[4,3]]], [[[1,2],[0,3]],[[6,5],[7,4]]], [[[2,5],[3,4]],[[1,6],[0,7]]], [[[5,6],[4,7]],[[2,1],[3,0]]],
 [[[7,6],[0,1]],[[4,5],[3,2]]], [[[6,5],[1,2]],[[7,4],[0,3]]], [[[5,4],[2,3]],[[6,7],[1,0]]], [[[4,7],[3,0]],[[5,6],[2,1]]],
 [[[6,7],[5,4]],[[1,0],[2,3]]], [[[7,0],[4,3]],[[6,1],[5,2]]], [[[0,1],[3,2]],[[7,6],[4,5]]], [[[1,6],[2,5]],[[0,7],[3,4]]],
 [[[2,3],[1,0]],[[5,4],[6,7]]], [[[3,4],[0,7]],[[2,5],[1,6]]], [[[4,5],[7,6]],[[3,2],[0,1]]], [[[5,2],[6,1]],[[4,3],[7,0]]]]).tolist()
RX = [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0, 1, 2, 3, 17, 18, 19, 16, 23, 20, 21, 22]
RY = [1, 2, 3, 0, 16, 17, 18, 19, 11, 8, 9, 10, 22, 23, 20, 21, 14, 15, 12, 13, 4, 5, 6, 7]
NX = [3, 0, 0, 2, 2, 0, 0, 1]; NY = [0, 1, 1, 2, 2, 3, 3, 0]; SE = [-1, -1, -1, +1, +1, -1, -1, -1]

def ref_key(x, y, z, bits):
    mask = 1 << (bits - 1); key = 0; rot = 0; sense = 1
    for i in range(bits):
        quad = Q[rot][1 if x & mask else 0][1 if y & mask else 0][1 if z & mask else 0]
        key <<= 3
        key += quad if sense == 1 else 7 - quad
        for _ in range(NX[quad]): rot = RX[rot]
        for _ in range(NY[quad]): rot = RY[rot]
        sense *= SE[quad]; mask >>= 1
    return key

def fixed(S):
    def full(bits):
        def f(desc):
            desc.update(bits=bits, what="complete grid")
            n = 1 << bits
            x, y, z = [a.ravel() for a in np.mgrid[:n, :n, :n]]
            k = P.peano_hilbert_keys(x, y, z, bits)
            expect(k.dtype == np.int64, "type of keys", k.dtype)
            expect_equal(np.sort(k), np.arange(n ** 3), "sorted keys")
            o = np.argsort(k)
            d = np.abs(np.diff(x[o])) + np.abs(np.diff(y[o])) + np.abs(np.diff(z[o]))
            expect(np.all(d == 1), "consecutive keys do not share a face")
            ix, iy, iz = P.peano_hilbert_key_inverses(k, bits)
            expect_equal(ix, x, "x", dtype=False); expect_equal(iy, y, "y", dtype=False); expect_equal(iz, z, "z", dtype=False)
            if bits > 1:
                kp = P.peano_hilbert_keys(x >> 1, y >> 1, z >> 1, bits - 1)
                expect_equal(k >> 3, kp, "parent keys")
            m = min(n ** 3, 3000); idx = np.linspace(0, n ** 3 - 1, m).astype(int)
            expect_equal(k[idx], np.array([ref_key(int(x[i]), int(y[i]), int(z[i]), bits) for i in idx]), "Gadget keys")
        return f
    def blocks(n):
        def f(desc):
            desc.update(n=n, what="block boundaries")
            rng = rng_for(n, 5)
            bits = int(rng.integers(1, 21))
            c = rng.integers(0, 1 << bits, (n, 3))
            k = P.peano_hilbert_keys(c[:, 0], c[:, 1], c[:, 2], bits)
            one = P.peano_hilbert_keys_block(c[:, 0], c[:, 1], c[:, 2], bits)
            expect_equal(k, one, "keys of %d cells" % n)
            for i in {0, n - 1, n // 2, 9999, 10000, 10001} & set(range(n)):
                expect(int(k[i]) == ref_key(*[int(v) for v in c[i]], bits), "key %d of %d" % (i, n))
            inv = P.peano_hilbert_key_inverses(k, bits)
            for a in range(3): expect_equal(inv[a], c[:, a], "coordinate %d" % a, dtype=False)
            L = 7.0
            pos = (c + rng.random((n, 3)) * 0.98 + 0.01) * (L / 2 ** bits)
            expect_equal(P.peano_hilbert_keys_from_coords(pos, L, bits), k, "keys from coordinates")
        return f
    return [full(b) for b in (1, 2, 3, 4, 5, 6)] + [blocks(n) for n in (1, 9999, 10000, 10001, 19999, 20000, 20001, 30000)]

def case(rng, j, S, desc):
    bits = int(rng.integers(1, 21))
    n = int(rng.integers(0, 12))
    m = 1 << bits
    c = rng.integers(0, m, (n, 3))
    if n and rng.random() < 0.5: c[rng.integers(n)] = [0, m - 1][rng.integers(2)]
    ct = ["i4", "i8", "u4", "i2" if bits < 15 else "i4"][rng.integers(4)]
    c = c.astype(ct)
    desc.update(bits=bits, cells=c)
    want = np.array([ref_key(*[int(v) for v in r], bits) for r in c], dtype=np.int64)
    k = P.peano_hilbert_keys(c[:, 0], c[:, 1], c[:, 2], bits)
    expect_equal(k, want, "keys")
    inv = P.peano_hilbert_key_inverses(k, bits)
    expect(len(inv) == 3, "three coordinates")
    for a in range(3): expect_equal(inv[a], c[:, a], "coordinate %d" % a, dtype=False)
    if n:
        s = P.peano_hilbert_keys_block(int(c[0, 0]), int(c[0, 1]), int(c[0, 2]), bits)
        expect(int(s) == int(want[0]) and np.ndim(s) == 0, "key of a single cell", s, want[0])
        i = P.peano_hilbert_key_inverses_block(int(want[0]), bits)
        expect([int(v) for v in i] == [int(v) for v in c[0]], "inverse of a single key", i, c[0])
        # neighbours along the curve
        for d in (-1, 1):
            k2 = int(want[0]) + d
            if 0 <= k2 < 8 ** bits:
                q = P.peano_hilbert_key_inverses_block(k2, bits)
                expect(sum(abs(int(q[a]) - int(c[0, a])) for a in range(3)) == 1, "consecutive keys %d %d" % (want[0], k2))
        if bits > 1:
            kp = P.peano_hilbert_keys(c[:, 0] >> 1, c[:, 1] >> 1, c[:, 2] >> 1, bits - 1)
            expect_equal(k >> 3, kp, "parent keys")
    L = float([1.0, 100.0, 62.5, 3][rng.integers(4)])
    pos = ((c.astype(float) + 0.5) * (L / 2 ** bits)).astype("f8")
    expect_equal(P.peano_hilbert_keys_from_coords(pos, L, bits), want, "keys from coordinates")
    return (bits, min(n, 3), ct)
