"""C22 match_halos / consistent_match"""
from harness import *
import gen
import virgo.mpi.merger_tree as mt
import virgo.mpi.parallel_sort as ps
poison(mt, ps)
MPI_PROPERTY = True
NCASES = {"quick": 3000 * 4, "thorough": 100000}

def ref_match(g1, i1, g2, i2, nh):
    where = {int(x): int(h) for x, h in zip(i2, g2)}
    cnt = [dict() for _ in range(nh)]
    for x, h in zip(i1, g1):
        k = where.get(int(x), -1)
        if h >= 0 and k >= 0:
            cnt[h][k] = cnt[h].get(k, 0) + 1
    return np.asarray([min((k for k in c if c[k] == max(c.values())), default=-1) for c in cnt], dtype=np.int64).reshape(-1)

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    if j % 3 == 2:
        n1, n2 = gen.total_size(rng, 20), gen.total_size(rng, 20)
        m12 = rng.integers(-1, n2, n1) if n2 else -np.ones(n1, dtype=np.int64)
        m21 = rng.integers(-1, n1, n2) if n1 else -np.ones(n2, dtype=np.int64)
        if rng.random() < 0.6:
            for i in range(n1):
                if m12[i] >= 0 and rng.random() < 0.6: m21[m12[i]] = i
        c1, c2 = gen.split(rng, n1, n), gen.split(rng, n2, n)
        desc.update(match_12=m12, match_21=m21, sizes1=c1, sizes2=c2)
        out = mt.consistent_match(gen.part(m12, c1, me), gen.part(m21, c2, me), comm=comm)
        want = np.asarray([1 if m12[i] >= 0 and m21[m12[i]] == i else 0 for i in range(n1)], dtype=int).reshape(-1)
        expect_equal(out, gen.part(want, c1, me), "consistency flags", dtype=False)
        return ("consistent", n, tuple(np.sign(c1)), tuple(np.sign(c2)))
    N1, N2 = gen.total_size(rng, 80), gen.total_size(rng, 80)
    pool = rng.permutation(max(N1, N2) * 2 + 2)
    i1, i2 = rng.permutation(pool)[:N1], rng.permutation(pool)[:N2]
    h1, h2 = int(rng.integers(1, 12)), int(rng.integers(1, 5))
    dt = ["i4", "i8"][rng.integers(2)]
    g1 = rng.integers(-1, h1, N1).astype(dt); g2 = rng.integers(-1, h2, N2).astype(dt)
    ext = int(rng.integers(0, 4))
    nh = h1 + ext if N1 else int(rng.integers(0, 6))
    c1, c2, ch = gen.split(rng, N1, n), gen.split(rng, N2, n), gen.split(rng, nh, n)
    desc.update(grnr1=g1, ids1=i1, grnr2=g2, ids2=i2, sizes1=c1, sizes2=c2, halos=ch)
    a = [gen.part(x, c, me) for x, c in ((g1, c1), (i1, c1), (g2, c2), (i2, c2))]
    out = mt.match_halos(*a, int(ch[me]), comm=comm)
    expect_equal(out, gen.part(ref_match(g1, i1, g2, i2, nh), ch, me), "matched halos", dtype=False)
    return ("match", n, tuple(np.sign(c1)), tuple(np.sign(c2)), tuple(np.sign(ch)))
