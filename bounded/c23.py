"""C23 find_splitting_points"""
from harness import *
import gen
import virgo.mpi.parallel_sort as ps
poison(ps)
MPI_PROPERTY = True
NCASES = {"quick": 6000, "thorough": 200000}

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    N = n + gen.total_size(rng)
    g = gen.ordered_values(rng, N)
    c = np.ones(n, dtype=np.int64) + gen.split(rng, N - n, n)
    if rng.random() < 0.3: g = np.sort(g)
    if rng.random() < 0.1: g = np.sort(g)[::-1].copy()
    a = np.sort(gen.part(g, c, me))
    nr = [1, n, n + 1, 2 * n + 1, int(rng.integers(1, 20))][rng.integers(5)]
    r = rng.integers(0, N, nr)
    m = rng.integers(4)
    if m == 0: r = np.sort(r)
    if m == 1: r = (np.cumsum(c) - c)
    if m == 2: r[0] = N - 1; r[-1] = 0
    desc.update(values=g, sizes=c, r=r)
    a0 = a.copy()
    val, lo, hi = ps.find_splitting_points(a, r, comm=comm)
    s = np.sort(g)
    expect_equal(val, s[r], "values", dtype=True)
    expect_equal(lo, np.searchsorted(s, s[r], side="left"), "lowest rank", dtype=False)
    expect_equal(hi, np.searchsorted(s, s[r], side="right") - 1, "highest rank", dtype=False)
    expect_equal(a, a0, "input")
    return (n, str(g.dtype), len(r) > n, len(np.unique(g)), tuple(c > 1))
