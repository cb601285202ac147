"""C04 parallel_sort"""
from harness import *
import gen
import virgo.mpi.parallel_sort as ps
poison(ps)
MPI_PROPERTY = True
NCASES = {"quick": 6000, "thorough": 200000}

def key(a):
    return np.argsort(a, kind="stable")

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    N = gen.total_size(rng)
    g = gen.ordered_values(rng, N)
    mode = rng.integers(8)
    if mode == 0: g = np.sort(g)
    elif mode == 1: g = np.sort(g)[::-1].copy()
    elif mode == 2:
        g2 = np.zeros(N, dtype=[("a", "i4"), ("b", "i8")])
        g2["a"] = rng.integers(-1, 3, N); g2["b"] = rng.integers(0, 3, N); g = g2
    cin = gen.split(rng, N, n)
    a = gen.part(g, cin, me)
    ret = bool(rng.random() < 0.75)
    desc.update(values=g, sizes=cin, return_index=ret)
    out = ps.parallel_sort(a, comm=comm, return_index=ret)
    want = gen.part(np.sort(g, kind="stable"), cin, me)
    expect_equal(a, want, "sorted part")
    if ret:
        expect(len(out) == cin[me], "index has %d entries for %d elements" % (len(out), cin[me]))
        full = np.concatenate(comm.allgather(np.asarray(out)))
        expect_equal(np.sort(full), np.arange(N), "sorted index", dtype=False)
        expect_equal(g[out] if N else g, a if N else g, "values at index")
    else:
        expect(out is None, "returned something")
    return (n, str(g.dtype), ret, tuple(np.sign(cin)), len(np.unique(g)))
