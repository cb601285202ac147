"""C06 parallel_unique"""
from harness import *
import gen
import virgo.mpi.parallel_sort as ps
poison(ps)
MPI_PROPERTY = True
NCASES = {"quick": 6000, "thorough": 200000}

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    N = gen.total_size(rng)
    g = gen.ordered_values(rng, N)
    if rng.random() < 0.15:
        g2 = np.zeros(N, dtype=[("a", "i4"), ("b", "i8")])
        g2["a"] = rng.integers(-1, 3, N); g2["b"] = rng.integers(0, 3, N); g = g2
    srt = bool(rng.random() < 0.5); cnt = bool(rng.random() < 0.7); rep = bool(rng.random() < 0.4)
    if srt: g = np.sort(g, kind="stable")
    c = gen.split(rng, N, n)
    a = gen.part(g, c, me); b = a.copy()
    desc.update(values=g, sizes=c, arr_sorted=srt, return_counts=cnt, repartition_output=rep)
    out = ps.parallel_unique(a, comm=comm, arr_sorted=srt, return_counts=cnt, repartition_output=rep)
    u, uc = out if cnt else (out, None)
    wu, wc = np.unique(g, return_counts=True)
    fu = np.concatenate(comm.allgather(np.asarray(u)))
    expect_equal(fu, wu, "unique values")
    if cnt:
        expect(len(uc) == len(u), "number of counts")
        expect_equal(np.concatenate(comm.allgather(np.asarray(uc))), wc, "counts", dtype=False)
    if rep:
        ls = comm.allgather(len(u))
        expect(max(ls) - min(ls) <= 1, "unequal numbers of values per rank", ls)
    expect_equal(a, b, "input array")
    return (n, str(g.dtype), srt, cnt, rep, tuple(np.sign(c)), len(wu))
