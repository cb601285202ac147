"""C05 parallel_match"""
from harness import *
import gen
import virgo.mpi.parallel_sort as ps
poison(ps)
MPI_PROPERTY = True
NCASES = {"quick": 6000, "thorough": 200000}

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    N1, N2 = gen.total_size(rng), gen.total_size(rng)
    both = gen.ordered_values(rng, N1 + N2)
    g1, g2 = both[:N1], both[N1:]
    if rng.random() < 0.4 and N2:        # distinct values in the second array
        g2 = np.unique(g2); g2 = g2[rng.permutation(len(g2))]; N2 = len(g2)
    srt = bool(rng.random() < 0.4)
    if srt: g2 = np.sort(g2)
    c1, c2 = gen.split(rng, N1, n), gen.split(rng, N2, n)
    a1, a2 = gen.part(g1, c1, me), gen.part(g2, c2, me)
    b1, b2 = a1.copy(), a2.copy()
    desc.update(arr1=g1, arr2=g2, sizes1=c1, sizes2=c2, arr2_sorted=srt)
    out = ps.parallel_match(a1, a2, arr2_sorted=srt, comm=comm)
    expect(out.shape == a1.shape, "result has shape %s for %d elements" % (out.shape, len(a1)))
    has = np.isin(a1, g2)
    expect(np.all((out >= 0) == has), "match found/not found wrongly", a1, out)
    expect(np.all(out >= -1) and np.all(out < N2), "index out of range", out)
    if N2: expect(np.all(g2[out[has]] == a1[has]), "index of an element with a different value", out)
    expect_equal(a1, b1, "first input"); expect_equal(a2, b2, "second input")
    return (n, str(g1.dtype), srt, tuple(np.sign(c1)), tuple(np.sign(c2)), len(np.unique(g2)) == N2)
