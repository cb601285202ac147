"""C02 repartition"""
from harness import *
import gen
import virgo.mpi.parallel_sort as ps
poison(ps)
MPI_PROPERTY = True
NCASES = {"quick": 6000, "thorough": 200000}

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    N = gen.total_size(rng)
    g = gen.rows(rng, N)
    cin = gen.split(rng, N, n); cout = gen.split(rng, N, n)
    kinds = [gen.LAYOUTS[k] for k in rng.integers(0, len(gen.LAYOUTS), n)]
    a, kind = gen.layout(rng, gen.part(g, cin, me), kinds[me])
    before = a.copy()
    nd = [list(map(int, cout)), cout, cout.astype(np.int32), tuple(cout)][rng.integers(4)]
    desc.update(shape=g.shape, dtype=str(g.dtype), have=cin, want=cout, layout=kinds)
    out = ps.repartition(a, nd, comm=comm)
    expect_equal(out, gen.part(g, cout, me), "repartitioned part")
    expect(a.shape == before.shape and arr_equal_any(a, before), "input was modified")
    return (n, str(g.shape[1:]), kinds[0], tuple(np.sign(cin)), tuple(np.sign(cout)))

def arr_equal_any(a, b):
    return np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
