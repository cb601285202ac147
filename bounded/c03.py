"""C03 fetch_elements"""
from harness import *
import gen
import virgo.mpi.parallel_sort as ps
poison(ps)
MPI_PROPERTY = True
NCASES = {"quick": 6000, "thorough": 200000}

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    N = gen.total_size(rng)
    g = gen.rows(rng, N)
    cin = gen.split(rng, N, n)
    kinds = [gen.LAYOUTS[k] for k in rng.integers(0, len(gen.LAYOUTS), n)]
    a, _ = gen.layout(rng, gen.part(g, cin, me), kinds[me])
    nreq = gen.split(rng, 0 if N == 0 else gen.total_size(rng), n)
    idx = [rng.integers(0, N, k) if k else np.zeros(0, dtype=np.int64) for k in nreq]
    if rng.random() < 0.2:
        idx = [np.sort(x) for x in idx]
    mine = idx[me].astype(["i8", "i4", "u4"][rng.integers(3)])
    if rng.random() < 0.2:
        mine = mine[::-1].copy()[::-1]
    with_result = int(rng.integers(3))
    rk = gen.LAYOUTS[rng.integers(len(gen.LAYOUTS))]
    want = g[idx[me]] if N else g[:0]
    desc.update(shape=g.shape, dtype=str(g.dtype), have=cin, index=[x.tolist() for x in idx], layout=kinds,
                result=None if not with_result else rk)
    a0 = np.ascontiguousarray(a).tobytes(); m0 = mine.copy()
    if with_result:
        res, _ = gen.layout(rng, np.zeros_like(want), rk)
        r = ps.fetch_elements(a, mine, result=res, comm=comm)
        got = res
    else:
        got = ps.fetch_elements(a, mine, comm=comm)
    expect_equal(np.ascontiguousarray(got), want, "fetched rows")
    expect(np.ascontiguousarray(a).tobytes() == a0, "source array was modified")
    expect_equal(mine, m0, "index list")
    return (n, str(g.shape[1:]), kinds[0], with_result, rk, tuple(np.sign(nreq)))
