"""C08 gather_array / allgather_array"""
from harness import *
import gen
import virgo.mpi.gather_array as ga
poison(ga)
MPI_PROPERTY = True
NCASES = {"quick": 6000, "thorough": 200000}

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    nd = int(rng.integers(1, 5)); axis = int(rng.integers(0, nd))
    shape = [int(x) for x in rng.integers(0 if rng.random() < 0.1 else 1, 4, nd)]
    N = gen.total_size(rng, 20); shape[axis] = N
    dt = ["i4", "f8", "u1", "i8", "c16", "f4"][rng.integers(6)]
    g = (np.arange(int(np.prod(shape))) + 1).astype(dt).reshape(shape)
    c = gen.split(rng, N, n); o = np.concatenate([[0], np.cumsum(c)])
    loc = np.take(g, np.arange(o[me], o[me + 1]), axis=axis)
    kinds = [gen.LAYOUTS[k] for k in rng.integers(0, len(gen.LAYOUTS), n)]
    a, kind = gen.layout(rng, loc, kinds[me])
    root = [None, 0, int(rng.integers(0, n))][rng.integers(3)]
    neg = bool(rng.random() < 0.2)
    ax = axis - nd if neg else axis
    desc.update(shape=shape, axis=ax, sizes=c, root=root, layout=kinds, dtype=dt)
    a0 = np.ascontiguousarray(a).tobytes()
    if root is None:
        out = ga.allgather_array(a, comm=comm, axis=ax) if rng.random() < 0.5 else ga.gather_array(a, root=None, comm=comm, axis=ax)
    elif root == 0 and rng.random() < 0.5:
        out = ga.gather_array(a, comm=comm, axis=ax)
    else:
        out = ga.gather_array(a, root=root, comm=comm, axis=ax)
    if root is None or me == root:
        expect(out is not None, "no array on the root")
        expect_equal(out, g, "gathered array")
    else:
        expect(out is None, "rank other than the root has an array")
    expect(np.ascontiguousarray(a).tobytes() == a0, "input was modified")
    return (n, nd, axis, root is None, kinds[0], tuple(np.sign(c)))
