"""C07 reduce_elements and parallel_bincount"""
from harness import *
import gen
from mpi4py import MPI
import virgo.mpi.parallel_sort as ps
poison(ps)
MPI_PROPERTY = True
NCASES = {"quick": 6000, "thorough": 200000}
OPS = {"add": np.add, "max": np.maximum, "min": np.minimum, "SUM": MPI.SUM, "MAX": MPI.MAX, "MIN": MPI.MIN, "mul": np.multiply, "PROD": MPI.PROD}
UF = {"add": np.add, "SUM": np.add, "max": np.maximum, "MAX": np.maximum, "min": np.minimum, "MIN": np.minimum,
      "mul": np.multiply, "PROD": np.multiply}

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    if j % 3 == 2:
        return bincount(comm, rng, desc)
    N = gen.total_size(rng)
    trail = [(), (), (3,), (2, 2), (1,)][rng.integers(5)]
    opname = sorted(OPS)[rng.integers(len(OPS))]
    dt = ["i8", "i4", "u4"][rng.integers(3)]
    g = rng.integers(0, 50, (N,) + trail).astype(dt)
    c = gen.split(rng, N, n)
    nup = gen.split(rng, 0 if N == 0 else gen.total_size(rng), n)
    idx = [rng.integers(0, N, k) if k else np.zeros(0, dtype=np.int64) for k in nup]
    hi = 3 if opname in ("mul", "PROD") else 100
    ups = [rng.integers(0, hi, (k,) + trail).astype(dt) for k in nup]
    arr = gen.part(g, c, me)
    up, kind = gen.layout(rng, ups[me], gen.LAYOUTS[rng.integers(len(gen.LAYOUTS))])
    mine = idx[me].copy()
    desc.update(arr=g, sizes=c, index=[i.tolist() for i in idx], updates=[u.tolist() for u in ups], op=opname, layout=kind)
    u0 = np.ascontiguousarray(up).tobytes()
    ps.reduce_elements(arr, up, mine, OPS[opname], comm=comm)
    want = g.copy()
    for i, u in zip(idx, ups):
        UF[opname].at(want, i, u)
    expect_equal(arr, gen.part(want, c, me), "updated array")
    expect(np.ascontiguousarray(up).tobytes() == u0, "updates were modified")
    expect_equal(mine, idx[me], "index")
    return ("reduce", n, opname, dt, str(trail), kind, tuple(np.sign(c)), tuple(np.sign(nup)))

def bincount(comm, rng, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    N = gen.total_size(rng)
    dt = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"][rng.integers(8)]
    hi = [1, 3, 20, 100][rng.integers(4)]
    g = rng.integers(0, hi, N).astype(dt)
    w = rng.integers(0, 100, N).astype(["i8", "f8", "i4"][rng.integers(3)]) if rng.random() < 0.5 else None
    ml = [None, 0, 1, 5, 30, 150][rng.integers(6)]
    c = gen.split(rng, N, n)
    x = gen.part(g, c, me); x0 = x.copy()
    lw = None if w is None else gen.part(w, c, me)
    want = np.bincount(g.astype(np.int64), weights=w, minlength=max(ml or 0, 1))
    res = None; rc = None
    if rng.random() < 0.3:
        rc = gen.split(rng, len(want) + int(rng.integers(0, 4)), n)
        res = np.zeros(rc[me], dtype=np.int64 if w is None else w.dtype)
    desc.update(x=g, weights=w, minlength=ml, sizes=c, result_sizes=rc)
    out = ps.parallel_bincount(x, weights=lw, minlength=ml, result=res, comm=comm)
    full = np.concatenate(comm.allgather(np.asarray(out)))
    expect(len(full) >= len(want), "too few bins: %d < %d" % (len(full), len(want)))
    expect_equal(full[:len(want)], want, "bin counts", dtype=False)
    expect(np.all(full[len(want):] == 0), "nonzero count beyond the largest value")
    expect_equal(x, x0, "input")
    return ("bincount", n, dt, w is None, ml, rc is None, tuple(np.sign(c)))
