"""C13 replace_none_with_zero_size / broadcast_dtype_and_dims"""
from harness import *
import gen
import virgo.mpi.util as u
poison(u)
MPI_PROPERTY = True
NCASES = {"quick": 6000, "thorough": 200000}

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    have = rng.random(n) < [0.0, 0.3, 0.7, 1.0, 0.15][rng.integers(5)]
    if rng.random() < 0.3:
        have[:] = False; have[rng.integers(n)] = True
    trail = gen.TRAILS[rng.integers(len(gen.TRAILS))]
    dt = gen.DTYPES[rng.integers(len(gen.DTYPES))]
    nrow = rng.integers(0, 4, n)
    a = gen.rows(rng, int(nrow[me]), trail, dt) if have[me] else None
    ref = gen.rows(np.random.default_rng(0), 1, trail, dt)
    desc.update(have=have, rows=nrow, trail=trail, dtype=dt)
    d, s = u.broadcast_dtype_and_dims(a, comm=comm)
    out = u.replace_none_with_zero_size(a, comm=comm)
    if not have.any():
        expect(d is None and s is None, "type reported although no rank has an array")
        expect(out is None, "array returned although no rank has one")
    else:
        expect(d == ref.dtype and tuple(s) == tuple(trail), "reported type or dimensions", d, s)
        if have[me]:
            expect(out is a, "array was replaced")
        else:
            expect(isinstance(out, np.ndarray) and out.shape == (0,) + tuple(trail) and out.dtype == ref.dtype,
                   "replacement array", out.shape if out is not None else None, getattr(out, "dtype", None))
    return (n, tuple(have), str(trail), dt)
