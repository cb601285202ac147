"""C09 collective_read / collective_write"""
from harness import *
import gen, os
import h5py
from mpi4py import MPI
import virgo.mpi.parallel_hdf5 as ph
poison(ph)
MPI_PROPERTY = True
NCASES = {"quick": 1500, "thorough": 30000}

def other_type(rng, N, trail, dt):
    """Types which are not plain numbers: h5py reads them in another way"""
    a = np.zeros((N,) + trail, dtype=dt)
    r = lambda: rng.integers(-1000, 1000, a.shape)
    if a.dtype.names: a["a"] = r(); a["b"] = r()
    elif a.size == 0: pass
    elif a.dtype.kind == "S": a[...] = np.char.mod("%d", r()).astype(dt)
    elif a.dtype.kind == "b": a[...] = r() > 0
    else: a[...] = r() + 1j * r()
    return a

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    N = [gen.total_size(rng), int(rng.integers(9 * n, 12 * n)), 10 * n, 10 * n - 1][rng.integers(4)]
    trail = [(), (), (3,), (2, 2), (1,)][rng.integers(5)]
    dt = ["i4", "f8", "u1", "i8", "f4", "?", "c16", "S5", [("a", "i2"), ("b", "f8")]][rng.integers(9)]
    g = gen.rows(rng, N, trail, dt) if isinstance(dt, str) and dt[0] in "iuf" else other_type(rng, N, trail, dt)
    c = gen.split(rng, N, n)
    isz = max(1, g.dtype.itemsize * int(np.prod(trail, dtype=int)))
    bs = [None, 1, isz, 2 * isz, 3 * isz + 1, 7 * isz, isz * N + 1, max(1, isz * int(c.max())), 1000000][rng.integers(9)]
    bs2 = [None, 1, isz, 2 * isz, 3 * isz + 1, isz * (N // n + 1), max(1, isz * (N // n))][rng.integers(7)]
    kinds = [gen.LAYOUTS[k] for k in rng.integers(0, len(gen.LAYOUTS), n)]
    a, _ = gen.layout(rng, gen.part(g, c, me), kinds[me])
    create = bool(rng.random() < 0.7); grp = bool(rng.random() < 0.5)
    desc.update(shape=g.shape, dtype=dt, sizes=c, write_buffer=bs, read_buffer=bs2, create_dataset=create)
    if me == 0:
        os.makedirs(S, exist_ok=True)
    comm.Barrier()
    fn = S + "/f.hdf5"
    a0 = np.ascontiguousarray(a).tobytes()
    with h5py.File(fn, "w", driver="mpio", comm=comm) as f:
        loc = f.create_group("G/H") if grp else f
        if not create:
            loc.create_dataset("x", shape=g.shape, dtype=g.dtype)
        d = ph.collective_write(loc, "x", a, comm, buffer_size=bs, create_dataset=create)
        expect(isinstance(d, h5py.Dataset), "no dataset returned")
    comm.Barrier()
    expect(np.ascontiguousarray(a).tobytes() == a0, "input was modified")
    with h5py.File(fn, "r") as f:
        stored = f["G/H/x" if grp else "x"][...]
    expect_equal(stored, g, "dataset contents")
    comm.Barrier()
    with h5py.File(fn, "r", driver="mpio", comm=comm) as f:
        got = ph.collective_read(f["G/H/x" if grp else "x"], comm, buffer_size=bs2)
    parts = comm.allgather(np.asarray(got))
    expect_equal(np.concatenate(parts), g, "rank-ordered concatenation of the parts read")
    ls = [len(p) for p in parts]
    expect(max(ls) - min(ls) <= 1, "part lengths differ by more than one", ls)
    comm.Barrier()
    if me == 0: os.unlink(fn)
    return (n, N < 10 * n, str(trail), bs is None, tuple(np.sign(c)), create, bs2 is None)
