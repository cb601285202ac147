"""C10 MultiFile.read"""
from harness import *
from mf import *
import virgo.mpi.parallel_hdf5 as ph
import virgo.mpi.util as vu
poison(ph, vu)
MPI_PROPERTY = True
NCASES = {"quick": 1500, "thorough": 30000}

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    s = make_set(comm, rng, S, desc)
    mode = int(rng.integers(4)); attrs = bool(rng.random() < 0.3)
    desc.update(mode=mode, read_attributes=attrs)
    f = ph.MultiFile(s["spec"], comm=comm, **s["kw"])
    g = s["group"]
    present = [k for k in range(s["nf"]) if s["state"][k] == 0]
    ygood = [k for k in range(s["nf"]) if s["state"][k] != 2]
    wx = np.concatenate([s["data"][k] for k in present]) if present else None
    wf = np.concatenate([np.full(s["rows"][k], s["idx"][k]) for k in present]) if present else None
    wy = np.concatenate([np.arange(s["rows"][k]) + 1000 * k for k in ygood]) if ygood else None
    if attrs and len(set(bool(x == 0) for x in s["state"])) > 1 and False:
        attrs = False
    if mode == 0:
        x = f.read("x", group=g, read_attributes=attrs); nr = None; y = None
    elif mode == 1:
        x, nr = f.read("x", group=g, return_file_nr=("x",), read_attributes=attrs); y = None
    elif mode == 2:
        d = f.read(("x", "y"), group=g, read_attributes=attrs); x, y = d["x"], d["y"]; nr = None
    else:
        (x, y), (nr, nry) = f.read(("x", "y"), group=g, return_file_nr=("x", "y"), unpack=True, read_attributes=attrs)
    def check(got, want, what, dtype=None, trail=()):
        if want is None:
            expect(got is None, "%s: array returned for a dataset in no file" % what)
            return
        expect(got is not None, "%s: no array" % what)
        expect(got.shape[1:] == trail, "%s: row shape %s" % (what, got.shape[1:]))
        if dtype is not None:
            expect(got.dtype == dtype, "%s: type %s" % (what, got.dtype))
        full = np.concatenate(comm.allgather(np.asarray(got)))
        expect_equal(full, want, what, dtype=False)
    check(x, wx, "x", s["dt"].newbyteorder("="), tuple(s["trail"]))
    if y is not None or mode >= 2: check(y, wy, "y", np.dtype("i8"))
    if mode in (1, 3):
        check(nr, wf, "file number")
        if x is not None: expect(len(nr) == len(x), "number of file numbers")
    if attrs and x is not None:
        expect(hasattr(x, "attrs") and x.attrs is not None and x.attrs["a"] == 17, "attributes missing")
    cleanup(comm, S)
    return (n, s["nf"], s["nf"] >= n, tuple(s["state"]), mode, s["scheme"], attrs)
