"""C11 MultiFile.write / get_elements_per_file"""
from harness import *
from mf import *
import virgo.mpi.parallel_hdf5 as ph
import virgo.mpi.util as vu
poison(ph, vu)
MPI_PROPERTY = True
NCASES = {"quick": 1500, "thorough": 30000}

def case(comm, rng, j, S, desc):
    n = comm.Get_size(); me = comm.Get_rank()
    s = make_set(comm, rng, S, desc)
    g = s["group"]
    f = ph.MultiFile(s["spec"], comm=comm, **s["kw"])
    epf = f.get_elements_per_file("x", group=g)
    tot = {}
    for d in comm.allgather({int(k): int(v) for k, v in epf.items()}):
        for k, v in d.items():
            tot[k] = tot.get(k, 0) + v
    want = {int(s["idx"][k]): int(s["rows"][k]) if s["state"][k] == 0 else 0 for k in range(s["nf"])}
    expect(tot == want, "rows per file over all ranks", tot, want)
    if not (s["state"] == 0).any():
        cleanup(comm, S)
        return None
    x = f.read("x", group=g)
    out = {"x": x}
    if rng.random() < 0.5:
        out["neg"] = -x.astype("i8")
    outgroup = [None, g, "Out"][rng.integers(3)]
    pat = ["o_%(file_nr)d.h5", "o.{file_nr}.h5"][rng.integers(2)]
    spec = S + "/" + pat
    paths = [S + "/" + (pat % {"file_nr": int(i)} if "%" in pat else pat.format(file_nr=int(i))) for i in s["idx"]]
    if rng.random() < 0.3:
        paths = [S + "/out%d.h5" % k for k in range(s["nf"])]; spec = paths
    attrs = {"x": {"u": 3}} if rng.random() < 0.3 else None
    desc.update(outgroup=outgroup, names=list(out))
    before = {k: v.copy() for k, v in out.items()}
    f.write(out, epf, spec, "w", group=outgroup, attrs=attrs)
    if rng.random() < 0.3:
        f.write({"second": x}, epf, spec, "r+", group=outgroup)
        out["second"] = x; before["second"] = x.copy()
    comm.Barrier()
    for k in out:
        expect_equal(out[k], before[k], "data passed to write")
    if me == 0:
        for k in range(s["nf"]):
            rows = s["data"][k] if s["state"][k] == 0 else s["data"][k][:0]
            with h5py.File(paths[k], "r") as h:
                loc = h[outgroup] if outgroup else h
                expect_equal(loc["x"][...], rows, "x in output file %d" % k, dtype=False)
                if "neg" in out: expect_equal(loc["neg"][...], -rows.astype("i8"), "neg in output file %d" % k)
                if "second" in out: expect_equal(loc["second"][...], rows, "second in output file %d" % k, dtype=False)
                if attrs: expect(loc["x"].attrs["u"] == 3, "attribute in output file %d" % k)
    cleanup(comm, S)
    return (n, s["nf"], s["nf"] >= n, tuple(s["state"]), s["scheme"], outgroup, len(out))
