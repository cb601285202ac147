import os, h5py
from harness import *
import gen

def make_set(comm, rng, S, desc, group_ok=True):
    """A random file set, written by the first rank. Returns everything needed to check reads"""
    n = comm.Get_size(); me = comm.Get_rank()
    nf = [1, int(rng.integers(1, 2 * n + 2)), int(rng.integers(1, n + 1)), n, n + 1, int(rng.integers(1, 12))][rng.integers(6)]
    trail = [(), (3,), (2, 2)][rng.integers(3)]
    dt = ["i4", "f8", "u8", "f4", ">i4", ">f8"][rng.integers(6)]
    group = [None, "PartType1", "A/B"][rng.integers(3)] if group_ok else None
    style = rng.integers(5)
    rows = rng.integers(0, [3, 12, 40][rng.integers(3)], nf)
    if style == 0: rows = rng.integers(1, 30, nf)
    if style == 1: rows[rng.random(nf) < 0.5] = 0
    # state of the dataset in each file: 0 present, 1 dataset missing, 2 group missing
    state = np.zeros(nf, dtype=int)
    if rng.random() < 0.5:
        state = rng.choice(3 if group else 2, nf, p=[0.6, 0.2, 0.2] if group else [0.6, 0.4])
    scheme = rng.integers(5)
    idx = np.arange(nf)
    if scheme == 2: idx = rng.permutation(50)[:nf]
    kw = {}
    pat = "f_%(file_nr)d.hdf5"
    if scheme == 0: kw["file_nr_attr"] = ("Header", "NumFilesPerSnapshot")
    elif scheme == 1: kw["file_nr_dataset"] = "Header/NFiles"; pat = "f.{file_nr}.hdf5"
    elif scheme == 2:
        kw["file_idx"] = idx if rng.random() < 0.5 else [int(i) for i in idx]; pat = "f_{file_nr:03d}.hdf5"
    elif scheme == 3:
        kw["file_idx"] = idx; pat = "f_%(file_nr)03d.hdf5"
    data, nums = [], []
    base = 1
    for k in range(nf):
        a = gen.rows(rng, int(rows[k]), trail, "i8") + base
        base += a.size
        data.append(a.astype(np.dtype(dt)))
    def name(i, p=pat):
        return p % {"file_nr": i} if "%" in p else p.format(file_nr=i)
    paths = [S + "/" + name(int(i)) for i in idx]
    if scheme == 4:
        paths = [S + "/x%d_%d.h5" % (k, rng.integers(1000)) for k in range(nf)]
    if me == 0:
        os.makedirs(S, exist_ok=True)
        for k in range(nf):
            with h5py.File(paths[k], "w") as f:
                h = f.create_group("Header")
                h.attrs["NumFilesPerSnapshot"] = nf
                h["NFiles"] = nf
                if state[k] != 2:
                    g = f.require_group(group) if group else f
                    if state[k] == 0:
                        g["x"] = data[k]
                        g["x"].attrs["a"] = 17
                    g["y"] = (np.arange(rows[k]) + 1000 * k).astype("i8")
    comm.Barrier()
    spec = S + "/" + pat if scheme != 4 else (paths if rng.random() < 0.5 else tuple(paths))
    desc.update(nfiles=nf, rows=rows, state=state, trail=trail, dtype=dt, group=group, scheme=int(scheme), file_idx=idx)
    if scheme == 4:
        idx = np.arange(nf)
    return dict(nf=nf, rows=rows, state=state, data=data, group=group, trail=trail, dt=np.dtype(dt), idx=idx,
                spec=spec, kw=kw, paths=paths, scheme=scheme, pat=pat)

def cleanup(comm, S):
    comm.Barrier()
    if comm.Get_rank() == 0:
        for f in os.listdir(S):
            os.unlink(S + "/" + f)
