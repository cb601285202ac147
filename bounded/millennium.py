"""A consistent Millennium snapshot with a hash table"""
from harness import *
from c16 import ref_key
from c19 import Writer

def make_snapshot(rng, base, nfiles, desc, isnap=None, bits=None, npart=None):
    bits = int(rng.integers(1, 4)) if bits is None else bits
    isnap = int(rng.integers(0, 64)) if isnap is None else isnap
    e = "<>"[rng.integers(2)]
    ncell = 1 << bits; nhash = ncell ** 3
    box = float([1.0, 100.0, 500.0][rng.integers(3)])
    n = int(rng.integers(0, 200)) if npart is None else npart
    if rng.random() < 0.3: cells = rng.integers(0, ncell, (1, 3)).repeat(n, axis=0)
    else: cells = rng.integers(0, ncell, (n, 3))
    pos = ((cells + rng.random((n, 3)) * 0.9 + 0.05) * (box / ncell)).astype("f4")
    key = np.array([ref_key(int(c[0]), int(c[1]), int(c[2]), bits) for c in cells], dtype=np.int64)
    o = np.argsort(key, kind="stable"); pos, key, cells = pos[o], key[o], cells[o]
    vel = rng.normal(size=(n, 3)).astype("f4"); ids = rng.permutation(n).astype("u8")
    cuts = np.sort(rng.integers(0, nhash + 1, nfiles - 1)) if nfiles > 1 else np.zeros(0, int)
    if nfiles > 1: cuts = np.sort(rng.choice(np.arange(1, nhash), min(nfiles - 1, nhash - 1), replace=False))
    nfiles = len(cuts) + 1
    cuts = np.concatenate([[0], cuts, [nhash]])
    d = base + "/snapdir_%03d" % isnap
    os.makedirs(d)
    paths = []
    for i in range(nfiles):
        a, b = int(cuts[i]), int(cuts[i + 1])
        sel = (key >= a) & (key < b)
        k = key[sel] - a
        blockid = np.searchsorted(k, np.arange(b - a))
        npf = np.zeros(6, "u4"); npf[1] = sel.sum(); tot = np.zeros(6, "u4"); tot[1] = n
        h = dict(NumPart_ThisFile=npf, NumPart_Total=tot, BoxSize=box, HashTabSize=nhash, NumFilesPerSnapshot=nfiles, NPART1=int(sel.sum()),
                 Coordinates=pos[sel], Velocities=vel[sel], ParticleIDs=ids[sel], first_hash_cell=a, last_hash_cell=b - 1, blockid=blockid, NHASH=b - a)
        w = Writer(rng, "lgadget2.SnapshotFile", {}, e, h)
        p = d + "/snap_%03d.%d" % (isnap, i); paths.append(p)
        with open(p, "wb") as f: f.write(w.out)
    desc.update(nfiles=nfiles, bits=bits, npart=n, cuts=cuts, box=box, isnap=isnap, endian=e)
    return dict(base=base, nfiles=nfiles, bits=bits, isnap=isnap, paths=paths, pos=pos, vel=vel, ids=ids, key=key, cells=cells, box=box, ncell=ncell, nhash=nhash)
