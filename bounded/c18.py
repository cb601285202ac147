"""C18 Gadget type 1 snapshots"""
from harness import *
import h5py
import virgo.formats.gadget_snapshot as gs
NCASES = {"quick": 8000 * 4, "thorough": 100000}
HDR = [("NumPart_ThisFile", "i4", (6,)), ("MassTable", "f8", (6,)), ("Time", "f8", ()), ("Redshift", "f8", ()), ("Flag_Sfr", "i4", ()),
       ("Flag_Feedback", "i4", ()), ("NumPart_Total", "u4", (6,)), ("Flag_Cooling", "i4", ()), ("NumFilesPerSnapshot", "i4", ()),
       ("BoxSize", "f8", ()), ("Omega0", "f8", ()), ("OmegaLambda", "f8", ()), ("HubbleParam", "f8", ()), ("Flag_StellarAge", "i4", ()),
       ("Flag_Metals", "i4", ()), ("NumPart_Total_HighWord", "u4", (6,))]

def values(rng, dt, shape):
    dt = np.dtype(dt)
    if dt.kind == "f": return rng.normal(size=shape).astype(dt)
    i = np.iinfo(dt); return rng.integers(i.min, i.max, shape, dtype=dt, endpoint=True)

def make(rng, e, desc):
    npart = rng.integers(0, [2, 5, 20][rng.integers(3)] + 1, 6) * (rng.random(6) < 0.6)
    mt = np.where(rng.random(6) < 0.5, 0.0, rng.random(6) + 0.1)
    hdr = {}
    for n, t, s in HDR: hdr[n] = values(rng, t, s)
    hdr["NumPart_ThisFile"] = npart.astype("i4"); hdr["MassTable"] = mt
    h = b"".join(np.asarray(hdr[n]).astype(e + t).tobytes() for n, t, s in HDR)
    h += bytes(rng.integers(0, 256, 256 - len(h), dtype=np.uint8))
    recs = [h]
    allt = np.ones(6, bool); gas = np.arange(6) == 0
    blocks = [("Coordinates", "f", (3,), allt), ("Velocities", "f", (3,), allt), ("ParticleIDs", "i", (), allt),
              ("Masses", "f", (), mt == 0), ("InternalEnergy", "f", (), gas), ("Density", "f", (), gas), ("SmoothingLength", "f", (), gas)]
    extra = []
    for k in range(int(rng.integers(0, 4)) if rng.random() < 0.5 else 0):
        extra.append(("Extra%d" % k, ["float", "int"][rng.integers(2)], [(), (3,), (2,)][rng.integers(3)], tuple(bool(x) for x in rng.random(6) < 0.5)))
    blocks += [(n, t[0], s, np.array(p)) for n, t, s, p in extra]
    ncut = int(rng.integers(3, len(blocks) + 1)) if rng.random() < 0.4 else len(blocks)
    want = {}
    names = []
    for bi, (n, t, s, p) in enumerate(blocks):
        if bi >= ncut: break
        size = [4, 8][rng.integers(2)]
        tot = int(npart[p].sum())
        if tot == 0: continue
        body = b""
        for i in range(6):
            if p[i] and npart[i] > 0:
                v = values(rng, t + str(size), (int(npart[i]),) + s)
                want["PartType%d/%s" % (i, n)] = v
                body += v.astype(e + t + str(size)).tobytes()
        recs.append(body); names.append((n, size, int(np.prod(s, dtype=int)) * tot))
    desc.update(endian=e, npart=npart, masstable=mt, blocks=names, extra=extra, ncut=ncut)
    return hdr, recs, want, tuple(extra), names

def record(b, e, m1=None, m2=None):
    n = len(b)
    return np.array(n if m1 is None else m1, dtype=e + "u4").tobytes() + b + np.array(n if m2 is None else m2, dtype=e + "u4").tobytes()

def case(rng, j, S, desc):
    e = "<>"[rng.integers(2)]
    hdr, recs, want, extra, names = make(rng, e, desc)
    fn = S.new(".dat")
    # The second to last argument: which record is damaged
    bad = int(rng.integers(len(recs))) if rng.random() < 0.35 else -1
    kind = int(rng.integers(3)) if bad >= 0 else -1
    if kind == 2 and bad == 0: kind = 0
    out = b""
    for i, r in enumerate(recs):
        m1 = m2 = None
        if i == bad:
            d = int(rng.integers(1, 200))
            if kind == 0: m2 = len(r) + d * (1 if rng.random() < 0.5 or d > len(r) else -1)
            elif kind == 1:
                # start marker that is not the length of the record: must not be 4/8 bytes per number
                m1 = len(r) + d
                if i > 0 and m1 in (4 * names[i - 1][2], 8 * names[i - 1][2]): m1 += 1
                if i == 0 and m1 == 65536: m1 += 1
            else:
                n = int(rng.integers(1, 8)); r = r + b"x" * n     # length does not fit the particle numbers
                if len(r) in (4 * names[i - 1][2], 8 * names[i - 1][2]): r = r + b"x"
        out += record(r, e, m1, m2)
    desc.update(bad=bad, kind=kind)
    with open(fn, "wb") as f: f.write(out)
    kw = {"extra": extra} if extra or rng.random() < 0.3 else {}
    if not extra and kw and rng.random() < 0.5: kw = {"extra": None}
    if bad >= 0:
        expect_raises(lambda: gs.GadgetBinarySnapshotFile(fn, **kw), IOError, "inconsistent file")
        expect_raises(lambda: gs.open(fn, **kw), IOError, "inconsistent file")
        return ("bad", kind, min(bad, 5), e)
    snap = gs.open(fn, **kw) if rng.random() < 0.5 else gs.GadgetBinarySnapshotFile(fn, **kw)
    for n, t, s in HDR:
        a = snap["Header"].attrs[n]
        expect_equal(np.asarray(a), np.asarray(hdr[n]), "header attribute " + n)
    have = set()
    for g in snap:
        if g.startswith("PartType"):
            for d in snap[g]: have.add(g + "/" + d)
    expect(have == set(want), "datasets present", sorted(have), sorted(want))
    for n, v in want.items():
        expect_equal(snap[n][...], v, n)
    if want:
        n = list(want)[int(rng.integers(len(want)))]; expect_equal(snap[n][1:], want[n][1:], n + "[1:]")
    snap.close()
    return (e, min(len(want), 12), len(extra), tuple(n[1] for n in names)[:4], desc["ncut"])

def fixed(S):
    def hdf(desc):
        desc.update(what="HDF5 snapshot")
        fn = S.new(".hdf5")
        with h5py.File(fn, "w") as f:
            f.create_group("Header").attrs["NumPart_ThisFile"] = np.arange(6); f["PartType1/Coordinates"] = np.ones((3, 3))
        s = gs.open(fn); expect_equal(s["PartType1/Coordinates"][...], np.ones((3, 3)), "coordinates")
    def junk(desc):
        desc.update(what="not a snapshot")
        fn = S.new(".dat"); open(fn, "wb").write(b"hello world, this is not a snapshot" * 20)
        expect_raises(lambda: gs.open(fn), IOError, "junk file")
    return [hdf, junk]
