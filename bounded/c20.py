"""C20 partial snapshot reads"""
from harness import *
import gen
from c19 import Writer, make_header
from c18 import HDR, record
from millennium import make_snapshot
import layouts as L
NCASES = {"quick": 3000 * 4, "thorough": 40000}

def write_type1(fn, e, npart, tot, nfiles, data, rng):
    """Type 1 snapshot file: data[i] = (pos, vel, ids) for each type"""
    h = {n: np.zeros(s, dtype=t) for n, t, s in HDR}
    h["NumPart_ThisFile"] = np.asarray(npart); h["NumPart_Total"] = np.asarray(tot); h["NumFilesPerSnapshot"] = nfiles
    h["MassTable"] = np.ones(6)
    b = b"".join(np.asarray(h[n]).astype(e + t).tobytes() for n, t, s in HDR)
    out = record(b + bytes(256 - len(b)), e)
    if sum(npart):
        for k, t in enumerate(("f4", "f4", "i8")):
            out += record(b"".join(np.asarray(d[k]).astype(e + t).tobytes() for d in data), e)
    with open(fn, "wb") as f: f.write(out)

def parts(rng, n, nf):
    """split n particles over files, at arbitrary or special positions"""
    return gen.split(rng, n, nf)

def case(rng, j, S, desc):
    return [ranges, fof4, mill, ranges, fof4][j % 5](rng, S, desc)

def ranges(rng, S, desc):
    """P-Gadget3 group ordered snapshot, type 1 particles only"""
    which = int(rng.integers(2))
    import virgo.formats.subfind_pgadget3 as pg, virgo.sims.millennium2 as m2
    C = [pg, m2][which].GroupOrderedSnapshot
    base = S.new("_s"); isnap = int(rng.integers(0, 99)); e = "<>"[rng.integers(2)]
    nf = int(rng.integers(1, 6)); ngf = int(rng.integers(1, 4))
    npart = int(rng.integers(1, [4, 30, 90][rng.integers(3)]))
    counts = parts(rng, npart, nf)
    pos = rng.normal(size=(npart, 3)).astype("f4"); vel = rng.normal(size=(npart, 3)).astype("f4"); ids = rng.permutation(npart).astype("i8")
    os.makedirs(base + "/snapdir_%03d" % isnap); os.makedirs(base + "/groups_%03d" % isnap)
    o = np.concatenate([[0], np.cumsum(counts)])
    other = rng.integers(0, 3, (nf, 6)); other[:, 1] = counts
    for i in range(nf):
        d = []
        for t in range(6):
            n = int(other[i, t])
            d.append((pos[o[i]:o[i + 1]], vel[o[i]:o[i + 1]], ids[o[i]:o[i + 1]]) if t == 1 else
                     (np.zeros((n, 3)), np.zeros((n, 3)), -np.ones(n)))
        write_type1(base + "/snapdir_%03d/snap_%03d.%d" % (isnap, isnap, i), e, other[i], other.sum(axis=0), nf, d, rng)
    # groups in order, from the start of the snapshot; subhalos inside groups
    ng = int(rng.integers(1, 7)); glen = np.diff(np.sort(np.concatenate([[0], rng.integers(0, npart + 1, ng)])))
    glen = np.maximum(glen, 0); goff = np.cumsum(glen) - glen
    soff, slen = [], []
    for a, b in zip(goff, glen):
        k = int(rng.integers(0, 3)); c = np.sort(rng.integers(0, b + 1, k)) if k else []
        p = 0
        for q in c: soff.append(a + p); slen.append(q - p); p = q
    opts = dict(id_bytes=8, float_bytes=4, SO_VEL_DISPERSIONS=bool(rng.integers(2)))
    kw = {"SO_VEL_DISPERSIONS": True} if opts["SO_VEL_DISPERSIONS"] else {}
    if rng.random() < 0.3: kw["id_bytes"] = opts["id_bytes"] = 4
    gs = gen.split(rng, ng, ngf); ss = gen.split(rng, len(slen), ngf)
    go, so = np.concatenate([[0], np.cumsum(gs)]), np.concatenate([[0], np.cumsum(ss)])
    for i in range(ngf):
        h = make_header(rng, "pgadget3.SubTabFile", opts)
        h.update(NTask=ngf, Ngroups=int(gs[i]), Nsubgroups=int(ss[i]), GroupLen=glen[go[i]:go[i + 1]], GroupOffset=goff[go[i]:go[i + 1]],
                 SubLen=np.array(slen[so[i]:so[i + 1]], dtype=int), SubOffset=np.array(soff[so[i]:so[i + 1]], dtype=int))
        w = Writer(rng, "pgadget3.SubTabFile", opts, e, h)
        with open(base + "/groups_%03d/subhalo_tab_%03d.%d" % (isnap, isnap, i), "wb") as f: f.write(w.out)
    desc.update(npart_file=counts, ngroups=ng, GroupLen=glen, SubOffset=soff, SubLen=slen, endian=e, reader=C.__module__); ops = desc["reads"] = []
    s = C(base, "snap", isnap, **kw)
    def cmp(r, a, n, names):
        expect(set(r) == set(names), "datasets", list(r))
        for nm, v in (("Coordinates", pos), ("Velocities", vel), ("ParticleIDs", ids)):
            if nm in names: expect_equal(r[nm], v[a:a + n], "%s of particles %d to %d" % (nm, a, a + n - 1))
    ALL = ("Coordinates", "Velocities", "ParticleIDs")
    for _ in range(8):
        k = int(rng.integers(4))
        names = ALL; kw2 = {}
        if rng.random() < 0.3: names = ("ParticleIDs",); kw2["datasets"] = ["ParticleIDs"]
        if k <= 1:
            edge = o[:-1] if rng.random() < 0.5 else np.arange(npart)
            a = int(min(edge[rng.integers(len(edge))], npart - 1))
            if k == 1 and rng.random() < 0.5:
                ends = o[1:][o[1:] > a]; n = int(ends[rng.integers(len(ends))]) - a
                n = max(1, min(npart - a, n + int(rng.integers(-1, 2))))
            else: n = int(rng.integers(1, npart - a + 1))
            ops.append((a, n)); cmp(s.read_particle_range(a, n, **kw2), a, n, names)
        elif k == 2:
            g = int(rng.integers(ng))
            if glen[g] > 0: ops.append(("group", g)); cmp(s.read_fof_group(g, **kw2), int(goff[g]), int(glen[g]), names)
        elif len(slen):
            g = int(rng.integers(len(slen)))
            if slen[g] > 0: ops.append(("sub", g)); cmp(s.read_subfind_group(g, **kw2), int(soff[g]), int(slen[g]), names)
    return ("ranges", which, nf, bool((counts == 0).any()), e)

def fof4(rng, S, desc):
    """Gadget-4 group ordered snapshot, all types"""
    import virgo.formats.subfind_gadget4 as g4, virgo.sims.coco as coco
    which = int(rng.integers(2)); C = [g4, coco][which].GroupOrderedSnapshot
    base = S.new("_s"); isnap = int(rng.integers(0, 99)); e = "<>"[rng.integers(2)]
    nf = int(rng.integers(1, 5)); ngf = int(rng.integers(1, 4))
    ng = int(rng.integers(1, 7)); m = [1, 3, 9][rng.integers(3)]
    nsubs = rng.integers(0, 3, ng); nsubs[rng.integers(ng)] += 1
    nsub = int(nsubs.sum()); firstsub = np.where(nsubs > 0, np.cumsum(nsubs) - nsubs, -1)
    sl = rng.integers(0, m + 1, (nsub, 6)) * (rng.random((nsub, 6)) < 0.7)
    fuzz = rng.integers(0, m + 1, (ng, 6)) * (rng.random((ng, 6)) < 0.6)
    par = np.repeat(np.arange(ng), nsubs)
    gl = fuzz.copy(); np.add.at(gl, par, sl)
    tot = gl.sum(axis=0) + rng.integers(0, 4, 6)
    if tot.sum() == 0: tot[1] = 1
    cnt = np.stack([gen.split(rng, int(tot[t]), nf) for t in range(6)], axis=1)
    data = [(rng.normal(size=(int(n), 3)).astype("f4"), rng.normal(size=(int(n), 3)).astype("f4"), (rng.permutation(int(n)) + 10 * n).astype("i8")) for n in tot]
    o = np.concatenate([np.zeros((1, 6), int), np.cumsum(cnt, axis=0)])
    os.makedirs(base + "/snapdir_%03d" % isnap); os.makedirs(base + "/groups_%03d" % isnap)
    for i in range(nf):
        write_type1(base + "/snapdir_%03d/snap_%03d.%d" % (isnap, isnap, i), e, cnt[i], tot, nf,
                    [tuple(d[o[i, t]:o[i + 1, t]] for d in data[t]) for t in range(6)], rng)
    gs = gen.split(rng, ng, ngf); ss = gen.split(rng, nsub, ngf)
    go, so = np.concatenate([[0], np.cumsum(gs)]), np.concatenate([[0], np.cumsum(ss)])
    opts = {"id_bytes": 8}; kw = {}
    if rng.random() < 0.3: kw["id_bytes"] = opts["id_bytes"] = 4
    dp = int(rng.integers(2))
    for i in range(ngf):
        h = make_header(rng, "gadget4.SubTabFile", opts)
        h.update(NFiles=ngf, flag_dp=dp, Ngroups=int(gs[i]), Nsubgroups=int(ss[i]), GroupLenType=gl[go[i]:go[i + 1]], Nsubs=nsubs[go[i]:go[i + 1]],
                 FirstSub=firstsub[go[i]:go[i + 1]], SubLenType=sl[so[i]:so[i + 1]])
        w = Writer(rng, "gadget4.SubTabFile", opts, e, h)
        with open(base + "/groups_%03d/fof_subhalo_tab_%03d.%d" % (isnap, isnap, i), "wb") as f: f.write(w.out)
    desc.update(npart_file=cnt, GroupLenType=gl, SubLenType=sl, Nsubs=nsubs, groups_per_file=gs, endian=e, reader=C.__module__); ops = desc["reads"] = []
    s = C(base, "snap", isnap, **kw)
    off = np.cumsum(gl, axis=0) - gl
    for _ in range(6):
        g = int(rng.integers(ng)); k = int(rng.integers(3))
        arg = g
        if k == 1: arg = np.int64(g)
        if k == 2:
            fi = int(np.searchsorted(go, g, side="right") - 1); arg = (fi, g - int(go[fi]))
        ops.append(arg)
        r = s.read_fof_group(arg)
        expect(len(r) == 6, "one entry per type", len(r))
        for t in range(6):
            n = int(gl[g, t]); a = int(off[g, t])
            if n == 0:
                expect(all(len(v) == 0 for v in r[t].values()), "particles of type %d returned" % t, r[t]); continue
            for q, nm in enumerate(("Coordinates", "Velocities", "ParticleIDs")):
                expect(nm in r[t], "no %s of type %d" % (nm, t))
                expect_equal(r[t][nm], data[t][q][a:a + n], "%s of type %d of group %d" % (nm, t, g))
            want = -np.ones(n, dtype=int); p = 0
            for q in range(nsubs[g]):
                sub = int(firstsub[g]) + q; want[p:p + sl[sub, t]] = sub; p += int(sl[sub, t])
            expect_equal(r[t]["SubNr"], want, "SubNr of type %d of group %d" % (t, g), dtype=False)
    return ("fof4", which, nf, ngf, bool((cnt == 0).any()), e)

def mill(rng, S, desc):
    import virgo.formats.subfind_lgadget2 as lg, virgo.sims.millennium as ms
    C = [lg, ms][rng.integers(2)].Snapshot
    base = S.new("_m")
    s = make_snapshot(rng, base, int(rng.integers(1, 5)), desc); ops = desc["reads"] = []
    snap = C(base, "snap", s["isnap"])
    o = np.concatenate([np.nonzero((s["key"] >= a) & (s["key"] < b))[0] for a, b in zip(desc["cuts"][:-1], desc["cuts"][1:])])
    nc = s["ncell"]
    for _ in range(5):
        if rng.random() < 0.5:
            keys = rng.choice(s["nhash"], int(rng.integers(1, min(s["nhash"], 12) + 1)), replace=False)
            if rng.random() < 0.3: keys = np.concatenate([keys, keys[:1]])
            ops.append(keys); r = snap.read_cells(keys); sel = np.isin(s["key"], keys)
        else:
            cs = s["box"] / nc
            lo = rng.integers(-nc, nc, 3); hi = lo + rng.integers(0, nc, 3)
            reg = np.stack([(lo + rng.random(3) * 0.8 + 0.1) * cs, (hi + rng.random(3) * 0.8 + 0.1) * cs], axis=1)
            reg = np.sort(reg, axis=1)
            coords = reg.ravel(); coords = [list, tuple, np.asarray][rng.integers(3)](coords)
            if rng.random() < 0.2 and cs == int(cs):
                coords = tuple(int(x) for x in (np.stack([lo, hi], axis=1) * cs).ravel())
            ops.append(coords); r = snap.read_region(coords)
            sel = np.ones(len(s["key"]), bool)
            for d in range(3):
                a, b = int(np.floor(coords[2 * d] / cs)), int(np.floor(coords[2 * d + 1] / cs))
                sel &= np.isin(s["cells"][:, d], np.mod(np.arange(a, b + 1), nc))
        for got, v, nm in zip(r, (s["pos"], s["vel"], s["ids"]), ("positions", "velocities", "IDs")):
            expect_equal(got, v[sel], nm)
    return ("mill", s["bits"], s["nfiles"], min(len(s["key"]), 3))
