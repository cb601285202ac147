"""C19 group, subhalo and tree file readers"""
from harness import *
import importlib, h5py
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec"))
import layouts as L
NCASES = {"quick": 6000 * 4, "thorough": 80000}

def values(rng, t, shape):
    dt = np.dtype(t)
    if dt.kind == "f": return rng.normal(size=shape).astype(dt)
    if dt.kind == "S":
        return np.frombuffer(bytes(rng.integers(97, 123, int(np.prod(shape, dtype=int)) * dt.itemsize, dtype=np.uint8)), dtype=dt).reshape(shape)
    i = np.iinfo(dt); return rng.integers(i.min, i.max, shape, dtype=dt, endpoint=True)

class Writer:
    """Writes a file with the given layout; collects the values stored"""
    def __init__(self, rng, layout, opts, e, header):
        self.rng, self.opts, self.e = rng, dict(opts), e
        self.h = dict(header); self.out = b""; self.want = {}; self.rec = None
        self.items(L.LAYOUTS[layout])
    def add(self, t, v):
        self.out += np.asarray(v).astype(self.e + t if t[0] != "S" else t).tobytes()
    def dim(self, d): return d if isinstance(d, int) else int(self.h[d])
    def items(self, lst):
        for x in lst:
            if x == "[": self.rec = self.out; self.out = b""
            elif x == "]":
                b = self.out; m = np.array(len(b), dtype=self.e + "i4").tobytes(); self.out = self.rec + m + b + m; self.rec = None
            elif x == "ENTRIES":
                for i in range(self.h["hsize"]):
                    v = values(self.rng, "S40", ()); self.want["@Header/entry%03d" % i] = v; self.out += v.tobytes()
            elif x[0] == "#marker":
                self.add("i4", x[1] if x[1] is not None else 20)
            elif x[0].startswith("?n>0:"):
                if self.h[x[0][5:]] > 0: self.items(x[1])
            elif x[0].startswith("?"):
                if self.opts.get(x[0][1:]): self.items(x[1])
            else:
                self.field(*x)
    def field(self, name, t, dims):
        shape = tuple(self.dim(d) for d in dims)
        key = name.split("/")[-1]
        if t.endswith("_HALO"):
            fields, size = L.struct_fields(t, self.opts, self.h)
            n = shape[0]; buf = np.zeros((n, size), dtype=np.uint8); d = {}
            for fn, ft, fd, off in fields:
                v = values(self.rng, ft, (n,) + fd); d[fn] = v
                b = v.astype(self.e + ft).reshape(n, -1).view(np.uint8).reshape(n, -1) if n else np.zeros((0, 0), np.uint8)
                buf[:, off:off + b.shape[1]] = b
            self.want[name] = d; self.out += buf.tobytes()
            return
        t = L.resolve(t, self.opts)
        if dims == () and key in self.h: v = np.asarray(self.h[key]).astype(t)
        elif key in self.h and dims: v = np.asarray(self.h[key]).astype(t)
        else: v = values(self.rng, t, shape)
        if key == "flag_dp":
            v = np.asarray(self.h["flag_dp"]).astype("i4"); self.opts["float_bytes"] = 8 if self.h["flag_dp"] else 4
        if dims == (): self.h[key] = v[()]
        self.want[name] = v; self.add(t, v)

def make_header(rng, layout, opts):
    c = lambda: int(rng.integers(0, [1, 2, 4, 12][rng.integers(4)]))
    h = {k: c() for k in ("Ngroups", "Nids", "Nsubhalos", "Nsubgroups", "GroupMinLen", "TotNsubhalos", "TotHalos", "Totunique", "Ntrees", "TotSnaps",
                          "Nhalos", "num_halos", "num_particles", "ng", "hsize", "nn", "isw_slabs_per_task")}
    nf = [1, 2, int(rng.integers(1, 65536)), 255, 256, 512, 65535][rng.integers(7)]
    h["NTask"] = h["NFiles"] = nf
    h["flag_dp"] = int(rng.integers(0, 3)); h["format_revision"] = int(rng.integers(1, 4))
    if layout == "lgadget2.SnapshotFile":
        npf = rng.integers(0, 2**32, 6, dtype=np.uint32); npf[1] = c(); h["NumPart_ThisFile"] = npf; h["NPART1"] = int(npf[1])
        a = int(rng.integers(-5, 2**30)); b = a + int(rng.integers(-1, 9)); h["first_hash_cell"], h["last_hash_cell"] = a, b; h["NHASH"] = b - a + 1
    if layout == "mxxl.FieldFile":
        h["nn"] = int(rng.integers(0, 5))
    if layout.startswith("velociraptor"):
        h["ng"] = c()
    return h

def native(): return "<" if sys.byteorder == "little" else ">"

def check_file(f, want):
    have = set()
    def walk(g, p):
        for a in g.attrs: have.add("@" + p + a)
        for d in g.datasets: have.add(p + d)
        for n in g.groups: walk(g.groups[n], p + n + "/")
    walk(f, "")
    expect(have == set(want), "fields of the file", sorted(have ^ set(want)))
    for n, v in want.items():
        if n[0] == "@":
            grp, a = n[1:].rsplit("/", 1)
            got = f[grp].attrs[a]
        else: got = f[n][...]
        if isinstance(v, dict):
            expect(set(got.dtype.names) == set(v), "fields of " + n, got.dtype.names)
            for k in v: expect_equal(got[k], v[k], n + "." + k)
        else:
            expect_equal(got, v, n)

def case(rng, j, S, desc):
    k = j % (len(L.READERS) + 4)
    if k >= len(L.READERS):
        return [catalogue, multi, hashed, catalogue][k - len(L.READERS)](rng, S, desc)
    mod, cls, layout, options, endian = L.READERS[k]
    C = getattr(importlib.import_module(mod), cls)
    opts = dict(options); kw = {}
    for o, dflt in options.items():
        if rng.random() < 0.6:
            v = [4, 8][rng.integers(2)] if o.endswith("_bytes") else (int(rng.integers(0, 3)) if o == "ikeepfof" else bool(rng.random() < 0.5))
            opts[o] = v; kw[o] = v
    e = "<>"[rng.integers(2)] if endian else native()
    w = Writer(rng, layout, opts, e, make_header(rng, layout, opts))
    fn = S.new(".dat")
    with open(fn, "wb") as fd: fd.write(w.out)
    desc.update(reader=mod + "." + cls, options=kw, endian=e, header={a: b for a, b in w.h.items() if np.ndim(b) == 0})
    f = C(fn, **kw)
    check_file(f, w.want)
    expect(f.offset == len(w.out), "the fields do not account for the whole file", f.offset, len(w.out))
    if cls != "FieldFile":
        expect(f.all_bytes_used(), "bytes of the file that belong to no field")
    f.close()
    return (mod + cls, tuple(sorted(kw.items())), e, tuple(min(int(w.h.get(x, 0)), 1) for x in ("Ngroups", "Nsubgroups", "Nids", "Nsubhalos")))

def catalogue(rng, S, desc):
    which = int(rng.integers(4))
    mod, fam = [("virgo.formats.subfind_pgadget3", "pgadget3"), ("virgo.sims.millennium2", "pgadget3"),
                ("virgo.formats.subfind_gadget4", "gadget4"), ("virgo.sims.coco", "gadget4")][which]
    C = importlib.import_module(mod).GroupCatalogue
    fmt, layout = L.CATALOGUES[fam]
    nf = int(rng.integers(1, 5)); isnap = int(rng.integers(0, 120)); e = "<>"[rng.integers(2)]
    opts = {"id_bytes": 8}
    kw = {}
    if rng.random() < 0.5: kw["id_bytes"] = opts["id_bytes"] = [4, 8][rng.integers(2)]
    if fam == "pgadget3":
        opts.update(float_bytes=4, SO_VEL_DISPERSIONS=False)
        if rng.random() < 0.5: kw["float_bytes"] = opts["float_bytes"] = [4, 8][rng.integers(2)]
        if rng.random() < 0.5: kw["SO_VEL_DISPERSIONS"] = opts["SO_VEL_DISPERSIONS"] = bool(rng.integers(2))
    base = S.new("_dir"); os.makedirs(base + "/groups_%03d" % isnap)
    ws = []; dp = int(rng.integers(2))
    full = int(rng.integers(nf))
    for i in range(nf):
        h = make_header(rng, layout, opts); h["NTask"] = h["NFiles"] = nf; h["flag_dp"] = dp
        if i == full: h["Ngroups"] = max(1, h["Ngroups"]); h["Nsubgroups"] = max(1, h["Nsubgroups"])
        w = Writer(rng, layout, opts, e, h); ws.append(w)
        with open(base + "/" + fmt % (isnap, isnap, i), "wb") as fd: fd.write(w.out)
    names = [n for n, v in ws[full].want.items() if np.ndim(v) > 0 and n[0] != "@"]
    if rng.random() < 0.4:
        names = list(rng.choice(names, int(rng.integers(1, 4)), replace=False)); kw["datasets"] = [str(n) for n in names]
    desc.update(reader=mod + ".GroupCatalogue", options=kw, nfiles=nf, endian=e, counts=[(int(w.h["Ngroups"]), int(w.h["Nsubgroups"])) for w in ws])
    cat = C(base, isnap, **kw)
    expect(set(cat) == set(names) and len(cat) == len(names), "datasets in the catalogue", sorted(set(cat) ^ set(names)))
    for n in names:
        expect_equal(cat[n], np.concatenate([w.want[n] for w in ws if n in w.want]), n)
    return ("cat", which, nf, e, tuple(sorted(k for k in kw)))

def multi(rng, S, desc):
    from virgo.util.read_multi import read_multi
    from virgo.formats.mpa_trees import TreeAuxFile
    nf = int(rng.integers(1, 5)); idx = rng.permutation(20)[:nf]
    base = S.new("_m")
    axis = int(rng.integers(2)); parts = []
    miss = [False] + [bool(rng.random() < 0.3) for _ in range(nf - 1)]
    for k, i in enumerate(idx):
        a = rng.integers(0, 99, (int(rng.integers(0, 5)), 3) if axis == 0 else (3, int(rng.integers(0, 5)))); b = rng.normal(size=a.shape)
        parts.append((a, b))
        with h5py.File(base + "_%d.hdf5" % i, "w") as f:
            f["A/x"] = a
            if not miss[k]: f["y"] = b
    desc.update(nfiles=nf, idx=idx, axis=axis, missing=miss)
    kw = {} if axis == 0 and rng.random() < 0.5 else {"axis": axis}
    r = read_multi(base + "_%(i)d.hdf5", idx if rng.random() < 0.5 else [int(i) for i in idx], ["A/x", "y"], **kw)
    expect(list(r.keys()) == ["A/x", "y"], "names", list(r.keys()))
    expect_equal(r["A/x"], np.concatenate([p[0] for p in parts], axis=axis), "A/x")
    expect_equal(r["y"], np.concatenate([p[1] for p, m in zip(parts, miss) if not m], axis=axis), "y")
    return ("multi", nf, axis, any(miss))

def hashed(rng, S, desc):
    """Consistent Millennium snapshot: passes the reader's own sanity check"""
    from millennium import make_snapshot
    import virgo.formats.subfind_lgadget2 as lg
    base = S.new("_mill")
    info = make_snapshot(rng, base, 1 if rng.random() < 0.5 else int(rng.integers(1, 4)), desc)
    for i in range(info["nfiles"]):
        f = lg.SnapshotFile(info["paths"][i])
        if f["blockid"].shape[0] > 0:
            f.sanity_check()
    return ("hashed", info["bits"], info["nfiles"])
