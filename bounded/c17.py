"""C17 BinaryFile"""
from harness import *
import struct
import virgo.util.read_binary as rb
NCASES = {"quick": 8000 * 4, "thorough": 120000}

SIMPLE = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "S1", "S5", "?"]

def rand_dtype(rng, depth=0):
    k = rng.integers(12)
    o = ["=", "<", ">"][rng.integers(3)]
    return _dt(rng, k, o, depth)

def _dt(rng, k, o, depth=0):
    if k < 8 or depth > 1:
        t = SIMPLE[rng.integers(len(SIMPLE))]
        return np.dtype(t).newbyteorder(o)
    if k < 10:
        return np.dtype((_dt(rng, 0, o, depth + 1), tuple(int(x) for x in rng.integers(1, 4, rng.integers(1, 3)))))
    n = rng.integers(1, 4)
    f = []
    for i in range(n):
        t = _dt(rng, [0, 0, 8, 10][rng.integers(4)], o, depth + 1)
        f.append(("f%d" % i, t))
    return np.dtype(f)

def rand_values(rng, dt, shape):
    """array of dtype dt (native order) with random valid values"""
    a = np.zeros(shape, dtype=dt.newbyteorder("="))
    def fill(v):
        if v.dtype.names:
            for n in v.dtype.names: fill(v[n])
            return
        k = v.dtype.kind
        if k == "b": v[...] = rng.random(v.shape) < 0.5
        elif k in "iu":
            info = np.iinfo(v.dtype); v[...] = rng.integers(info.min, info.max, v.shape, dtype=v.dtype, endpoint=True)
        elif k == "f": v[...] = rng.normal(size=v.shape) * 1000
        elif k == "c": v[...] = rng.normal(size=v.shape) + 1j * rng.normal(size=v.shape)
        elif k == "S":
            w = rng.integers(97, 123, v.shape + (v.dtype.itemsize,)).astype(np.uint8)
            v[...] = w.view("S%d" % v.dtype.itemsize).reshape(v.shape)
    if a.ndim == 0:
        b = np.zeros((1,), dtype=dt.newbyteorder("=")); fill(b)
        return b[0] if dt.subdtype is None else b[0]
    fill(a)
    return a

def value_equal(got, want, dt, what):
    """got must have the declared type (in any order) and the wanted values"""
    g = np.asarray(got); w = np.asarray(want)
    expect(g.shape == w.shape, what + ": shape", g.shape, w.shape)
    base = dt.base if dt.subdtype is not None else dt
    expect(g.dtype.newbyteorder("=") == base.newbyteorder("="), what + ": type", g.dtype, dt)
    def cmp(a, b):
        if a.dtype.names:
            return all(cmp(a[n], b[n]) for n in a.dtype.names)
        return arr_equal(a, b)
    expect(cmp(g, w), what + ": values", g, w)

def to_bytes(v, dt, endian):
    base = dt.base if dt.subdtype is not None else dt
    return np.asarray(v).astype(base.newbyteorder(endian)).tobytes()

def build(rng, fn, desc, endian, cover=False, maxblocks=6, dsets_only=False, skips=True, scalar_ok=True):
    """Random declarations; returns (list of operations, list of blocks, bytes)"""
    nb = int(rng.integers(1, maxblocks + 1))
    ops, blocks, out = [], [], b""
    names = set(); dsets = []
    for i in range(nb):
        if skips and not cover and rng.random() < 0.2:
            n = int(rng.integers(0, 20)); ops.append(("skip", n)); out += bytes(rng.integers(0, 256, n, dtype=np.uint8)); continue
        dt = rand_dtype(rng)
        nd = int(rng.integers(0, 4)) if scalar_ok else int(rng.integers(1, 4))
        shape = tuple(int(x) for x in rng.integers(0 if rng.random() < 0.2 else 1, 5, nd))
        attr = rng.random() < 0.3
        grp = ["", "", "A/", "A/B/", "/A/", "C/"][rng.integers(6)]
        if attr and dsets and rng.random() < 0.5:
            d = dsets[rng.integers(len(dsets))]
            name = d + "/at%d" % i
        else:
            name = grp + ("at%d" % i if attr else "d%d" % i)
            if not attr: dsets.append(name)
        v = rand_values(rng, dt, shape)
        b = to_bytes(v, dt, endian)
        assert len(b) == dt.itemsize * int(np.prod(shape, dtype=int))
        kind = "attr" if attr else "dset"
        if rng.random() < 0.15 and not cover: kind = "read"
        if kind == "read" and dsets and name == dsets[-1]: dsets.pop()
        ops.append((kind, name, dt, shape)); blocks.append((kind, name, dt, shape, v, len(out))); out += b
    return ops, blocks, out

def lookup(f, kind, name):
    name = name.strip("/")
    if kind == "dset":
        return f[name]
    head, _, tail = name.rpartition("/")
    obj = f[head] if head else f
    return obj.attrs, tail

def rand_key(rng, shape):
    k = rng.integers(7)
    if k == 0: return ()
    if k == 1: return Ellipsis
    if not shape: return ()
    n = shape[0]
    if k == 2:
        a, b = sorted(int(x) for x in rng.integers(-1, n + 2, 2)); return slice(a if a >= 0 else None, b, [None, 1, 2, 3][rng.integers(4)])
    if k == 3 and n: return int(rng.integers(-n, n))
    if k == 4 and n: return rng.integers(0, n, int(rng.integers(0, 6)))
    if k == 5: return rng.random(n) < 0.5
    if len(shape) > 1: return (slice(None), slice(0, 1))
    return slice(None, None, -1)

def case(rng, j, S, desc):
    mode = int(rng.integers(10))
    if mode == 0: return fortran(rng, S, desc)
    if mode == 1: return outside(rng, S, desc)
    if mode == 2: return cache(rng, S, desc)
    return general(rng, S, desc)

def declare(f, ops, rng, blocks, toggle=None):
    bi = 0
    for o in ops:
        if o[0] == "skip": f.skip_bytes(o[1])
        elif o[0] == "dset": f.add_dataset(o[1], o[2], o[3]); bi += 1
        elif o[0] == "attr": f.add_attribute(o[1], o[2], o[3]); bi += 1
        else:
            r = f.read_and_skip(o[2], o[3])
            if toggle is None:
                value_equal(r, blocks[bi][4], o[2], "read_and_skip value")
            bi += 1

def general(rng, S, desc):
    fn = S.new(".dat")
    endian = ["<", ">", "="][rng.integers(3)]
    ops, blocks, out = build(rng, fn, desc, endian)
    with open(fn, "wb") as fd: fd.write(out or b"\0")
    how = int(rng.integers(4))
    desc.update(endian=endian, how=how, ops=ops)
    f = rb.BinaryFile(fn)
    native = "<" if sys.byteorder == "little" else ">"
    e = native if endian == "=" else endian
    if how == 0:
        f.set_endian(endian)
        declare(f, ops, rng, blocks)
    elif how == 1:
        f.enable_byteswap(e != native)
        declare(f, ops, rng, blocks)
    elif how == 2:        # set after the declarations
        f.set_endian("<" if e == ">" else ">")
        declare(f, ops, rng, blocks, toggle=True)
        f.set_endian(endian)
    else:                 # toggled half way
        f.set_endian("<" if e == ">" else ">")
        declare(f, ops, rng, blocks, toggle=True)
        f.toggle_byteswap() if False else f.set_endian(e)
    for kind, name, dt, shape, v, off in blocks:
        if kind == "read": continue
        if kind == "attr":
            attrs, tail = lookup(f, kind, name)
            value_equal(attrs[tail], v, dt, name)
            expect(tail in list(attrs), "attribute not listed")
        else:
            d = lookup(f, kind, name)
            expect(d.shape == tuple(shape) and d.dtype == dt, "shape/type of " + name, d.shape, d.dtype)
            value_equal(d[...], v, dt, name)
            for _ in range(3):
                key = rand_key(rng, shape)
                value_equal(d[key], np.asarray(v)[key], dt, name + " with key " + short(key))
            if shape: expect(len(d) == shape[0], "len of " + name)
    f.close()
    return (endian, how, tuple(sorted(set(o[0] for o in ops))), tuple(sorted(set(b[2].kind for b in blocks))), any("/" in b[1] for b in blocks))

def outside(rng, S, desc):
    fn = S.new(".dat")
    ops, blocks, out = build(rng, fn, desc, "=", maxblocks=3)
    if not blocks or len(out) < 2: return None
    cut = int(rng.integers(1, len(out)))
    with open(fn, "wb") as fd: fd.write(out[:cut])
    f = rb.BinaryFile(fn)
    desc.update(ops=ops, size=cut)
    bi = 0
    for o in ops:
        if o[0] == "skip": f.skip_bytes(o[1]); continue
        b = blocks[bi]; bi += 1
        inside = b[5] + o[2].itemsize * int(np.prod(o[3], dtype=int)) <= cut
        if o[0] == "read":
            if not inside:
                expect_raises(lambda: f.read_and_skip(o[2], o[3]), IOError, "read past the end of the file"); return ("outside read",)
            f.read_and_skip(o[2], o[3])
        elif o[0] == "dset": f.add_dataset(o[1], o[2], o[3])
        else: f.add_attribute(o[1], o[2], o[3])
    nbad = 0
    for kind, name, dt, shape, v, off in blocks:
        inside = off + dt.itemsize * int(np.prod(shape, dtype=int)) <= cut
        if kind == "read": continue
        if kind == "attr": attrs, tail = lookup(f, kind, name); rd = lambda: attrs[tail]
        else: d = lookup(f, kind, name); rd = lambda: d[...]
        if inside: value_equal(rd(), v, dt, name)
        else: expect_raises(rd, IOError, "read past the end of the file"); nbad += 1
    if rng.random() < 0.3:
        f = rb.BinaryFile(fn); f.skip_bytes(-4); f.add_dataset("x", "i2", (1,))
        expect_raises(lambda: f["x"][...], IOError, "read before the start of the file")
    return ("outside", min(nbad, 2), len(blocks))

def cache(rng, S, desc):
    """Many files open, some closed in between, cache eviction"""
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (160, hard))
    try:
        return _cache(rng, S, desc)
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))

def _cache(rng, S, desc):
    nf = int(rng.choice([3, 31, 32, 33, 40, 90]))
    files = []
    for i in range(nf):
        fn = S.new(".dat")
        v = rng.integers(-2**31, 2**31, 5).astype("i4"); w = rng.normal(size=(2, 2))
        with open(fn, "wb") as fd: fd.write(v.astype("<i4").tobytes() + w.astype("<f8").tobytes())
        f = rb.BinaryFile(fn); f.set_endian("<"); f.add_dataset("g/v", "i4", (5,)); f.add_attribute("w", "f8", (2, 2))
        files.append((f, v, w, fn))
    desc.update(nfiles=nf); log = []
    for _ in range(int(rng.integers(20, 120))):
        i = int(rng.integers(nf)); k = int(rng.integers(6)); log.append((i, k)); desc["log"] = log
        f, v, w, fn = files[i]
        if k <= 2: expect_equal(f["g/v"][...], v, "v of file %d" % i)
        elif k == 3: expect_equal(f.attrs["w"], w, "w of file %d" % i)
        elif k == 4: f.close()
        else:
            g = rb.BinaryFile(fn); g.set_endian("<"); g.add_dataset("v", "i4", (5,)); expect_equal(g["v"][1:3], v[1:3], "v through a second object")
            if rng.random() < 0.5: g.close()
    for i in list(range(nf)):
        f, v, w, fn = files[i]
        expect_equal(f["g"]["v"][...], v, "v of file %d at the end" % i); expect_equal(f.attrs["w"], w, "w")
    for f in files: f[0].close()
    return ("cache", nf)

def fortran(rng, S, desc):
    fn = S.new(".dat")
    endian = ["<", ">"][rng.integers(2)]
    native = "<" if sys.byteorder == "little" else ">"
    auto = bool(rng.random() < 0.5)
    nrec = int(rng.integers(1, 4))
    out = b""; recs = []
    bad_rec = int(rng.integers(nrec)) if rng.random() < 0.5 else -1
    kind = int(rng.integers(3))
    for i in range(nrec):
        blocks = []
        for b in range(int(rng.integers(0 if i else 1, 3))):
            dt = np.dtype(["i4", "f8", "i2", "u1"][rng.integers(4)]); n = int(rng.integers(0 if i else 1, 5))
            blocks.append((dt, rand_values(rng, dt, (n,))))
        body = b"".join(to_bytes(v, dt, endian) for dt, v in blocks)
        m1 = m2 = len(body)
        if i == bad_rec:
            if kind == 0: m2 = m1 + int(rng.integers(1, 9))
            elif kind == 1: m1 = m2 = m1 + int(rng.integers(1, 9))
            else: m1 = m1 + int(rng.integers(1, 9))
        out += np.array(m1, dtype=endian + "i4").tobytes() + body + np.array(m2, dtype=endian + "i4").tobytes()
        recs.append(blocks)
    with open(fn, "wb") as fd: fd.write(out + b"\0")
    f = rb.BinaryFile(fn)
    if not auto: f.set_endian(endian)
    elif rng.random() < 0.5: f.set_endian(["<", ">"][rng.integers(2)])
    desc.update(endian=endian, auto=auto, recs=recs, bad=bad_rec, kind=kind, start_endian=f.endian)
    for i, blocks in enumerate(recs):
        if rng.random() < 0.1:
            expect_raises(f.end_fortran_record, IOError, "end of record outside a record")
        f.start_fortran_record(auto_byteswap=auto and i == 0)
        if rng.random() < 0.1:
            expect_raises(f.start_fortran_record, IOError, "nested record")
        for b, (dt, v) in enumerate(blocks):
            f.add_dataset("r%d/b%d" % (i, b), dt, v.shape)
        if i == bad_rec:
            expect_raises(f.end_fortran_record, IOError, "inconsistent record markers")
            return ("fortran bad", kind, auto, endian, i)
        f.end_fortran_record()
    if sum(len(v) for _, v in recs[0]) and auto:
        n0 = sum(v.nbytes for _, v in recs[0])
    for i, blocks in enumerate(recs):
        for b, (dt, v) in enumerate(blocks):
            value_equal(f["r%d/b%d" % (i, b)][...], v, dt, "record %d block %d" % (i, b))
    f.close()
    return ("fortran", nrec, auto, endian)
