"""C24 write_binary, hash, all_bytes_used, write_hdf5"""
from harness import *
import hashlib, h5py
import virgo.util.read_binary as rb
from c17 import build, declare, value_equal, to_bytes, lookup
NCASES = {"quick": 5000 * 4, "thorough": 60000}

def describe(f, ops, endian):
    f.set_endian(endian)
    for o in ops:
        if o[0] == "skip": f.skip_bytes(o[1])
        elif o[0] == "dset": f.add_dataset(o[1], o[2], o[3])
        elif o[0] == "attr": f.add_attribute(o[1], o[2], o[3])
        else: f.read_and_skip(o[2], o[3])

def case(rng, j, S, desc):
    fn, fo = S.new(".dat"), S.new(".out")
    endian = ["<", ">"][rng.integers(2)]
    mode = ["copy", "copy", "hash", "hash", "hdf5"][rng.integers(5)]
    ops, blocks, out = build(rng, fn, desc, endian, cover=mode in ("hash", "hdf5") or rng.random() < 0.5)
    if not blocks: return None
    desc.update(endian=endian, mode=mode, ops=ops)
    with open(fn, "wb") as fd: fd.write(out or b"")
    if len(out) == 0: return None
    f = rb.BinaryFile(fn)
    describe(f, ops, endian)
    has_skip = any(o[0] == "skip" and o[1] > 0 for o in ops)
    if mode == "copy":
        to = [None, "<", ">", "="][rng.integers(4)]
        kw = {} if to is None and rng.random() < 0.5 else {"endian": to}
        desc.update(to=to)
        f.write_binary(fo, **kw)
        got = open(fo, "rb").read()
        want = bytearray(max([b[5] + b[2].itemsize * int(np.prod(b[3], dtype=int)) for b in blocks]))
        mask = np.zeros(len(want), dtype=bool)
        for kind, name, dt, shape, v, off in blocks:
            if to is None:
                base = dt.base if dt.subdtype is not None else dt
                w = np.asarray(v).astype(base).tobytes()
            else: w = to_bytes(v, dt, to)
            want[off:off + len(w)] = w; mask[off:off + len(w)] = True
        nz = np.nonzero(mask)[0]
        need = int(nz[-1]) + 1 if len(nz) else 0
        expect(len(got) >= need and len(got) <= len(out), "size of the file written", len(got), need)
        for kind, name, dt, shape, v, off in blocks:
            n = dt.itemsize * int(np.prod(shape, dtype=int))
            expect(got[off:off + n] == bytes(want[off:off + n]), "bytes of block " + name, got[off:off + n], bytes(want[off:off + n]))
        if not has_skip and to == endian:
            expect(got == out, "copy differs from the original")
        if rng.random() < 0.2:
            expect_raises(lambda: f.write_binary(fo), FileExistsError, "overwriting an existing file")
        # describing the output in its own order gives the same values back
        if to is not None and not has_skip:
            g = rb.BinaryFile(fo); describe(g, ops, to)
            for kind, name, dt, shape, v, off in blocks:
                if kind == "dset": value_equal(g[name.strip("/")][...], v, dt, "copy of " + name)
            g.close()
        feat = ("copy", to, endian, has_skip)
    elif mode == "hash":
        alg = ["sha1", "md5", "sha256"][rng.integers(3)]
        le = b"".join(to_bytes(v, dt, "<") for _, _, dt, _, v, _ in blocks)
        h = f.hash(alg) if rng.random() < 0.7 or alg != "sha1" else f.hash()
        expect(h == hashlib.new(alg, le).hexdigest(), "checksum", h)
        expect(f.all_bytes_used() is True or f.all_bytes_used() == True, "all bytes used")
        # any byte that is not in exactly one block
        k = int(rng.integers(4)); g = rb.BinaryFile(fn); desc["defect"] = k
        if k == 0: # extra bytes in the file
            with open(fn, "ab") as fd: fd.write(b"x" * int(rng.integers(1, 9)))
            describe(g, ops, endian)
        elif k == 1: # block beyond the end
            describe(g, ops, endian); g.add_dataset("zz", "i2", (1,))
        elif k == 2: # gap of n bytes
            n = int(rng.integers(1, 9)); at = int(rng.integers(len(ops) + 1))
            with open(fn, "ab") as fd: fd.write(b"x" * n)
            describe(g, ops[:at] + [("skip", n)] + ops[at:], endian)
        else: # two blocks overlap, total size is right
            n = int(rng.integers(1, len(out) + 1))
            describe(g, ops, endian); g.skip_bytes(-n); g.add_dataset("zz", "u1", (n,))
            with open(fn, "ab") as fd: fd.write(b"x" * n)
        expect(not g.all_bytes_used(), "all bytes reported used")
        expect_raises(lambda: g.hash(), IOError, "checksum of an incompletely described file")
        g.close(); feat = ("hash", endian, k)
    else:
        gz = int([0, 6, 1][rng.integers(3)])
        desc.update(gzip=gz)
        f.write_hdf5(fo, gzip=gz) if rng.random() < 0.8 else f.write_hdf5(filename=fo, mode="w", gzip=gz)
        with h5py.File(fo, "r") as h:
            seen = set()
            for kind, name, dt, shape, v, off in blocks:
                name = name.strip("/")
                if kind == "dset":
                    d = h[name]; value_equal(d[...], v, dt, "HDF5 dataset " + name); seen.add(name)
                elif kind == "attr":
                    head, _, tail = name.rpartition("/")
                    a = (h[head] if head else h).attrs[tail]
                    base = dt.base if dt.subdtype is not None else dt
                    expect(arr_equal_struct(np.asarray(a), np.asarray(v)), "HDF5 attribute " + name, a, v)
            names = []
            h.visititems(lambda n, o: names.append(n) if isinstance(o, h5py.Dataset) else None)
            expect(set(names) == seen, "datasets in the HDF5 file", names, seen)
        feat = ("hdf5", endian, gz)
    f.close()
    return feat + (tuple(sorted(set(b[2].kind for b in blocks))), len(blocks))

def arr_equal_struct(a, b):
    if a.shape != b.shape: return False
    if a.dtype.names:
        return all(arr_equal_struct(a[n], b[n]) for n in a.dtype.names)
    return arr_equal(a, b)

def fixed(S):
    def big(n, trail, gz):
        def f(desc):
            desc.update(n=n, trail=trail, gzip=gz, what="dataset larger than the chunk size")
            fn, fo = S.new(".dat"), S.new(".h5")
            v = (np.arange(n * int(np.prod(trail, dtype=int))) % 251).astype("i2").reshape((n,) + trail)
            with open(fn, "wb") as fd: fd.write(v.astype(">i2").tobytes())
            b = rb.BinaryFile(fn); b.set_endian(">"); b.add_dataset("g/x", "i2", v.shape)
            b.write_hdf5(fo, gzip=gz)
            with h5py.File(fo, "r") as h: expect_equal(h["g/x"][...], v, "HDF5 dataset")
            expect(b.hash() == hashlib.sha1(v.astype("<i2").tobytes()).hexdigest(), "checksum")
            b.close()
        return f
    return [big(n, t, gz) for n in (81919, 81920, 81921, 200000) for t in ((), (2,)) for gz in (0, 1)]
