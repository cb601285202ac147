"""C25 SQL server native file export"""
from harness import *
import re, collections, h5py
import virgo.database.make_dtrees_table as mt
poison(mt)
NCASES = {"quick": 6000 * 4, "thorough": 60000}
T = {"i4": ("integer", "int"), "i8": ("bigint",), "f4": ("real",), "f8": ("float",)}

def rand_arr(rng, n, shape2, dt):
    if dt.startswith("S"):
        w = rng.integers(97, 123, (n,) + shape2 + (int(dt[1:]),)).astype(np.uint8)
        return w.view(dt).reshape((n,) + shape2)
    k = np.dtype(dt)
    if k.kind == "f": return rng.normal(size=(n,) + shape2).astype(k)
    i = np.iinfo(k)
    return rng.integers(i.min, i.max, (n,) + shape2, dtype=k, endpoint=True)

def check(table, data, fd, fs):
    raw = open(fd, "rb").read()
    cols = []
    for name, a in data.items():
        if a.ndim == 1: cols.append((name, a))
        else: cols += [(name + s, a[:, i]) for i, s in enumerate(("_x", "_y", "_z"))]
    n = len(cols[0][1])
    want = [b"".join(np.ascontiguousarray(c[i:i + 1]).tobytes() for _, c in cols) for i in range(n)]
    expect(len(raw) == sum(len(w) for w in want), "size of data file", len(raw), sum(len(w) for w in want))
    expect(raw == b"".join(want), "contents of data file")
    sql = open(fs).read()
    m = re.match(r"\s*create\s+table\s+(\S+)\s*\((.*)\)\s*;?\s*$", sql, re.S | re.I)
    expect(m is not None and m.group(1) == table, "create table statement", sql)
    decl = [l.split() for l in re.split(r",\s*\n", m.group(2).strip().rstrip(",")) if l.strip()]
    decl = [l for l in decl if l]
    expect([l[0] for l in decl] == [c[0] for c in cols], "columns declared", [l[0] for l in decl], [c[0] for c in cols])
    for l, (name, c) in zip(decl, cols):
        dt = c.dtype
        ok = ("char(%d)" % dt.itemsize,) if dt.kind == "S" else T[dt.str[1:]]
        expect(l[1].lower() in ok, "SQL type of " + name, l[1], dt)

def case(rng, j, S, desc):
    n = int(rng.integers(0, [2, 5, 40][rng.integers(3)])); nc = int(rng.integers(1, 7))
    data = collections.OrderedDict()
    for i in range(nc):
        dt = ["i4", "i8", "f4", "f8", "S1", "S7", "S20"][rng.integers(7)]
        data["c%d" % i] = rand_arr(rng, n, (3,) if rng.random() < 0.4 else (), dt)
        if rng.random() < 0.2: data["c%d" % i] = np.asfortranarray(data["c%d" % i])
        if rng.random() < 0.2 and n: data["c%d" % i] = data["c%d" % i][::-1]
    fd, fs = S.new(".dat"), S.new(".sql")
    kind = int(rng.integers(8)); desc.update(n=n, cols={k: (v.dtype, v.shape) for k, v in data.items()}, kind=kind)
    d = dict(data) if rng.random() < 0.5 else data
    if kind <= 1:
        name = "bad" if rng.random() < 0.5 else list(data)[int(rng.integers(nc))]
        if kind == 0:
            shape = [(n + 1,), (n + 2, 3), (max(n - 1, 0),)][rng.integers(3)]
            if shape[0] == n or (nc == 1 and name != "bad"): return None
        else:
            shape = [(n, 2), (n, 4), (n, 3, 3), (n, 1), (n, 3, 1)][rng.integers(5)]
        d[name] = np.zeros(shape, dtype="i4"); desc["bad"] = shape
        expect_raises(lambda: mt.write_sql_server_native_file("t", d, fd, fs), ValueError, "array of shape %s with %d rows" % (shape, n))
        return ("bad", kind, shape[1:], nc)
    if kind == 2:
        return tree(rng, S, desc)
    keep = {k: v.copy() for k, v in data.items()}
    mt.write_sql_server_native_file("T%d" % (j % 7), d, fd, fs)
    check("T%d" % (j % 7), d, fd, fs)
    for k in keep: expect_equal(data[k], keep[k], "input " + k)
    for k, v in data.items():
        if v.dtype.kind != "S" or True:
            st = mt.sql_type(v.dtype); expect(np.dtype(mt.numpy_type(st)) == v.dtype, "type from SQL type", st)
    return ("ok", n == 0, nc, tuple(sorted(set(str(v.dtype) + str(v.ndim) for v in data.values()))))

def tree(rng, S, desc):
    from c21 import make_forest
    ni, di, sn, mass = make_forest(rng, int(rng.integers(1, 25)))
    n = len(ni); nf = int(rng.integers(1, 4))
    cut = np.sort(rng.integers(0, n + 1, nf - 1)); cut = np.concatenate([[0], cut, [n]])
    data = collections.OrderedDict([("descendantIndex", di), ("nodeIndex", ni), ("nodeMass", mass.astype("f4")),
                                    ("position", rng.normal(size=(n, 3)).astype("f4")), ("snapshotNumber", sn.astype("i4"))])
    base = S.new("")
    for k in range(nf):
        with h5py.File("%s.%d.hdf5" % (base, k), "w") as f:
            f.create_group("fileInfo").attrs["numberOfFiles"] = nf
            for nm, a in data.items(): f["haloTrees/" + nm] = a[cut[k]:cut[k + 1]]
    desc.update(tree=(ni, di, sn, mass), cut=cut)
    out = S.new("o")
    mt.make_dtrees_table("Tree", base, out)
    import virgo.database.index_trees as it
    full = collections.OrderedDict(data)
    full["mBranch"] = it.find_progenitor_branch_mass_delucia(ni, di, full["snapshotNumber"], full["nodeMass"])
    full["depthFirst"], full["endMainBranch"], full["lastProgenitor"] = it.depth_first_index(ni, di, full["mBranch"])
    check("Tree", full, out + ".dat", out + ".sql")
    return ("tree", nf, min(n, 4))
