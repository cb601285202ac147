"""C14: virgo.util.match.match"""
from verify import *

MOD = "virgo.util.match"


def elements(native):
    d = SDtype("T", Real, "f", native, "=" if native else ">")
    return d


def contract(v, cfg):
    n, m = v.int("n", lo=0), v.int("m", lo=0)
    a = v.array("arr1", [n], elements(cfg["native1"]))
    b = v.array("arr2", [m], elements(cfg["native2"]))
    a0, b0 = a.cell.fn, b.cell.fn
    kw = {}
    i, j = v.fresh("i"), v.fresh("j")
    if cfg["mode"] == "sorted":
        kw["arr2_sorted"] = True
        v.assume(implies(land(le(0, i), lt(i, j), lt(j, m)), le(b.get(i), b.get(j))), [i, j], [z3.MultiPattern(b.get(i), b.get(j))])
    if cfg["mode"] == "index":
        # any sorting index: a permutation of the positions which puts the elements in order
        idx = v.array("arr2_index", [m], np.dtype(np.int64))
        inv = v.ctx.fresh_fn("inv", 1)
        v.assume(implies(land(le(0, i), lt(i, m)), land(le(0, idx.get(i)), lt(idx.get(i), m), eq(inv(idx.get(i)), i))), [i], [idx.get(i)])
        v.assume(implies(land(le(0, i), lt(i, m)), land(le(0, inv(i)), lt(inv(i), m), eq(idx.get(inv(i)), i))), [i], [inv(i), b.get(i)])
        v.assume(implies(land(le(0, i), lt(i, j), lt(j, m)), le(b.get(idx.get(i)), b.get(idx.get(j)))), [i, j], [z3.MultiPattern(idx.get(i), idx.get(j))])
        x0 = idx.cell.fn
        kw["arr2_index"] = idx
    r = v.call(MOD, "match", a, b, **kw)
    k, l = v.fresh("k"), v.fresh("l")
    v.ensure(eq(len(r.shape), 1), "the result is one-dimensional")
    v.ensure(eq(r.shape[0], n), "one entry for each element of the first array")
    v.ensure(z3.BoolVal(r.sort == Int), "the result holds integers")
    inr = land(le(0, k), lt(k, n)); inm = land(le(0, l), lt(l, m))
    v.ensure_all([k], inr, lor(eq(r.get(k), -1), land(le(0, r.get(k)), lt(r.get(k), m))), "entries are -1 or valid indexes")
    v.ensure_all([k], land(inr, ne(r.get(k), -1)), eq(b0(r.get(k)), a0(k)), "the element found is equal")
    v.ensure_all([k, l], land(inr, inm, eq(a0(k), b0(l))), ne(r.get(k), -1), "an element which exists is found")
    v.unchanged(a, a0, "first array not modified")
    v.unchanged(b, b0, "second array not modified")
    if cfg["mode"] == "index": v.unchanged(idx, x0, "index not modified")


PROPERTY = "C14"
def tasks():
    for mode in ("plain", "sorted", "index"):
        for n1 in (True, False):
            for n2 in (True, False):
                yield dict(label="match", fn=contract, cfg=dict(mode=mode, native1=n1, native2=n2), cfgname="%s,%s,%s" % (mode, "native" if n1 else "swapped", "native" if n2 else "swapped"))
