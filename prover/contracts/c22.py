"""C22: virgo.mpi.merger_tree.consistent_match (match_halos: bounded only)"""
from verify import *
from contracts.c05 import fetch
from contracts.psort import elem1

MOD = "virgo.mpi.merger_tree"
I8 = np.dtype(np.int64)


def contract(v, cfg):
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    n, m = v.int("n1", lo=0), v.int("n2", lo=0)
    a, b = v.array("match_index_12", [n], I8), v.array("match_index_21", [m], I8)
    a0, b0 = a.cell.fn, b.cell.fn
    rows1, rows2 = (lambda q: w.on(n, q)), (lambda q: w.on(m, q))
    f1, f2 = (lambda k: ctx.psum(rows1, k, P)), (lambda k: ctx.psum(rows2, k, P))
    i, q, j, k = [v.fresh(x) for x in "iqjk"]
    mine = lambda i: land(le(0, i), lt(i, n))
    valid = lambda i: implies(mine(i), land(le(-1, a0(i)), lt(a0(i), f2(P))))
    back = lambda j: implies(land(le(0, j), lt(j, m)), land(le(-1, b0(j)), lt(b0(j), f1(P))))
    v.assume(valid(i), [i], [a0(i)]); v.assume(back(j), [j], [b0(j)])
    sels = lambda: getattr(ctx, "selections", [])
    ctx.fetch_hints = lambda k: [s["val"](k) for s in sels()] + [valid(s["sel"](k)) for s in sels()]
    r = v.call(MOD, "consistent_match", a, b, **({"comm": v.I.comm} if cfg["comm"] else {}))
    v.ensure(land(eq(len(r.shape), 1), eq(r.shape[0], n)), "one entry for each halo of the first catalogue")
    R = r.freeze()
    at = lambda q, i: land(le(0, q), lt(q, P), le(f2(q), a0(i)), lt(a0(i), add(f2(q), rows2(q))))
    h = [w.rng, ctx.nonneg(rows1, me, P), ctx.nonneg(rows2, q, P)] + [s["at"](i) for s in sels()] + [g["got"](s["pc"](i), q) for g in getattr(ctx, "fetches", []) for s in sels()]
    v.ensure(implies(land(mine(i), at(q, i)), eq(R(i), ite(eq(elem1(w, b0, q, sub(a0(i), f2(q))), add(f1(me), i)), 1, 0))), "1 if the match points back at the halo, 0 otherwise", hints=h)
    v.ensure(implies(land(mine(i), eq(a0(i), -1)), eq(R(i), 0)), "0 for a halo without a match", hints=h)
    v.ensure(implies(mine(i), lor(eq(R(i), 0), eq(R(i), 1))), "the result is 0 or 1", hints=h)
    v.unchanged(a, a0, "first matches not modified"); v.unchanged(b, b0, "second matches not modified")


PROPERTY = "C22"
def tasks():
    for comm in (False, True):
        yield dict(label="consistent_match", fn=contract, cfg=dict(comm=comm), spmd=True, contracts={"virgo.mpi.parallel_sort.fetch_elements": fetch}, cfgname="communicator" if comm else "default communicator")
