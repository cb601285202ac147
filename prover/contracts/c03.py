"""C03: virgo.mpi.parallel_sort.fetch_elements"""
from verify import *
from contracts.psort import MOD, alltoallv, elem

I8 = np.dtype(np.int64)
T = SDtype("T", Elem, "?")


def contract(v, cfg):
    nd = cfg["ndim"]
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    n, m = v.int("n", lo=0), v.int("m", lo=0)
    trail = [v.int("d%d" % i, local=False, lo=0) for i in range(nd - 1)]
    a = v.array("arr", [n] + trail, T, contig=cfg["contig"])
    index = v.array("index", [m], I8)
    a0, i0 = a.cell.fn, index.cell.fn
    rows = lambda q: w.on(n, q)
    first = lambda k: ctx.psum(rows, k, P)
    i = v.fresh("i")
    valid = lambda i: implies(land(le(0, i), lt(i, m)), land(le(0, i0(i)), lt(i0(i), first(P))))
    v.assume(valid(i), [i], [i0(i)])
    res = None; kw = {}
    if cfg["result"]:
        res = v.array("result", [m] + trail, T, contig=cfg["result"] == "contiguous"); kw["result"] = res
    def below(k):
        """Requests for elements before the first one on rank k"""
        s = ctx.searches[0]["s"]
        return ite(le(k, 0), 0, ite(lt(k, P), s(k), m))
    def sent(self, params, fd, mm):
        if not getattr(ctx, "searches", None): return None
        c = lambda k: below(k)
        c.hints = lambda k: base(k) + base(add(k, 1)) + [fd(k) == fd(k)]
        return c
    def base(k):
        h = [ctx.step(rows, k, P), ctx.nonneg(rows, k, P), implies(land(le(0, k), lt(k, P)), land(ge(rows(k), 0), le(add(first(k), rows(k)), first(P)))), eq(first(t(0)), 0)]
        for s in getattr(ctx, "searches", [])[:1]:
            sk = s["s"](k); so = getattr(ctx, "argsorts", [None])[0]
            h += [s["rng"](k), s["below"](0, k), s["below"](sub(sk, 1), k), s["above"](sk, k), s["below"](sub(s["s"](add(k, 1)), 1), add(k, 1))]
            if so: h += [valid(so["p"](x)) for x in (sk, sub(sk, 1), t(0))] + [so["perm"](x) for x in (sk, sub(sk, 1), t(0))]
            # sorted: a search for a larger value ends later
            h += [s["above"](sub(s["s"](add(k, 1)), 1), k), s["above"](s["s"](add(k, 1)), k), s["below"](sk, add(k, 1)), s["rng"](add(k, 1)), s["below"](sub(sk, 1), add(k, 1)), s["above"](sub(sk, 1), add(k, 1))]
        return h
    ctx.sum_candidates = [sent]
    ctx.alltoallv_hints = lambda q: base(q) + base(me) + [w.on(t(h), q) for h in base(me) if not conc(lit(h))]
    r = v.call(MOD, "fetch_elements", a, index, **kw)
    if cfg["result"]:
        v.ensure(z3.BoolVal(r is None), "nothing is returned if a result array is given"); r = res
    v.ensure(land(eq(len(r.shape), nd), eq(r.shape[0], m), *[eq(x, d) for x, d in zip(r.shape[1:], trail)]), "one row for each index")
    v.ensure(z3.BoolVal(r.dtype is T), "the result has the type of the input")
    i, q = v.fresh("i"), v.fresh("q"); js = [v.fresh("j") for _ in trail]
    inp = land(le(0, i), lt(i, m), le(0, q), lt(q, P), le(first(q), i0(i)), lt(i0(i), add(first(q), rows(q))), *[land(le(0, j), lt(j, d)) for j, d in zip(js, trail)])
    hints = base(q) + base(me) + [valid(i)]
    xs = getattr(ctx, "exchanges", []); so = getattr(ctx, "argsorts", [None])[0]
    if len(xs) == 2 and so:
        e1, e2 = xs; j = so["q"](i)                       # position of the request in the sorted list
        s = ctx.searches[0]
        p = add(w.on(t(e1["rd"](z3.Int("_x"))), q), sub(j, e1["sd"](q)))
        p = z3.substitute(p, (z3.Int("_x"), me))            # position in the list received by rank q
        uq = fresh_int("p"); us = fresh_int("q")
        hints += [so["inv"](i), valid(i), e2["uniq"](j, q), z3.substitute(w.on(t(e1["uniq"](uq, us)), q), (uq, p), (us, me)), e2["fromseg"](j),
                  s["below"](j, q), s["above"](j, q), s["below"](j, add(q, 1)), s["above"](j, add(q, 1)), w.rng, z3.And(0 <= q, q < P)]
    v.ensure_all([i, q], inp, eq(r.get(i, *js), elem(w, a0, q, sub(i0(i), first(q)), js)), "row i is the row at global position index[i]", hints=hints)
    v.unchanged(a, a0, "input not modified"); v.unchanged(index, i0, "index not modified")


PROPERTY = "C03"
def tasks():
    for nd in (1, 2, 3):
        for contig in (True, False):
            for res in (None, "contiguous", "strided"):
                yield dict(label="fetch_elements", fn=contract, cfg=dict(ndim=nd, contig=contig, result=res), spmd=True, contracts={MOD + ".my_alltoallv": alltoallv},
                           cfgname="ndim %d%s%s" % (nd, "" if contig else ", not contiguous", ", %s result array" % res if res else ""))
