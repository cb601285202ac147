"""C02: virgo.mpi.parallel_sort.repartition"""
from verify import *
from contracts.psort import MOD, alltoallv, elem

I8 = np.dtype(np.int64)
T = SDtype("T", Elem, "?")


def clamp(x, hi): return tmax(0, tmin(x, hi))


def contract(v, cfg):
    nd = cfg["ndim"]
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    n = v.int("n", lo=0)
    trail = [v.int("d%d" % i, local=False, lo=0) for i in range(nd - 1)]
    a = v.array("arr", [n] + trail, T, contig=cfg["contig"])
    want = v.array("ndesired", [P], I8, local=False)
    want.pylist = cfg["list"]
    a0, w0 = a.cell.fn, want.cell.fn
    q = v.fresh("q")
    v.assume(implies(land(le(0, q), lt(q, P)), ge(w0(q), 0)), [q], [w0(q)])
    rows = lambda q: w.on(n, q)
    Fin = lambda k: ctx.psum(rows, k, P)
    Fout = lambda k: ctx.psum(lambda x: w0(x), k, P)
    v.assume(eq(Fin(P), Fout(P)))
    # closed forms of the sums of counts, over ranks r < k
    def sent(self, params, fd, m):
        c = lambda k: clamp(sub(Fout(k), Fin(me)), n)
        c.hints = lambda k: base(k)
        return c
    def received(self, params, fd, m):
        c = lambda k: clamp(sub(Fin(k), Fout(me)), w0(me))
        c.hints = lambda k: base(k)
        return c
    base = lambda k: [implies(land(le(0, k), lt(k, P)), land(ge(rows(k), 0), ge(w0(k), 0))), ctx.step(rows, k, P), ctx.step(lambda x: w0(x), k, P), ctx.nonneg(rows, k, P), ctx.nonneg(lambda x: w0(x), k, P),
                      ctx.nonneg(rows, me, P), ctx.nonneg(lambda x: w0(x), me, P), ge(n, 0), implies(land(le(0, me), lt(me, P)), ge(w0(me), 0))]
    top = lambda k: [implies(land(le(0, k), lt(k, P)), land(le(add(Fin(k), rows(k)), Fin(P)), le(add(Fout(k), w0(k)), Fout(P))))]
    ctx.sum_candidates = [sent, received]
    ctx.alltoallv_hints = lambda q: base(q) + top(q) + top(me)
    r = v.call(MOD, "repartition", a, want)
    v.ensure(land(eq(len(r.shape), nd), eq(r.shape[0], w0(me)), *[eq(x, d) for x, d in zip(r.shape[1:], trail)]), "the number of rows asked for", hints=base(me) + top(me))
    v.ensure(z3.BoolVal(r.dtype is T), "the result has the type of the input")
    p = v.fresh("p"); q = v.fresh("q"); js = [v.fresh("j") for _ in trail]
    g = add(Fout(me), p)
    inp = land(le(0, p), lt(p, w0(me)), le(0, q), lt(q, P), le(Fin(q), g), lt(g, add(Fin(q), rows(q))), *[land(le(0, j), lt(j, d)) for j, d in zip(js, trail)])
    x = ctx.exchanges[-1] if getattr(ctx, "exchanges", None) else None
    on_q = lambda f, q: [w.on(t(h), q) for h in f if not conc(lit(h))]
    hints = base(me) + base(q) + top(me) + top(q) + ([x["uniq"](p, q)] + on_q(base(me), q) if x else [])
    v.ensure_all([p, q], inp, eq(r.get(p, *js), elem(w, a0, q, sub(g, Fin(q)), js)), "row p is the row of the input at the same global position", hints=hints)
    v.unchanged(a, a0, "input not modified"); v.unchanged(want, w0, "sizes asked for not modified")


PROPERTY = "C02"
def tasks():
    for nd in (1, 2, 3):
        for contig in (True, False):
            for lst in (True, False):
                if lst and (nd, contig) != (1, True): continue
                yield dict(label="repartition", fn=contract, cfg=dict(ndim=nd, contig=contig, list=lst), spmd=True, contracts={MOD + ".my_alltoallv": alltoallv},
                           cfgname="ndim %d%s%s" % (nd, "" if contig else ", not contiguous", ", list of sizes" if lst else ""))
