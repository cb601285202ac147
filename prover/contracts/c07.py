"""C07: virgo.mpi.parallel_sort.reduce_elements and parallel_bincount"""
from verify import *
from loops import LoopSpec, All
from contracts.psort import MOD, alltoallv, elem
from contracts import c03
import mpimodel

I8 = np.dtype(np.int64)
T = SDtype("T", Elem, "?")
OP = z3.Function("OP", Elem, Elem, Elem)


class G: pass


def fold(g, nd):
    """Row x after the first k updates have been applied"""
    F = z3.Function("FOLD", *([Int] * (1 + nd)), Elem); g.FOLD = F
    g.start = lambda x, js: eq(F(0, t(x), *js), g.before(x, *js))
    g.next = lambda k, x, js: implies(ge(k, 0), F(t(add(k, 1)), t(x), *js) == z3.If(t(g.idx(k)) == t(x), OP(F(t(k), t(x), *js), t(g.upd(k, *js))), F(t(k), t(x), *js)))


def same(I, a): 
    g = I.ctx.g
    return isinstance(a, SArr) and a.cell is g.arr.cell


def applied(I, idx, upd):
    """The updates which are applied, in this order"""
    g = I.ctx.g; ctx = I.ctx
    if not ctx.quiet and not hasattr(g, "idx"):
        idx, upd = I.np.as_array(idx), I.np.as_array(upd)
        g.idx, g.upd, g.R = ctx.named(idx.freeze(), 1, "idx"), upd.freeze(), idx.shape[0]
        g.shape = upd.shape
        fold(g, g.nd)


def at_handler(uf, a, idx, upd):
    """Contract of ufunc.at: update k is combined with row idx[k], one after the other"""
    I = uf.npm.I; ctx, npm = I.ctx, I.np; g = ctx.g
    a = I.resolve(a)
    ctx.require(same(I, a), "the updates are applied to the array"); ctx.require(not hasattr(g, "idx"), "the updates are applied once")
    idx, upd = npm.as_array(I.resolve(idx)), npm.as_array(I.resolve(upd))
    applied(I, idx, upd)
    ctx.require(eq(len(upd.shape), a.ndim), "updates are rows"); ctx.require(eq(upd.shape[0], g.R), "one update for each index")
    for x, y in zip(upd.shape[1:], a.shape[1:]): ctx.require(eq(x, y), "updates have the shape of the rows")
    k = fresh_int("k")
    ctx.prove(implies(land(le(0, k), lt(k, g.R)), land(le(0, g.idx(k)), lt(g.idx(k), a.shape[0]))), "indexes of the updates are in range", hints=g.recv_hints(k))
    F = g.FOLD
    npm.update(a, lambda *i: True, lambda x, *js: F(t(g.R), t(x), *[t(j) for j in js]))
    g.done = True


def reduce_local(op, a, kw):
    I = V.I; ctx, npm = I.ctx, I.np; g = ctx.g
    x, y = [I.resolve(z) for z in a]
    ctx.require(same(I, y), "the updates are applied to the array")
    x = npm.as_array(x); old = y.freeze(); fx = x.freeze()
    for p, q in zip(x.shape, y.shape): ctx.require(eq(p, q), "update and row have the same shape")
    npm.update(y, lambda *i: True, lambda *i: OP(t(old(*i)), t(fx(*i))))


class V: pass


def rows_done(st):
    I = st.I; g = I.ctx.g
    applied(I, I.resolve(st["index_recv"]), I.resolve(st["updates_recv"]))
    if not hasattr(g, "FOLD"): return True
    x = fresh_int("x"); js = [fresh_int("j") for _ in range(g.nd - 1)]
    a = I.resolve(st["arr"])
    cur = t(a.get(x, *js)); g.done = True
    inb = land(le(0, x), lt(x, g.n), *[land(le(0, j), lt(j, d)) for j, d in zip(js, g.trail)])
    return All([x] + js, implies(inb, cur == g.FOLD(t(st.k), x, *js)), [cur] if usable_trigger(cur, [x] + js) else [], [g.start(x, js), g.next(sub(st.k, 1), x, js)])


def contract(v, cfg):
    nd = cfg["ndim"]; V.I = v.I
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    g = ctx.g = G(); g.nd = nd
    n, m = v.int("n", lo=0), v.int("m", lo=0)
    trail = [v.int("d%d" % i, local=False, lo=0) for i in range(nd - 1)]
    a = v.array("arr", [n] + trail, T, contig=cfg["contig"])
    upd = v.array("updates", [m] + trail, T, contig=cfg["contig"])
    index = v.array("index", [m], I8)
    a0, i0, u0 = a.cell.fn, index.cell.fn, upd.cell.fn
    g.arr, g.before, g.n, g.trail = a, a0, n, trail
    rows = lambda q: w.on(n, q)
    first = lambda k: ctx.psum(rows, k, P)
    i = v.fresh("i")
    valid = lambda i: implies(land(le(0, i), lt(i, m)), land(le(0, i0(i)), lt(i0(i), first(P))))
    v.assume(valid(i), [i], [i0(i)])
    def below(k):
        s = ctx.searches[0]["s"]
        return ite(le(k, 0), 0, ite(lt(k, P), s(k), m))
    def sent(self, params, fd, mm):
        if not getattr(ctx, "searches", None): return None
        c = lambda k: below(k)
        c.hints = lambda k: base(k) + base(add(k, 1)) + [fd(k) == fd(k)]
        return c
    def base(k):
        h = [ctx.step(rows, k, P), ctx.nonneg(rows, k, P), implies(land(le(0, k), lt(k, P)), land(ge(rows(k), 0), le(add(first(k), rows(k)), first(P)))), eq(first(t(0)), 0)]
        for s in getattr(ctx, "searches", [])[:1]:
            sk = s["s"](k); so = getattr(ctx, "argsorts", [None])[0]
            h += [s["rng"](k), s["below"](0, k), s["below"](sub(sk, 1), k), s["above"](sk, k), s["below"](sub(s["s"](add(k, 1)), 1), add(k, 1))]
            if so: h += [valid(so["p"](x)) for x in (sk, sub(sk, 1), t(0))] + [so["perm"](x) for x in (sk, sub(sk, 1), t(0))]
            h += [s["above"](sub(s["s"](add(k, 1)), 1), k), s["above"](s["s"](add(k, 1)), k), s["below"](sk, add(k, 1)), s["rng"](add(k, 1)), s["below"](sub(sk, 1), add(k, 1)), s["above"](sub(sk, 1), add(k, 1))]
        return h
    ctx.sum_candidates = [sent]
    on = lambda f, q: w.on(t(f), q)
    ctx.alltoallv_hints = lambda q: base(q) + base(me) + [on(h, q) for h in base(me) if not conc(lit(h))]
    def at(f, q, *xs):
        """f(xs) as seen by rank q, for xs of this rank"""
        ph = [fresh_int("u") for _ in xs]
        return z3.substitute(on(f(*ph), q), *[(p, t(x)) for p, x in zip(ph, xs)])
    def source(k):
        """Rank and position there of update k received, and what is known about them"""
        e1, so, s = ctx.exchanges[0], ctx.argsorts[0], ctx.searches[0]
        q = e1["own"](k); j = add(e1["sfrom"](q), sub(k, e1["rd"](q)))
        i = at(so["p"], q, j)
        def there(me2):          # seen from the sending rank: what it sends to rank me2
            return lambda j: land(so["perm"](j), valid(so["p"](j)), s["below"](j, me2), s["above"](j, me2), s["below"](j, add(me2, 1)), s["above"](j, add(me2, 1)), s["rng"](me2), s["rng"](add(me2, 1)))
        m1, j1 = fresh_int("r"), fresh_int("j")
        known = z3.substitute(on(there(m1)(j1), q), (m1, t(me)), (j1, t(j)))
        return q, j, i, [e1["fromseg"](k), e1["cover"](k) if callable(e1["cover"]) else True, known] + base(me) + base(q) + [w.rng]
    g.recv_hints = lambda k: [x for x in source(k)[3] if is_sym(x)]
    ctx.element_hints = None
    ctx.ufunc_at = lambda uf, a_, i_, u_: at_handler(uf, a_, i_, u_)
    ctx.reduce_local = reduce_local
    op = getattr(v.np, "ufuncs")["add"] if cfg["op"] == "ufunc" else mpimodel.OPS["SUM"]
    r = v.call(MOD, "reduce_elements", a, upd, index, op, **({"comm": v.I.comm} if cfg["contig"] else {}))
    v.ensure(z3.BoolVal(r is None), "nothing is returned")
    if not hasattr(g, "idx") or not hasattr(g, "done"): v.ensure(False, "the updates are applied"); return
    k, x = v.fresh("k"), v.fresh("x"); js = [v.fresh("j") for _ in trail]
    R = g.R
    inj = land(*[land(le(0, j), lt(j, d)) for j, d in zip(js, trail)])
    v.ensure_all([x] + js, land(le(0, x), lt(x, n), inj), eq(a.get(x, *js), g.FOLD(t(R), x, *js)), "each row is the reduction of its old value with the updates received for it")
    # the updates received are those addressed to this rank's rows, each once
    e = getattr(ctx, "exchanges", [])
    if len(e) < 2: v.ensure(False, "updates are exchanged"); return
    q, j, i, hints = source(k)
    e2 = e[1]
    mine = lambda y: land(le(first(me), y), lt(y, add(first(me), n)))
    hints = [h for h in hints if is_sym(h)] + [e2["fromseg"](k), e2["uniq"](k, q)]
    idx_q = at(i0, q, i)
    v.ensure_all([k], land(le(0, k), lt(k, R)), land(le(0, q), lt(q, P), le(0, i), lt(i, w.on(m, q)), mine(idx_q), eq(add(g.idx(k), first(me)), idx_q)), "every update applied is an update of some rank for this row", hints=hints)
    v.ensure_all([k] + js, land(le(0, k), lt(k, R), inj), eq(g.upd(k, *js), at(lambda i_, *jj: u0(i_, *jj), q, i, *js) if js else at(u0, q, i)), "with the value given by that rank", hints=hints)
    # and every update of any rank for a row of this one is applied exactly once: position of update i of rank q
    q, i = v.fresh("q"), v.fresh("i")
    so, s, e1 = ctx.argsorts[0], ctx.searches[0], e[0]
    def position(q, i):
        j = at(so["q"], q, i)
        return add(e1["rd"](q), sub(j, e1["sfrom"](q))), j
    K, j = position(q, i)
    i1, m1, j1 = fresh_int("i"), fresh_int("r"), fresh_int("j")
    there = lambda: land(so["inv"](i1), valid(i1), s["below"](j1, m1), s["above"](j1, m1), s["below"](j1, add(m1, 1)), s["above"](j1, add(m1, 1)), s["rng"](m1), s["rng"](add(m1, 1)))
    known = z3.substitute(on(there(), q), (m1, t(me)), (i1, t(i)), (j1, t(j)))
    yq = at(i0, q, i)
    addressed = land(le(0, q), lt(q, P), le(0, i), lt(i, w.on(m, q)), mine(yq))
    hints = base(me) + base(q) + [w.rng, known, e1["uniq"](K, q), e2["uniq"](K, q)] + [z3.substitute(z3.substitute(on(h, q), ()), ) for h in []]
    src = e1["own"](K); jj = add(e1["sfrom"](src), sub(K, e1["rd"](src)))
    v.ensure_all([q, i], addressed, land(le(0, K), lt(K, R), eq(add(g.idx(K), first(me)), yq)), "every update for a row of this rank is applied", hints=hints)
    v.ensure_all([q, i] + js, land(addressed, inj), eq(g.upd(K, *js), at(lambda i_, *x: u0(i_, *x), q, i, *js)), "with its value", hints=hints)
    v.ensure_all([q, i], addressed, land(eq(src, q), eq(at(so["p"], src, jj), i)), "and only once", hints=hints)
    v.unchanged(upd, u0, "updates not modified"); v.unchanged(index, i0, "index not modified")


PROPERTY = "C07"
def tasks():
    for nd in (1, 2, 3):
        for contig in (True, False):
            for op in ("ufunc", "MPI"):
                yield dict(label="reduce_elements", fn=contract, cfg=dict(ndim=nd, contig=contig, op=op), spmd=True, contracts={MOD + ".my_alltoallv": alltoallv},
                           loopspecs={(MOD + ".reduce_elements", 1): LoopSpec([rows_done])} if op == "MPI" else {}, cfgname="ndim %d, %s operator%s" % (nd, op, "" if contig else ", not contiguous"))
