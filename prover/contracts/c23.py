"""C23: virgo.mpi.parallel_sort.find_splitting_points (what it returns, if it does; that it stops is checked by bounded runs)"""
from verify import *
from loops import LoopSpec, All
from contracts.psort import MOD
from contracts.c04 import uniform_fn
from contracts.c01 import mpi_datatype

I8 = np.dtype(np.int64)
T = SDtype("T", Real, "f")
F = MOD + ".find_splitting_points"


class G:
    """Number of elements smaller than, and not larger than, a value: on this rank, and on the ranks before k"""
    def __init__(self, ctx, a, n):
        w = self.w = ctx.world; self.ctx, self.P, self.me, self.n = ctx, w.P, w.me, n
        ctx.used.add("definition of functions by recursion")
        less, upto = self.less, self.upto = [ctx.fresh_fn(s, 1, Int, Real) for s in ("less", "upto")]
        self.l = lambda x, i: land(le(0, less(x)), le(less(x), n), implies(land(le(0, i), lt(i, less(x))), lt(a(i), x)), implies(land(le(less(x), i), lt(i, n)), ge(a(i), x)))
        self.u = lambda x, i: land(le(0, upto(x)), le(upto(x), n), implies(land(le(0, i), lt(i, upto(x))), le(a(i), x)), implies(land(le(upto(x), i), lt(i, n)), gt(a(i), x)))
        SL, SU = self.SL, self.SU = [z3.Function(ctx.name(s), Real, Int, Int) for s in ("LESS", "UPTO")]
        self.inq = lambda q: land(le(0, q), lt(q, self.P))
        self.same = []; self.steps = lambda x, k: [SL(x, 0) == 0, SU(x, 0) == 0, implies(self.inq(k), land(SL(x, t(add(k, 1))) == SL(x, t(k)) + self.at(less, x, k), SU(x, t(add(k, 1))) == SU(x, t(k)) + self.at(upto, x, k)))]
    def at(self, f, x, q):
        v = z3.Const("value", Real)
        return z3.substitute(self.on(f(v), q), (v, x))
    def on(self, x, q): return self.w.on(t(x), q)
    def hit(self, x, r): return land(le(self.SL(x, self.P), r), lt(r, self.SU(x, self.P)))


def same_on_all(ctx, x, what, hints=()):
    """x (a function of indices within bounds) has the same value on all ranks"""
    w = ctx.world; q = fresh_int("q")
    if is_sym(x) and contains(x, w.me): ctx.prove(implies(land(le(0, q), lt(q, w.P)), x == w.on(x, q)), what, hints=[h for f in hints for h in f(q)])


def median(I, L):
    """weighted_median: some value, which depends on nothing but the arguments; they must be the same on all ranks where all ranks use the result"""
    ctx = I.ctx; npm = I.np; ctx.used.add("weighted_median")
    a, b = npm.as_array(I.resolve(L["arr"])), npm.as_array(I.resolve(L["weight"]))
    if a.ndim != 1 or b.ndim != 1: raise Unsupported("weighted_median of several dimensions")
    j = fresh_int("j"); ctx.require(eq(a.shape[0], b.shape[0]), "weighted_median: as many weights as values")
    x, y = t(a.get(j)), t(b.get(j))
    if any(contains(z, ctx.world.me) for z in (x, y, t(a.shape[0]))): return ctx.fresh_fn("median", 0, Real)()
    return uniform_fn(ctx, "median", 0, Real)()


def contract(v, cfg):
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    n = v.int("n", lo=1); m = v.int("m", local=False, lo=0)
    a = v.array("arr", [n], T); a0 = a.cell.fn
    r = v.array("r", [m], I8, local=False); r0 = r.cell.fn
    i, j, q = [v.fresh(x) for x in "ijq"]
    v.assume(gt(m, P) if cfg["many"] else le(m, P))
    sorted_ = lambda i, j: implies(land(le(0, i), le(i, j), lt(j, n)), le(a0(i), a0(j)))
    v.assume(sorted_(i, j), [i, j], [z3.MultiPattern(a0(i), a0(j))])
    g = ctx.g = G(ctx, a0, n); g.r, g.m = r0, m
    ctx.close_at_use = ctx.fresh_sums = True
    ctx.on_selection = lambda s: selected(ctx, g, s)
    def cand(left):
        def f(self, params, fd, nn):
            """Sum over the ranks of the places of a value in the array"""
            for s in getattr(ctx, "searches", []):
                if (s["side"] == "left") != left: continue
                x = fd(fresh_int("d"))
                df = ctx.defs.get(x.decl().name()) if z3.is_app(x) and x.num_args() else None
                if df is not None: x = z3.substitute(df[1], *zip(df[0], x.children()))
                e = argument(x, t(s["s"](0)).decl())
                if e is None: continue
                x = t(s["fv"](e)); S, h, own = (g.SL, g.l, g.less) if left else (g.SU, g.u, g.upto)
                F, inr = self.this_sum, land(*[land(le(0, e), lt(e, d)) for d in s["shape"]])
                c = lambda k: ite(inr, S(x, t(k)), F(k))
                place = lambda: [s["rng"](e), s["below"](t(own(x)), e), s["above"](t(own(x)), e), s["above"](t(s["s"](e)), e), s["below"](t(sub(s["s"](e), 1)), e), h(x, t(s["s"](e))), h(x, t(sub(s["s"](e), 1))), h(x, t(own(x))), h(x, t(sub(own(x), 1)))]
                c.hints = lambda k: [eq(F(0), 0), implies(le(0, k), eq(F(add(k, 1)), add(F(k), fd(t(k)))))] + g.steps(x, k) + across(g, place(), k, e) + [f(k, e) for f in g.same]
                return c
        return f
    ctx.sum_candidates = [cand(True), cand(False)]
    res = v.call(MOD, "find_splitting_points", a, r, v.I.comm)
    ctx.where = "postcondition"; ctx.func = v.label
    if not isinstance(res, tuple) or len(res) != 3: v.ensure(False, "three arrays are returned"); return
    val, lo, hi = [v.np.as_array(x) for x in res]
    for x, s in zip((val, lo, hi), ("values", "lowest positions", "highest positions")): v.ensure(land(eq(len(x.shape), 1), eq(x.shape[0], m)), "one of the %s for each requested position" % s)
    V, A, B = t(val.get(i)), t(lo.get(i)), t(hi.get(i)); here = land(le(0, i), lt(i, m))
    ends = [z3.substitute(b, *[(x, i) for x in vs]) for vs, b in getattr(ctx, "loop_ends", []) if len(vs) == 1]
    v.ensure(implies(here, land(le(A, r0(i)), le(r0(i), B))), "the requested position is between the lowest and the highest", hints=ends)
    v.ensure(implies(here, eq(A, g.SL(V, P))), "the lowest position is the number of smaller elements", hints=ends)
    v.ensure(implies(here, eq(B, sub(g.SU(V, P), 1))), "the highest position is that of the last element which is not larger", hints=ends)
    for x, s in ((V, "value"), (A, "lowest position"), (B, "highest position")):
        v.ensure(implies(land(here, g.inq(q)), eq(x, w.on(x, q))), "the %s is the same on all ranks" % s, hints=ends)
    x, y, k = z3.Const("x", Real), z3.Const("y", Real), v.fresh("k"); SL, SU = g.SL, g.SU
    v.ensure(implies(lt(x, y), le(g.upto(x), g.less(y))), "lemma: elements not larger than a value are smaller than a larger one", hints=[g.u(x, t(g.less(y))), g.l(y, t(g.less(y)))])
    ul = lambda x, y, q: implies(land(lt(x, y), g.inq(q)), le(g.at(g.upto, x, q), g.at(g.less, y, q)))
    below = lambda x, y, k: implies(land(lt(x, y), le(0, k), le(k, P)), le(SU(x, t(k)), SL(y, t(k))))
    v.ensure(below(x, y, 0), "lemma: sums over ranks: base", hints=g.steps(x, 0) + g.steps(y, 0))
    v.ensure(implies(land(g.inq(k), below(x, y, k)), below(x, y, add(k, 1))), "lemma: sums over ranks: step", hints=g.steps(x, k) + g.steps(y, k) + [ul(x, y, k)])
    ctx.used.add("induction over ranks")
    V2 = z3.substitute(V, (i, j)); at2 = lambda h: [z3.substitute(t(e), (i, j)) for e in h]
    known = lambda V, A, B: implies(here, land(le(g.SL(V, P), r0(i)), lt(r0(i), g.SU(V, P))))
    v.ensure(known(V, A, B), "the value is the one at the requested position", hints=ends)
    v.ensure(implies(land(le(0, i), lt(i, m), le(0, j), lt(j, m), le(r0(i), r0(j))), le(V, V2)), "values are in the order of the positions", hints=[known(V, A, B)] + at2([known(V, A, B)]) + [below(V2, V, P)])
    v.unchanged(a, a0, "the array is not modified"); v.unchanged(r, r0, "the requested positions are not modified")


def argument(e, decl):
    """Last argument of an application of the function in the term"""
    st = [e]
    while st:
        x = st.pop()
        if z3.is_app(x):
            if x.decl().name() == decl.name(): return x.children()[-1]
            st += x.children()
    return None


def across(g, facts, q, e):
    """Facts about index e of this rank, on rank q (the index remains that of this rank)"""
    u = fresh_int("u")
    return [z3.substitute(g.on(z3.substitute(t(f), (e, u)), q), (u, e)) for f in facts if not conc(lit(f))]


def selected(ctx, g, s):
    """The ranks select the same elements"""
    if not getattr(g, "uni", None): return
    q = fresh_int("q"); pc, fz, n = s["pc"], s["mask"], s["n"]; w = ctx.world
    ind = lambda j: t(fz(j), Int)
    on = lambda x: w.on(t(x), q)
    inst = ctx.induct("the ranks count the same elements", lambda i: eq(pc(i), on(pc(i))), 0, n, lambda i: [z3.MultiPattern(t(pc(i)), on(pc(i)))], [q], g.inq(q),
                      hints=lambda i: [ctx.step(ind, i, n), on(ctx.step(ind, i, n)), g.uni(q, i)] if is_sym(i) else [])
    sel, cnt = s["sel"], s["cnt"]
    def same(q, j):
        """Element j of the selection"""
        i = t(sel(j)); other = lambda f: across(g, [f], q, j)[0]; u = fresh_int("u")
        return land(inst(i, q), inst(n, q), s["val"](j), z3.substitute(g.on(t(s["at"](u)), q), (u, i)), g.uni(q, i))
    g.same = [same]; g.sel = s


def here(g, i): return land(le(0, i), lt(i, g.m))


def bounds(st):
    """The range which is searched lies in the array"""
    g = st.I.ctx.g; i = fresh_int("i"); a, b = st["imin"].freeze()(i), st["imax"].freeze()(i)
    return All([i], implies(here(g, i), land(le(0, a), le(b, sub(g.n, 1)))), [t(a)] if usable_trigger(a, [i]) else [])


def found(st):
    """What is known of the positions which are done"""
    g = st.I.ctx.g; i = fresh_int("i"); d, v, a, b = [t(st[x].freeze()(i)) for x in ("done", "res_median", "res_min_rank", "res_max_rank")]
    return All([i], implies(land(here(g, i), d), land(eq(a, g.SL(v, g.P)), eq(b, sub(g.SU(v, g.P), 1)), le(a, g.r(i)), le(g.r(i), b))), [d] if usable_trigger(d, [i]) else [], ends(g, i))


def ends(g, *xs):
    """What the inner loop established"""
    out = []
    for vs, b in getattr(g.ctx, "loop_ends", []):
        if len(vs) == len(xs) == 1: out.append(z3.substitute(b, *zip(vs, [t(x) for x in xs])))
    return out


def uniform(st):
    """All ranks agree"""
    g = st.I.ctx.g; i, q = fresh_int("i"), fresh_int("q"); xs = [t(st[x].freeze()(i)) for x in ("done", "res_median", "res_min_rank", "res_max_rank")]
    body = implies(land(here(g, i), g.inq(q)), land(*[eq(x, g.on(x, q)) for x in xs]))
    u, k = getattr(g, "uni", None), st.k
    h = ends(g, i); old = [u(q, i)] if u else []
    if is_sym(k) and z3.is_const(k): g.uni = lambda q2, i2, here=land(*g.ctx.local()): z3.substitute(t(implies(here, body)), (i, t(i2)), (q, t(q2)))
    return All([i, q], body, [z3.MultiPattern(xs[0], g.on(xs[0], q))] if usable_trigger(xs[0], [i]) else [], h + [g.on(x, q) for x in h] + old)


def counter(st):
    """Index among the positions which are not done"""
    g = st.I.ctx.g
    if g.ctx.quiet: return True
    if not getattr(g, "sel", None): raise Unsupported("no selection of the positions which are not done")
    return eq(st["j"], g.sel["pc"](st.k))


def old(st, x): return t(st.before(x)(st.i))


def newly(st):
    """Positions become done when the estimate is the value there"""
    g = st.I.ctx.g; i = st.i = fresh_int("i"); e = t(st["est_median"].freeze()(i)); d = t(st["done"].freeze()(i)); now = land(lt(i, st.k), lnot(old(st, "done")), g.hit(e, g.r(i)))
    g.est = lambda i2: z3.substitute(e, (i, t(i2)))
    body = implies(here(g, i), eq(d, t(lor(old(st, "done"), now))))
    if is_sym(st.k) and z3.is_const(st.k): g.head = lambda i2: z3.substitute(t(body), (i, t(i2)))
    return All([i], body, [d] if usable_trigger(d, [i]) else [])


def kept(st):
    """Results of the others are kept"""
    g = st.I.ctx.g; i = st.i = fresh_int("i"); e = t(st["est_median"].freeze()(i)); now = land(lt(i, st.k), lnot(old(st, "done")), g.hit(e, g.r(i)))
    v, a, b = [t(st[x].freeze()(i)) for x in ("res_median", "res_min_rank", "res_max_rank")]
    return All([i], implies(here(g, i), land(eq(v, ite(now, e, old(st, "res_median"))), eq(a, ite(now, g.SL(e, g.P), old(st, "res_min_rank"))), eq(b, ite(now, sub(g.SU(e, g.P), 1), old(st, "res_max_rank"))))), [v] if usable_trigger(v, [i]) else [])


def current(st):
    g = st.I.ctx.g; k = st.k; ctx = g.ctx
    if ctx.quiet: return []
    s = g.sel
    return [g.head(k)] * hasattr(g, "head") + [s["at"](k), ctx.step(lambda j: t(s["mask"](j), Int), k, s["n"]), s["val"](s["pc"](k))] + [x(g.P) for x in getattr(ctx, "instances", [])]


PROPERTY = "C23"
ASSUMPTIONS = ["weighted_median returns some value, the same for the same arguments", "the loop of find_splitting_points ends (checked by bounded runs)"]
spec = {(F, 0): LoopSpec([bounds, found, uniform], same=True), (F, 3): LoopSpec([counter, newly, kept, bounds], hints=current)}
def tasks():
    for many in (True, False):
        yield dict(label="find_splitting_points", fn=contract, cfg=dict(many=many), spmd=True, contracts={MOD + ".weighted_median": median, MOD + ".mpi_datatype": mpi_datatype}, loopspecs=spec, cfgname="more positions than ranks" if many else "no more positions than ranks")
