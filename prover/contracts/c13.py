"""C13: virgo.mpi.util.replace_none_with_zero_size and broadcast_dtype_and_dims"""
from verify import *
from loops import LoopSpec, opt_split

MOD = "virgo.mpi.util"


def setup(v, cfg):
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    T = SDtype("T", Elem, "?"); T.term = ctx.fresh("type")          # which type the array of this rank has
    have = ctx.fresh("have", Bool)
    n = v.int("n", lo=0); dims = [v.int("d%d" % i, lo=0) for i in range(cfg["ndim"] - 1)]
    a = v.array("arr", [n] + dims, T)
    g = ctx.g = type("G", (), {})()
    g.have = lambda q: w.on(have, q)
    g.type = lambda q: w.on(T.term, q)
    g.dims = lambda q: [w.on(d, q) for d in dims]
    # the first rank which has an array, if there is one
    g.first = ctx.const("first"); q = v.fresh("q")
    g.inr = lambda q: land(le(0, q), lt(q, P))
    g.least = lambda q: implies(land(g.inr(q), lt(q, g.first)), lnot(g.have(q)))
    ctx.used.add("well-ordering of the natural numbers")
    ctx.facts.append(z3.And(0 <= g.first, g.first <= P, z3.Implies(g.first < P, g.have(g.first))))
    ctx.facts.append(forall([q], g.least(q), [g.have(q)]))
    return g, a, T, have


def inv(name, leaves):
    """After k ranks: what this rank has itself, or what the first of those ranks which has something has"""
    def f(st):
        g, w = st.I.ctx.g, st.I.ctx.world; me = w.me; k = st.k
        v = st.f.l[name]
        c, val = opt_split(v)
        from loops import opt_leaves
        got = opt_leaves(val) if val is not None else []
        mine, firsts = leaves(g, me), leaves(g, g.first)
        return land(eq(t(c), t(lor(g.have(me), lt(g.first, k)))), *[implies(g.have(me), eq(x, y)) for x, y in zip(got, mine)],
                    *[implies(land(lnot(g.have(me)), lt(g.first, k)), eq(x, y)) for x, y in zip(got, firsts)])
    return f


def hints(st):
    g, w = st.I.ctx.g, st.I.ctx.world
    return [g.least(st.k), g.least(w.me)]


def check_type(v, g, dtype, shape, own, name):
    me = v.ctx.world.me
    q = t(g.first)
    v.ensure(implies(own, land(eq(dtype.term, g.type(me)), *[eq(x, y) for x, y in zip(shape, g.dims(me))])), name + ": a rank with an array keeps its type and shape")
    v.ensure(implies(lnot(own), land(g.inr(q), g.have(q), eq(dtype.term, g.type(q)), *[eq(x, y) for x, y in zip(shape, g.dims(q))])), name + ": the type and shape of an array of another rank")


def replace(v, cfg):
    ctx, w = v.ctx, v.ctx.world; me = w.me
    g, a, T, have = setup(v, cfg)
    a0 = a.cell.fn
    r = v.call(MOD, "replace_none_with_zero_size", Choice(have, a, None), *([v.I.comm] if cfg["comm"] else []))
    ctx.where = "postcondition"
    none = lnot(lt(g.first, w.P))
    cases(v, r, True, [], g, a, a0, have, none, cfg)


def cases(v, r, cond, path, g, a, a0, have, none, cfg):
    """The result, in each of the cases it is made of"""
    if isinstance(r, Choice):
        cases(v, r.a, land(cond, r.c), path, g, a, a0, have, none, cfg); cases(v, r.b, land(cond, lnot(r.c)), path, g, a, a0, have, none, cfg); return
    h = [g.least(v.ctx.world.me)]
    if r is None:
        v.ensure(implies(cond, none), "None only if no rank has an array", hints=h); return
    v.ensure(implies(cond, lnot(none)), "an array if a rank has one", hints=h)
    if r is a:
        v.ensure(implies(cond, have), "a rank with an array gets the same array", hints=h)
        v.unchanged(a, a0, "the array is not modified"); return
    v.ensure(implies(cond, lnot(have)), "a rank with an array gets the same array", hints=h)
    q = t(g.first)
    v.ensure(implies(cond, land(eq(r.shape[0], 0), eq(len(r.shape), cfg["ndim"]))), "no rows")
    v.ensure(implies(cond, land(g.inr(q), g.have(q), eq(r.dtype.term, g.type(q)), *[eq(x, y) for x, y in zip(r.shape[1:], g.dims(q))])), "the type and shape of an array of another rank", hints=h)


def broadcast(v, cfg):
    ctx, w = v.ctx, v.ctx.world; me = w.me
    g, a, T, have = setup(v, cfg)
    r = v.call(MOD, "broadcast_dtype_and_dims", Choice(have, a, None), *([v.I.comm] if cfg["comm"] else []))
    (c1, dtype), (c2, shape) = opt_split(r[0]), opt_split(r[1])
    h = [g.least(me)]
    some = lt(g.first, w.P)
    v.ensure(land(eq(t(c1), t(some)), eq(t(c2), t(some))), "a type and shape if and only if a rank has an array", hints=h)
    v.ensure(z3.BoolVal(isinstance(dtype, SDtype) and isinstance(shape, tuple) and len(shape) == cfg["ndim"] - 1), "a type and the dimensions after the first")
    q = t(g.first)
    v.ensure(implies(have, land(eq(dtype.term, g.type(me)), *[eq(x, y) for x, y in zip(shape, g.dims(me))])), "a rank with an array reports its own", hints=h)
    v.ensure(implies(land(lnot(have), some), land(g.have(q), eq(dtype.term, g.type(q)), *[eq(x, y) for x, y in zip(shape, g.dims(q))])), "other ranks report those of an array of another rank", hints=h)


PROPERTY = "C13"
def tasks():
    F = MOD + ".broadcast_dtype_and_dims"
    specs = {(F, 0): LoopSpec([inv("arr_dtype", lambda g, q: [g.type(q)])], hints=hints), (F, 1): LoopSpec([inv("arr_shape", lambda g, q: g.dims(q))], hints=hints)}
    for nd in (1, 2, 3):
        for comm in (False, True):
            for label, fn in (("replace_none_with_zero_size", replace), ("broadcast_dtype_and_dims", broadcast)):
                yield dict(label=label, fn=fn, cfg=dict(ndim=nd, comm=comm), spmd=True, loopspecs=specs, cfgname="ndim %d%s" % (nd, ", communicator" if comm else ""))
