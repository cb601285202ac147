"""C09: virgo.mpi.parallel_hdf5.collective_read and collective_write"""
from verify import *
from loops import LoopSpec, All
import h5model

MOD = "virgo.mpi.parallel_hdf5"
T = SDtype("T", Elem, "?")


def buffer_arg(v, cfg):
    if not cfg["buffer"]: return {}
    return {"buffer_size": v.int("buffer_size", local=False, lo=0)}


def rem(n, b, k): return tmax(0, sub(n, mul(k, b)))


def products(ctx, g):
    """Facts about products, each proved first"""
    x, b, m, l = [ctx.const(n) for n in ("x", "b", "m", "l")]
    c1 = implies(land(ge(x, 0), ge(b, 1)), ge(mul(add(floordiv(x, b), ite(gt(mod(x, b), 0), 1, 0)), b), x))
    ctx.prove(c1, "lemma as many transfers as this are enough")
    c2 = implies(land(ge(m, l), ge(b, 1)), ge(mul(m, b), mul(l, b)))
    ctx.prove(c2, "lemma products are monotone")
    ctx.lemmas = [forall([x, b], c1), forall([m, l, b], c2)]
    g.enough = lambda xx, bb: subst(t(c1), (x, t(xx)), (b, t(bb)))
    g.more = lambda mm, ll, bb: subst(t(c2), (m, t(mm)), (l, t(ll)), (b, t(bb)))


def read_after(st):
    """Nothing is left after the number of iterations of the loop"""
    g, ctx = st.I.ctx.g, st.I.ctx; b = st["buffer_size_elements"]; l = st["local_nr_iterations"]
    x = st["num_on_task"].get(ctx.world.me)
    ctx.lemma(ge(b, 1), "at least one row at a time")
    ctx.lemma(eq(x, g.mine), "the number of rows of this rank")
    ctx.lemma(ge(mul(l, b), g.mine), "the transfers of this rank are enough", hints=[g.enough(x, b), g.inside, eq(x, g.mine)])
    ctx.lemma(ge(st.n, l), "no rank needs more iterations than there are")
    ctx.lemma(ge(mul(st.n, b), g.mine), "the number of iterations is enough", hints=[g.more(st.n, l, b), ge(mul(l, b), g.mine), ge(st.n, l), ge(b, 1)])


# --- reading
def read_scalars(st):
    g = st.I.ctx.g; b = st["buffer_size_elements"]
    left = rem(g.mine, b, st.k)
    return land(ge(b, 1), eq(st["nr_left"], left), eq(st["offset_in_mem"], sub(g.mine, left)), eq(st["offset_in_file"], add(g.off, sub(g.mine, left))))


def read_content(st):
    g = st.I.ctx.g; f = st["data"].cell.fn; b = st["buffer_size_elements"]
    i = fresh_int("i"); js = [fresh_int("j") for _ in g.trail]
    done = land(le(0, i), lt(i, sub(g.mine, rem(g.mine, b, st.k))), *[land(le(0, j), lt(j, d)) for j, d in zip(js, g.trail)])
    return All([i] + js, implies(done, eq(f(i, *js), g.D(add(g.off, i), *js))), [f(i, *js)] if usable_trigger(f(i, *js), [i] + js) else [])


def read_contract(v, cfg):
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    h5model.install(v.I, v.I.models)
    g = ctx.g = type("G", (), {})()
    N = v.int("N", local=False, lo=0); g.trail = [v.int("d%d" % i, local=False, lo=0) for i in range(cfg["ndim"] - 1)]
    ctx.facts.append(T.itemsize >= 1)
    D = z3.Function("dataset", *([Int] * cfg["ndim"] + [Elem])); g.D = lambda *i: D(*[t(x) for x in i])
    ds = h5model.Dataset(v.I, "x", [N] + g.trail, T, g.D)
    q, r = floordiv(N, P), mod(N, P)
    rows = lambda k: add(q, ite(lt(k, r), 1, 0))
    Off = lambda k: add(mul(k, q), tmin(k, r))
    # N = P q + r
    ctx.lemma(land(eq(N, add(mul(P, q), r)), ge(q, 0), ge(r, 0), lt(r, P)), "division with remainder")
    def cand(self, params, fd, n): return Off
    ctx.sum_candidates = [cand]
    g.mine, g.off = v.int("mine"), v.int("off")
    v.assume(land(eq(g.mine, rows(me)), eq(g.off, Off(me))))
    inside = land(ge(g.off, 0), ge(g.mine, 0), le(add(g.off, g.mine), N))
    ctx.lemma(inside, "the part of a rank is inside the dataset"); g.inside = inside
    products(ctx, g)
    r_ = v.call(MOD, "collective_read", ds, v.I.comm, **buffer_arg(v, cfg))
    qk = v.fresh("q")
    inr = land(le(0, me), lt(me, P))
    v.ensure(land(eq(len(r_.shape), cfg["ndim"]), eq(r_.shape[0], g.mine), *[eq(x, d) for x, d in zip(r_.shape[1:], g.trail)]), "a rank gets N div P rows, or one more")
    v.ensure(z3.BoolVal(r_.dtype is T), "the type is that of the dataset")
    i = v.fresh("i"); js = [v.fresh("j") for _ in g.trail]
    v.ensure_all([i] + js, land(le(0, i), lt(i, g.mine), *[land(le(0, j), lt(j, d)) for j, d in zip(js, g.trail)]), eq(r_.get(i, *js), g.D(add(g.off, i), *js)), "row i is the row of the dataset at the same global position")
    k = v.fresh("k")
    v.ensure(land(eq(Off(0), 0), implies(land(le(0, k), lt(k, P)), eq(Off(add(k, 1)), add(Off(k), rows(k)))), eq(Off(P), N)), "the parts of the ranks follow each other and end at N")


# --- writing
def write_scalars(st):
    g = st.I.ctx.g; b = st["max_elements"]
    left = rem(g.n, b, st.k)
    return land(ge(b, 1), eq(st["nr_left"], left), eq(st["memory_offset"], sub(g.n, left)), eq(st["file_offset"], add(g.off, sub(g.n, left))))


def write_done(st, idx):
    g = st.I.ctx.g; b = st["max_elements"]
    p, js = idx[0], idx[1:]
    return land(le(g.off, p), lt(p, add(g.off, sub(g.n, rem(g.n, b, st.k)))), *[land(le(0, j), lt(j, d)) for j, d in zip(js, g.trail)])


def write_hit(st):
    g = st.I.ctx.g; ds = st["dataset"]; idx = [fresh_int("i") for _ in ds.shape]
    f = ds.hit.fn
    return All(idx, eq(t(lit(f(*idx))), t(lit(write_done(st, idx)))), [f(*idx)] if is_sym(f(*idx)) and usable_trigger(f(*idx), idx) else [])


def write_content(st):
    g = st.I.ctx.g; ds = st["dataset"]; idx = [fresh_int("i") for _ in ds.shape]
    f = ds.mine.fn
    return All(idx, implies(write_done(st, idx), eq(f(*idx), g.a0(sub(idx[0], g.off), *idx[1:]))), [f(*idx)] if usable_trigger(f(*idx), idx) else [])


def write_contract(v, cfg):
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    h5model.install(v.I, v.I.models)
    g = ctx.g = type("G", (), {})()
    g.n = v.int("n", lo=0); g.trail = [v.int("d%d" % i, local=False, lo=1) for i in range(cfg["ndim"] - 1)]
    ctx.facts.append(T.itemsize >= 1)
    a = v.array("data", [g.n] + g.trail, T, contig=cfg["contig"])
    g.a0 = a.cell.fn
    rows = lambda q: w.on(g.n, q)
    F = lambda k: ctx.psum(rows, k, P)
    N = F(P); g.off = F(me)
    group = h5model.File()
    args = buffer_arg(v, cfg)
    if not cfg["create"]:
        group.datasets["x"] = h5model.Dataset(v.I, "x", [N] + g.trail, T)
        args["create_dataset"] = False
    base = lambda k: [implies(land(le(0, k), lt(k, P)), ge(rows(k), 0)), ctx.step(rows, k, P), ctx.nonneg(rows, k, P), ctx.mono(rows, k, P, P)]
    ds = v.call(MOD, "collective_write", group, "x", a, v.I.comm, **args)
    ctx.where = "postcondition"
    if not isinstance(ds, h5model.Dataset): v.ensure(False, "the dataset is returned"); return
    v.ensure(z3.BoolVal(group.datasets.get("x") is ds), "the dataset has the name given")
    v.ensure(land(eq(len(ds.shape), cfg["ndim"]), eq(ds.shape[0], N), *[eq(x, d) for x, d in zip(ds.shape[1:], g.trail)]), "the dataset has as many rows as all ranks together")
    v.ensure(z3.BoolVal(ds.dtype is T), "the type is that of the data")
    p = v.fresh("p"); js = [v.fresh("j") for _ in g.trail]
    inj = land(*[land(le(0, j), lt(j, d)) for j, d in zip(js, g.trail)])
    hit = t(lit(ds.hit.fn(p, *js))); val = ds.mine.fn(p, *js)
    v.ensure_all([p] + js, inj, eq(hit, t(lit(land(le(g.off, p), lt(p, add(g.off, g.n)))))), "a rank writes the rows which follow those of the ranks before it, and no others", hints=base(me))
    v.ensure_all([p] + js, land(inj, le(g.off, p), lt(p, add(g.off, g.n))), eq(val, g.a0(sub(p, g.off), *js)), "the rows are those of the rank, in order", hints=base(me))
    q, r = v.fresh("q"), v.fresh("r")
    within = lambda q: land(le(F(q), p), lt(p, add(F(q), rows(q))))
    v.ensure_all([q, r, p], land(le(0, q), lt(q, r), lt(r, P)), lnot(land(within(q), within(r))), "no row is written by two ranks", hints=base(q) + base(r) + [ctx.mono(rows, q, r, P)])
    v.unchanged(a, g.a0, "input not modified")


def compress(I, L): return h5model.Props()


PROPERTY = "C09"
def tasks():
    R, W = MOD + ".collective_read", MOD + ".collective_write"
    for nd in (1, 2, 3):
        for buffer in (True, False):
            yield dict(label="collective_read", fn=read_contract, cfg=dict(ndim=nd, buffer=buffer), spmd=True, loopspecs={(R, 1): LoopSpec([read_scalars, read_content], after=read_after, hints=lambda st: [st.I.ctx.g.inside])}, cfgname="ndim %d%s" % (nd, ", buffer size given" if buffer else ""))
    for nd in (1, 2, 3):
        for buffer in (True, False):
            for create in (True, False):
                for contig in (True, False):
                    if not contig and (not create or buffer): continue
                    yield dict(label="collective_write", fn=write_contract, cfg=dict(ndim=nd, buffer=buffer, create=create, contig=contig), spmd=True, contracts={MOD + ".compress_dcpl": compress},
                               loopspecs={(W, 1): LoopSpec([write_scalars, write_hit, write_content])},
                               cfgname="ndim %d%s%s%s" % (nd, ", buffer size given" if buffer else "", ", dataset exists" if not create else "", ", not contiguous" if not contig else ""))
