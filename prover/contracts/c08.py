"""C08: virgo.mpi.gather_array.gather_array and allgather_array"""
from verify import *
from contracts.psort import elem

MOD = "virgo.mpi.gather_array"
T = SDtype("T", Elem, "?")


def contract(v, cfg):
    nd, axis, mode = cfg["ndim"], cfg["axis"], cfg["mode"]
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    n = v.int("n", lo=0)
    shape = [n if i == axis else v.int("d%d" % i, local=False, lo=0) for i in range(nd)]
    a = v.array("data", shape, T, contig=cfg["contig"])
    a0 = a.cell.fn
    root = None
    if mode == "all": r = v.call(MOD, "allgather_array", a, **({"axis": axis} if axis else {}))
    else:
        root = 0
        if mode == "root":
            root = v.int("root", local=False, lo=0); v.assume(lt(root, P))
            r = v.call(MOD, "gather_array", a, root=root, axis=axis, comm=v.I.comm)
        elif mode == "none": root = None; r = v.call(MOD, "gather_array", a, None, None, axis)
        else: r = v.call(MOD, "gather_array", a)
    if root is not None:
        at = eq(me, root)
        v.ensure(z3.BoolVal(isinstance(r, Choice)), "ranks other than the root get None and the root an array")
        if isinstance(r, Choice):
            is_none = r.c if r.a is None else lnot(r.c); r = r.b if r.a is None else r.a
            v.ensure(eq(is_none, lnot(at)), "only the root gets the array")
        if not ctx.decide(at): return          # nothing more to show on the other ranks
    rows = lambda q: w.on(n, q)
    F = lambda k: ctx.psum(rows, k, P)
    base = lambda k: [implies(land(le(0, k), lt(k, P)), ge(rows(k), 0)), ctx.step(rows, k, P), ctx.nonneg(rows, k, P), ctx.mono(rows, k, P, P)]
    v.ensure(land(eq(len(r.shape), nd), eq(r.shape[axis], F(P)), *[eq(x, d) for i, (x, d) in enumerate(zip(r.shape, shape)) if i != axis]), "the shape is the sum of the sizes along the axis")
    v.ensure(z3.BoolVal(r.dtype is T), "the result has the type of the input")
    q = v.fresh("q"); js = [v.fresh("j%d" % i) for i in range(nd)]
    i = js[axis]
    out = list(js); out[axis] = add(F(q), i)
    inb = land(le(0, q), lt(q, P), le(0, i), lt(i, rows(q)), *[land(le(0, j), lt(j, d)) for k, (j, d) in enumerate(zip(js, shape)) if k != axis])
    g = ctx.gathers[-1] if getattr(ctx, "gathers", None) else None
    hints = base(q) + ([g["uniq"](add(F(q), i), q)] if g else [])
    def src(q):
        ph = [fresh_int("b") for _ in js]
        return z3.substitute(w.on(t(a0(*ph)), q), *[(x, t(y)) for x, y in zip(ph, js)])
    v.ensure_all([q] + js, inb, eq(r.get(*out), src(q)), "elements are those of the ranks, in rank order", hints=hints)
    v.unchanged(a, a0, "input not modified")


PROPERTY = "C08"
def tasks():
    for nd in (1, 2, 3):
        for axis in range(nd):
            for mode in ("all", "root", "none", "default"):
                if mode == "default" and axis: continue
                for contig in (True, False):
                    yield dict(label="gather_array" if mode != "all" else "allgather_array", fn=contract, cfg=dict(ndim=nd, axis=axis, mode=mode, contig=contig), spmd=True,
                               cfgname="ndim %d axis %d %s%s" % (nd, axis, mode, "" if contig else ", not contiguous"))
