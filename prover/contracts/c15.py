"""C15: virgo.util.ranges"""
from verify import *

MOD = "virgo.util.ranges"
T = SDtype("T", Real, "f")


def valid_ranges(off, ln, nr, N):
    """Sorted, non-overlapping ranges inside [0,N), as a formula with explicit quantifiers"""
    a, b = fresh_int("a"), fresh_int("b")
    f, l = off.freeze(), ln.freeze()
    return land(forall([a], implies(land(le(0, a), lt(a, nr)), land(ge(f(a), 0), ge(l(a), 0), le(add(f(a), l(a)), N)))),
                forall([a, b], implies(land(le(0, a), lt(a, b), lt(b, nr)), le(add(f(a), l(a)), f(b)))))


def closed_forms(v, off, ln, nr):
    f, l = off.freeze(), ln.freeze()
    ctx = v.ctx
    def lens(self, params, fd, n):
        # sums of gaps and ranges in turn: starts and ends of the ranges
        def c(k):
            k = t(k)
            return z3.If(k == 0, t(0), z3.If(k == 2 * nr + 1, v.N, z3.If(k % 2 == 1, t(f((k - 1) / 2)), t(f(k / 2 - 1) + l(k / 2 - 1)))))
        return c
    def count(self, params, fd, n):
        c = lambda k: ctx.psum(lambda r: l(r), floordiv(k, 2), nr)
        c.hints = lambda k: [ctx.step(lambda r: l(r), floordiv(k, 2), nr)]
        return c
    def gaps(self, params, fd, n):
        S = lambda k: ctx.psum(lambda r: l(r), k, nr)
        def c(k):
            k = t(k)
            return z3.If(k == 0, t(0), z3.If(k <= nr, t(f(k - 1)) - S(k - 1), v.N - S(t(nr))))
        return c
    return [lens, count, gaps]


def assign(v, cfg):
    nd, single = cfg["ndim"], cfg["single"]
    N = v.int("N", lo=0)
    v.N = N
    nr = 1 if single else v.int("nr", lo=0)
    trail = [v.int("d%d" % i, lo=0) for i in range(nd - 1)]
    a = v.array("array", [N] + trail, T)
    off, ln = v.array("offset", [nr], np.dtype(np.int64)), v.array("length", [nr], np.dtype(np.int64))
    val = v.array("value", [nr] + trail, T)
    a0, o0, l0, v0 = a.cell.fn, off.cell.fn, ln.cell.fn, val.cell.fn
    ok = valid_ranges(off, ln, nr, N)
    if single or cfg["valid"]: v.assume(ok)
    v.ctx.psum(lambda r: l0(r), nr, nr)
    v.ctx.sum_candidates = closed_forms(v, off, ln, nr)
    v.invalid = lnot(ok)
    r = v.call(MOD, "assign_ranges", a, off, ln, val)
    own = getattr(v.ctx, "owners", [])
    if cfg["valid"] or single:
        p, o = v.fresh("p"), v.fresh("o"); js = [v.fresh("j") for _ in trail]
        inp = land(le(0, p), lt(p, N), *[land(le(0, j), lt(j, d)) for j, d in zip(js, trail)])
        inside = lambda o: land(le(0, o), lt(o, nr), le(o0(o), p), lt(p, add(o0(o), l0(o))))
        v.ensure_all([p, o], land(inp, inside(o)), eq(a.get(p, *js), v0(o, *js)), "elements of a range have the value of the range",
                     hints=[w["uniq"](x, y) for w in own for x, y in ((p, 2 * o + 1), (add(v.ctx.psum(lambda r: l0(r), o, nr), sub(p, o0(o))), o))])
        v.ensure_all([p], land(inp, forall([o], lnot(inside(o)))), eq(a.get(p, *js), a0(p, *js)), "other elements are unchanged")
    else:
        # two or more ranges: if they are accepted they are valid (checked on neighbours)
        k = v.fresh("k")
        v.ensure_all([k], land(ge(nr, 2), le(0, k), lt(k, nr)), ge(l0(k), 0), "ranges with negative length are rejected")
        v.ensure_all([k], land(ge(nr, 2), le(0, k), lt(k, sub(nr, 1))), le(add(o0(k), l0(k)), o0(add(k, 1))), "overlapping or unsorted ranges are rejected", hints=[w["pos"](2 * k + 2) for w in own])
        v.ensure_all([k], land(ge(nr, 2)), land(ge(o0(t(0)), 0), le(add(o0(sub(nr, 1)), l0(sub(nr, 1))), N)), "ranges outside the array are rejected", hints=[w["pos"](x) for w in own for x in (t(0), 2 * nr)])
    v.ensure(eq(a.shape[0], N), "array keeps its shape")
    v.unchanged(off, o0, "offsets not modified"); v.unchanged(ln, l0, "lengths not modified"); v.unchanged(val, v0, "values not modified")


def rejected(v, e):
    v.ctx.func = v.label
    v.ctx.prove(z3.BoolVal(e.etype is ValueError), "invalid ranges are reported as ValueError")
    v.ctx.prove(v.invalid, "only invalid ranges are rejected")


def assign_handler(I, L):
    """Contract of assign_ranges at a call: sorted ranges inside the array; effect as proved above"""
    ctx = I.ctx; npm = I.np
    a, off, ln, val = [npm.as_array(I.resolve(L[x])) for x in ("array", "offset", "length", "value")]
    f, l, fv = ctx.named(off.freeze(), 1, "off"), ctx.named(ln.freeze(), 1, "len"), val.freeze()
    nr, N = off.shape[0], a.shape[0]
    x, y = fresh_int("x"), fresh_int("y")
    ctx.require(land(eq(ln.shape[0], nr), eq(val.shape[0], nr)), "assign_ranges: one length and value for each range")
    for d, e in zip(val.shape[1:], a.shape[1:]): ctx.require(eq(d, e), "assign_ranges: values have the shape of the rows")
    inr = lambda o: land(le(0, o), lt(o, nr))
    one = implies(inr(x), land(ge(f(x), 0), ge(l(x), 0), le(add(f(x), l(x)), N)))
    two = implies(land(inr(x), inr(y), lt(x, y)), le(add(f(x), l(x)), f(y)))
    ctx.prove(one, "assign_ranges: ranges inside the array"); ctx.fact(one, [x], [f(x)])
    ctx.prove(two, "assign_ranges: sorted, non-overlapping ranges"); ctx.fact(two, [x, y], [z3.MultiPattern(f(x), f(y))])
    hit, own = ctx.fresh_fn("hit", 1, Bool), ctx.fresh_fn("inrange", 1)
    p = fresh_int("p")
    ctx.fact(implies(hit(p), land(inr(own(p)), le(f(own(p)), p), lt(p, add(f(own(p)), l(own(p)))))), [p], [hit(p)])
    inside = lambda p, o: implies(land(inr(o), le(f(o), p), lt(p, add(f(o), l(o)))), land(hit(p), eq(own(p), o)))
    ctx.fact(inside(p, x), [p, x], [z3.MultiPattern(hit(p), f(x))])
    npm.update(a, lambda p, *r: hit(p), lambda p, *r: fv(own(p), *r))
    ctx.assigned = dict(f=f, l=l, nr=nr, N=N, hit=hit, own=own, array=a, inside=inside)
    if a.sort == Bool: count_lemmas(ctx, npm, ctx.assigned)


def count_lemmas(ctx, npm, g):
    """True elements of a mask set by ranges, before each range"""
    f, l, nr, N, a, inside = g["f"], g["l"], g["nr"], g["N"], g["array"], g["inside"]
    mf = ctx.named(a.freeze(), 1, "mask"); m1 = lambda j: t(mf(j), Int)
    pc = npm.count_before(a)
    S = lambda k: ctx.psum(lambda r: l(r), k, nr)
    E = lambda k: ite(eq(k, 0), 0, add(f(sub(k, 1)), l(sub(k, 1))))
    F = lambda k: ite(lt(k, nr), f(k), N)
    k = fresh_int("k")
    gap = ctx.induct("no elements in the gap before a range", lambda e: eq(pc(e), pc(E(k))), E(k), F(k), lambda e: [z3.MultiPattern(pc(e), f(k))], [k], land(le(0, k), le(k, nr)),
                     hints=lambda e: [ctx.step(m1, e, N), f(k) == f(k), f(k - 1) == f(k - 1)])
    seg = ctx.induct("elements of a range", lambda d: eq(pc(add(f(k), d)), add(pc(f(k)), d)), 0, l(k), lambda d: [pc(add(f(k), d))], [k], land(le(0, k), lt(k, nr)),
                     hints=lambda d: [ctx.step(m1, add(f(k), d), N), inside(add(f(k), d), k)])
    cnt = ctx.induct("elements before a range", lambda k: eq(pc(E(k)), S(k)), 0, nr, lambda k: [S(k)], hints=lambda k: [seg(l(k), k), gap(f(k), k)])
    ctx.lemma(implies(land(le(0, k), lt(k, nr)), eq(pc(f(k)), S(k))), "elements before the start of a range", [k], [pc(f(k))], hints=[gap(f(k), k), cnt(k)])
    ctx.lemma(eq(pc(N), S(nr)), "elements of the mask", hints=[gap(N, nr), cnt(nr)])
    g.update(pc=pc, S=S, seg=seg, cnt=cnt, gap=gap)


def sums(v, cfg):
    nd, weighted, norm = cfg["ndim"], cfg["weight"], cfg["normalize"]
    T = cfg["dtype"]
    N, nr = v.int("N", lo=0), v.int("nr", lo=0)
    trail = [v.int("d%d" % i, lo=0) for i in range(nd - 1)]
    a = v.array("array", [N] + trail, T)
    off, ln = v.array("offset", [nr], np.dtype(np.int64)), v.array("length", [nr], np.dtype(np.int64))
    w = v.array("weight", [N], T) if weighted else None; w0 = None
    a0, o0, l0 = a.cell.fn, off.cell.fn, ln.cell.fn
    x, y = v.fresh("x"), v.fresh("y")
    v.assume(implies(land(le(0, x), lt(x, nr)), land(ge(o0(x), 0), ge(l0(x), 0), le(add(o0(x), l0(x)), N))), [x], [o0(x)])
    v.assume(implies(land(le(0, x), lt(x, y), lt(y, nr)), le(add(o0(x), l0(x)), o0(y))), [x, y], [z3.MultiPattern(o0(x), o0(y))])
    kw = {}
    if weighted: kw["weight"] = w; w0 = w.cell.fn
    if norm: kw["normalize"] = True
    if cfg.get("asked"): kw["dtype"] = cfg["asked"]
    r = v.call(MOD, "sum_ranges", a, off, ln, **kw)
    ctx = v.ctx
    o = v.fresh("o"); js = [v.fresh("j") for _ in trail]
    so = r.sort
    val = (lambda d, *j: t(mul(t(a0(d, *j), so), t(w0(d), so)), so)) if weighted else (lambda d, *j: t(a0(d, *j), so))
    SA = lambda k: ctx.psum(lambda d: val(d, *js), k, N)
    SW = lambda k: ctx.psum(lambda d: t(w0(d), so), k, N)
    # sums over the selected elements are sums over the ranges
    g = getattr(ctx, "assigned", None); hints = []
    if g is not None:
        f, l, m = g["f"], g["l"], g["nr"]
        k = v.fresh("k")
        for ra in getattr(ctx, "reduceats", []):
            rank = 1 if weighted and is_weight(ctx, ra, w0, g) else nd
            fa = (lambda d: ra["fa"](d)) if rank == 1 and nd > 1 else (lambda d: ra["fa"](d, *js))
            src = (lambda d: t(w0(d), so)) if rank == 1 and is_weight(ctx, ra, w0, g) else (lambda d: val(d, *js))
            SB = lambda q: ctx.psum(fa, q, ra["n"])
            S2 = lambda q: ctx.psum(src, q, N)
            S = g["S"]; d = v.fresh("d")
            ms = [x for x in ctx.selections if x["n"] is N or (is_sym(x["n"]) and x["n"].eq(N))]
            at = lambda d: implies(land(le(0, k), lt(k, m), le(0, d), lt(d, l(k))), land(*[eq(x["sel"](add(S(k), d)), add(f(k), d)) for x in ms]))
            start = lambda k: implies(land(le(0, k), lt(k, m)), eq(g["pc"](f(k)), S(k)))
            ctx.lemma(at(d), "position of the selected elements", [k, d], (), hints=[x["at"](add(f(k), d)) for x in ms] + [g["inside"](add(f(k), d), k), g["seg"](d, k), start(k)])
            inst = ctx.induct("sum over part of a range", lambda d: eq(sub(SB(add(S(k), d)), SB(S(k))), sub(S2(add(f(k), d)), S2(f(k)))), 0, l(k), None, [k], land(le(0, k), lt(k, m)),
                              hints=lambda d: [ctx.step(fa, add(S(k), d), ra["n"]), ctx.step(src, add(f(k), d), N), at(d), implies(land(le(0, k), lt(k, m)), land(ge(S(k), 0), ge(f(k), 0)))])
            for sel in getattr(ctx, "selections", []):
                c = sel["pc"](o); hints += [inst(l(c), c), ctx.step(lambda r: l(r), c, m), sel["at"](o)]
    ino = land(le(0, o), lt(o, nr), *[land(le(0, j), lt(j, d)) for j, d in zip(js, trail)])
    total = sub(SA(add(o0(o), l0(o))), SA(o0(o)))
    if norm:
        den = sub(SW(add(o0(o), l0(o))), SW(o0(o))) if weighted else l0(o)
        total = tdiv(t(total, Real), t(den, Real))
    v.ensure(land(eq(r.ndim, nd), eq(r.shape[0], nr), *[eq(x, d) for x, d in zip(r.shape[1:], trail)]), "one row for each range")
    v.ensure_all([o], land(ino, gt(l0(o), 0)), eq(r.get(o, *js), total), "sum of the elements of the range", hints=hints)
    v.ensure_all([o], land(ino, eq(l0(o), 0)), eq(r.get(o, *js), 0), "zero for an empty range")
    v.unchanged(a, a0, "array not modified"); v.unchanged(off, o0, "offsets not modified"); v.unchanged(ln, l0, "lengths not modified")
    if weighted: v.unchanged(w, w0, "weights not modified")


def is_weight(ctx, ra, w0, g):
    if w0 is None: return False
    for sel in getattr(ctx, "selections", []):
        j = fresh_int("j")
        try:
            if z3.simplify(t(eq(ra["fa"](j), t(w0(sel["sel"](j)), ra["fa"](j).sort())))).eq(z3.BoolVal(True)): return True
        except Exception: pass
    return False


PROPERTY = "C15"
def tasks():
    for nd in (1, 2, 3):
        for single in (False, True):
            yield dict(label="assign_ranges", fn=assign, cfg=dict(ndim=nd, single=single, valid=True), cfgname="ndim %d %s" % (nd, "one range" if single else "any ranges"))
    for nd in (1, 2):
        yield dict(label="assign_ranges", fn=assign, cfg=dict(ndim=nd, single=False, valid=False), cfgname="ndim %d, any input" % nd, expect_errors=True, on_error=rejected)
    F8, I8 = np.dtype(np.float64), np.dtype(np.int64)
    for nd in (1, 2):
        for weight in (False, True):
            for norm in (False, True):
                yield dict(label="sum_ranges", fn=sums, cfg=dict(ndim=nd, weight=weight, normalize=norm, dtype=T), contracts={MOD + ".assign_ranges": assign_handler},
                           cfgname="ndim %d%s%s" % (nd, ", weights" if weight else "", ", normalised" if norm else ""))
    for weight in (False, True):
        if not weight: yield dict(label="sum_ranges", fn=sums, cfg=dict(ndim=1, weight=weight, normalize=False, dtype=I8), contracts={MOD + ".assign_ranges": assign_handler}, cfgname="integers%s" % (", weights" if weight else ""))
        yield dict(label="sum_ranges", fn=sums, cfg=dict(ndim=1, weight=weight, normalize=weight, dtype=I8, asked=F8), contracts={MOD + ".assign_ranges": assign_handler}, cfgname="integers%s, type given" % (", weights" if weight else ""))
