"""C05: virgo.mpi.parallel_sort.parallel_match"""
from verify import *
from contracts.psort import MOD, alltoallv, elem, elem1

I8 = np.dtype(np.int64)


def psort(I, L):
    """
    Contract of parallel_sort at a call: the array is rearranged in place into globally ascending order; the index (if asked for) gives for each element its
    original global position, as a permutation.
    """
    ctx, npm, comm = I.ctx, I.np, I.comm; w = comm.w; me, P = w.me, w.P
    c = I.resolve(L.get("comm"))
    if c is not None and c is not comm: raise Unsupported("parallel_sort on another communicator")
    comm.collective("(parallel_sort)")
    a = npm.as_array(I.resolve(L["arr"]))
    if a.ndim != 1: raise Unsupported("parallel_sort of several dimensions")
    n = a.shape[0]; old = ctx.named(a.freeze(), 1, "unsorted"); rows = lambda q: w.on(n, q)
    first = lambda k: ctx.psum(rows, k, P)
    new = ctx.fresh_fn("sorted", 1, a.sort); where = ctx.fresh_fn("origin", 1); to_r, to_i = ctx.fresh_fn("sorted_rank", 1), ctx.fresh_fn("sorted_at", 1)
    on1 = lambda f, q, x: elem1(w, f, q, x)
    i, j, q, r, o = [fresh_int(x) for x in "ijqro"]
    inq = lambda q: land(le(0, q), lt(q, P)); inn = lambda i, q: land(inq(q), le(0, i), lt(i, rows(q)))
    # in order
    within = lambda i, j: implies(land(le(0, i), le(i, j), lt(j, n)), le(new(i), new(j)))
    across = lambda q, i, r, j: implies(land(inn(i, q), inn(j, r), lt(q, r)), le(on1(new, q, i), on1(new, r, j)))
    ctx.fact(within(i, j), [i, j], [z3.MultiPattern(new(i), new(j))])
    # each element comes from one position: owner and offset there
    orank, oat = ctx.fresh_fn("origin_rank", 1), ctx.fresh_fn("origin_at", 1)
    src = lambda i: implies(land(le(0, i), lt(i, n)), land(inq(orank(i)), le(0, oat(i)), lt(oat(i), rows(orank(i))), eq(where(i), add(first(orank(i)), oat(i))), new(i) == on1(old, orank(i), oat(i)),
                                                          le(0, where(i)), lt(where(i), first(P))))
    dst = lambda i: implies(land(le(0, i), lt(i, n)), land(inn(to_i(i), to_r(i)), on1(new, to_r(i), to_i(i)) == t(old(i)), on1(orank, to_r(i), to_i(i)) == me, on1(oat, to_r(i), to_i(i)) == i))
    ctx.fact(src(i), [i], [where(i)]); ctx.fact(dst(i), [i], [to_r(i)])
    npm.update(a, lambda x: True, lambda x: new(x))
    ctx.sorts = getattr(ctx, "sorts", []) + [dict(new=new, old=old, where=where, within=within, across=across, src=src, dst=dst, orank=orank, oat=oat, to_r=to_r, to_i=to_i, n=n)]
    want = I.resolve(L.get("return_index", False))
    if not conc(want): raise Unsupported("return_index")
    if not want: return None
    return SArr(cached(lambda x: where(x)), [n], I8, name="sort_index")


def fetch(I, L):
    """Contract of fetch_elements at a call (one-dimensional): element i of the result is the one at global position index[i]"""
    ctx, npm, comm = I.ctx, I.np, I.comm; w = comm.w; me, P = w.me, w.P
    c = I.resolve(L.get("comm"))
    if c is not None and c is not comm: raise Unsupported("fetch_elements on another communicator")
    if I.resolve(L.get("result")) is not None: raise Unsupported("fetch_elements into a given array")
    comm.collective("(fetch_elements)")
    a, x = npm.as_array(I.resolve(L["arr"])), npm.as_array(I.resolve(L["index"]))
    if a.ndim != 1 or x.ndim != 1: raise Unsupported("fetch_elements of several dimensions")
    n, m = a.shape[0], x.shape[0]; rows = lambda q: w.on(n, q); first = lambda k: ctx.psum(rows, k, P)
    fx, fa = ctx.named(x.freeze(), 1, "index"), ctx.named(a.freeze(), 1, "data")
    k = fresh_int("k")
    ctx.prove(implies(land(le(0, k), lt(k, m)), land(le(0, fx(k)), lt(fx(k), first(P)))), "fetch_elements: indexes are in range", hints=getattr(ctx, "fetch_hints", lambda k: [])(k))
    R = ctx.fresh_fn("fetched", 1, a.sort); q, i = fresh_int("q"), fresh_int("i")
    got = lambda k, q: implies(land(le(0, k), lt(k, m), le(0, q), lt(q, P), le(first(q), fx(k)), lt(fx(k), add(first(q), rows(q)))), R(k) == elem1(w, fa, q, sub(fx(k), first(q))))
    ctx.fact(got(k, q), [k, q], [z3.MultiPattern(R(k), t(first(q)))] if usable_trigger(t(first(q)), [q]) else ())
    ctx.fetches = getattr(ctx, "fetches", []) + [dict(R=R, got=got, fx=fx, fa=fa, n=n, m=m)]
    return SArr(cached(lambda x: R(x)), [m], a.dtype, name="fetched")


def contract(v, cfg):
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    T = SDtype("T", Real, "f")
    n, m = v.int("n1", lo=0), v.int("n2", lo=0)
    a, b = v.array("arr1", [n], T), v.array("arr2", [m], T)
    a0, b0 = a.cell.fn, b.cell.fn
    rows = lambda q: w.on(m, q); first = lambda k: ctx.psum(rows, k, P)
    kw = {}
    i, j, q, r = [v.fresh(x) for x in "ijqr"]
    inn = lambda i, q: land(le(0, q), lt(q, P), le(0, i), lt(i, rows(q)))
    if cfg["sorted"]:
        kw["arr2_sorted"] = True
        within = lambda i, j: implies(land(le(0, i), le(i, j), lt(j, m)), le(b0(i), b0(j)))
        across = lambda q, i, r, j: implies(land(inn(i, q), inn(j, r), lt(q, r)), le(elem1(w, b0, q, i), elem1(w, b0, r, j)))
        v.assume(within(i, j), [i, j], [z3.MultiPattern(b0(i), b0(j))])
        v.assume(across(q, i, r, j), [q, i, r, j], [z3.MultiPattern(t(elem1(w, b0, q, i)), t(elem1(w, b0, r, j)))])
        order = lambda: (b0, within, across)
    else: order = lambda: (ctx.sorts[0]["new"], ctx.sorts[0]["within"], ctx.sorts[0]["across"])
    on = lambda f, q: w.on(t(f), q)
    def at(mk, q, *xs):
        """Formula mk(xs) of rank q, for terms xs of this rank"""
        ph = [fresh_int("u") for _ in xs]
        return z3.substitute(on(mk(*ph), q), *[(p, t(x)) for p, x in zip(ph, xs)])
    def ends():
        """First and last element of a rank are its smallest and largest"""
        if not hasattr(ctx, "ends"):
            srt, within, across = order(); lo, hi = ctx.extrema[:2]
            f = implies(gt(m, 0), land(eq(lo["m"], srt(0)), eq(hi["m"], srt(sub(m, 1)))))
            ctx.prove(f, "lemma the first element of a sorted array is the smallest, the last one the largest", hints=[implies(gt(m, 0), x) for x in (lo["is_one"], hi["is_one"], lo["bound"](t(0)), hi["bound"](sub(m, 1)))] + [implies(gt(m, 0), x) for x in (within(t(0), lo["w"]), within(hi["w"], sub(m, 1)))])
            ctx.ends = f; ctx.lemmas = getattr(ctx, "lemmas", []) + [f]
        return ctx.ends
    def pair(i, j):
        """Ranks number i <= j of those which have elements"""
        se = ctx.selections[0]; srt, within, across = order(); s1, s2 = ctx.searches[:2]
        p, q = se["sel"](i), se["sel"](j)
        last = lambda q: sub(rows(q), 1)
        out = [se["val"](i), se["val"](j), implies(land(le(0, i), lt(i, j), lt(j, se["cnt"])), lt(p, q)), at(ends_f, p), at(ends_f, q), w.rng]
        out += [across(p, x, q, y) for x in (t(0), last(p)) for y in (t(0), last(q))] + [at(lambda x, y: within(x, y), z, t(0), last(z)) for z in (p, q)]
        for s, k in ((s1, i), (s2, i), (s1, j), (s2, j)): out += [s["rng"](k)]
        out += [s2["below"](sub(s2["s"](i), 1), i), s2["above"](sub(s2["s"](i), 1), j), s1["below"](sub(s1["s"](i), 1), i), s2["above"](sub(s1["s"](i), 1), i), s2["above"](sub(s1["s"](i), 1), j), s1["below"](sub(s1["s"](j), 1), j), s2["above"](sub(s1["s"](j), 1), j)]
        return out
    ends_f = lambda: ends()
    def ready(): return len(getattr(ctx, "searches", [])) >= 2 and len(getattr(ctx, "extrema", [])) >= 2 and getattr(ctx, "selections", None)
    def sent(self, params, fd, nn):
        if not ready(): return None
        ends()
        s1, s2 = [s["s"] for s in ctx.searches[:2]]
        c = lambda k: ite(le(k, 0), 0, sub(s2(sub(k, 1)), s1(0)))
        c.hints = lambda k: pair(t(0), k) + pair(sub(k, 1), k) + pair(t(0), sub(k, 1)) + [fd(k) == fd(k)]
        return c
    ctx.sum_candidates = [sent]
    def rank(q):
        if not ready(): return []
        ends(); se = ctx.selections[0]; k = se["pc"](q)
        return [se["at"](q)] + pair(t(0), k) + pair(sub(k, 1), k)
    ctx.alltoallv_hints = lambda q: rank(q) + rank(me) + [on(h, q) for h in rank(me) if is_sym(h)]
    def two(q, r):
        se = ctx.selections[0]; k, l = se["pc"](q), se["pc"](r)
        return pair(k, sub(l, 1)) + pair(k, l) + [implies(land(le(0, q), lt(q, r), le(r, P)), land(le(k, l)))] + se_mono(q, r)
    def se_mono(q, r): return []
    ctx.alltoallv_pair_hints = two
    r = v.call(MOD, "parallel_match", a, b, **kw)
    v.ensure(land(eq(len(r.shape), 1), eq(r.shape[0], n)), "one entry for each element of the first array")
    if isinstance(r, np.ndarray) and r.size: raise Unsupported("result of the match")
    v.unchanged(a, a0, "the first array is not modified"); v.unchanged(b, b0, "the second array is not modified")
    R = ctx.named(v.I.np.as_array(r).freeze(), 1, "match") if not isinstance(r, np.ndarray) else (lambda k: -1)
    i, j, q, q1 = v.fresh("i"), v.fresh("j"), v.fresh("q"), v.fresh("q1")
    total = first(P)
    mine = land(le(0, i), lt(i, n)); found = land(inn(j, q), eq(elem1(w, b0, q, j), a0(i)))
    A, B = [], []
    if len(getattr(ctx, "exchanges", [])) >= 2:
        srt, within, across = order(); se = ctx.selections[0]; s1, s2, s3 = ctx.searches[:3]; e1, e2 = ctx.exchanges[:2]; o = ctx.argsorts[0]
        def step(goal, name, hints):
            goal = implies(land(mine, found), goal)
            ctx.prove(goal, "lemma: " + name, hints=hints); ctx.lemmas = getattr(ctx, "lemmas", []) + [goal]; ctx.fact(goal)
            return goal
        p = o["q"](i); x = a0(i)
        perm = [o["inv"](i)] if "inv" in o else []
        v.ctx.func = v.label; ctx.where = "postcondition"
        q2, j2 = (q, j) if cfg["sorted"] else (at(lambda y: ctx.sorts[0]["to_r"](y), q, j), at(lambda y: ctx.sorts[0]["to_i"](y), q, j))
        L1 = step(land(inn(j2, q2), eq(elem1(w, srt, q2, j2), x), le(0, p), lt(p, n), eq(s1["fa"](p), x)), "an equal element is on a rank after sorting",
                  perm + ([] if cfg["sorted"] else [at(lambda y: ctx.sorts[0]["dst"](y), q, j)]))
        k2 = se["pc"](q2); last = lambda q: sub(rows(q), 1)
        L2 = step(land(le(0, k2), lt(k2, se["cnt"]), eq(se["sel"](k2), q2), le(s1["s"](k2), p), lt(p, s2["s"](k2))), "the position is in the range of values of that rank",
                  [L1, se["at"](q2), at(ends_f, q2), at(lambda y, z: within(y, z), q2, t(0), j2), at(lambda y, z: within(y, z), q2, j2, last(q2)), s1["below"](p, k2), s2["above"](p, k2), s1["rng"](k2), s2["rng"](k2)])
        # the first rank (of those with elements) whose values reach this one
        km = ctx.const("lowest"); ctx.used.add("well-ordering of the natural numbers")
        least = lambda k: implies(land(le(0, k), lt(k, km)), le(s2["s"](k), p))
        ctx.fact(implies(land(le(0, k2), lt(p, s2["s"](k2))), land(le(0, km), le(km, k2), lt(p, s2["s"](km)), least(sub(km, 1)), least(t(0)))))
        W = implies(land(le(0, k2), lt(p, s2["s"](k2))), land(le(0, km), le(km, k2), lt(p, s2["s"](km)), least(sub(km, 1)), least(t(0))))
        h = se["sel"](km)
        L3 = step(land(eq(se["pc"](h), km), inn(t(0), h), le(e1["sd"](h), p), lt(p, add(e1["sd"](h), e1["sc"](h)))), "the element is sent to the first rank which reaches its value",
                  [L1, L2, W] + pair(t(0), km) + pair(km, k2) + pair(t(0), k2) + pair(sub(km, 1), km))
        L4 = step(land(e2["hit"](p), eq(e2["own"](p), h)), "the answer comes from there", [L1, L3, e2["uniq"](p, h)])
        H = e2["own"](p); u = add(e2["sfrom"](H), sub(p, e2["rd"](H)))
        there = lambda mk, *xs: at(mk, H, *xs)
        arrive = lambda: [there(lambda y, z: e1["uniq"](y, z), u, me), there(lambda y: e1["fromseg"](y), u)] 
        S3 = there(lambda y: s3["s"](y), u)
        L5 = step(land(le(0, u), lt(u, there(lambda: s3["shape"][0])), eq(there(lambda y: s3["fv"](y), u), x)), "the value which arrives there is this one", [L1, L3, L4] + arrive() + rank(H))
        L6 = step(land(le(0, S3), lt(S3, rows(H)), eq(elem1(w, srt, H, S3), x)), "it is found there",
                  [L1, L2, L3, L4, L5, W] + [there(lambda y, z: s3["above"](y, z), S3, u), there(lambda y, z: s3["below"](y, z), last(H), u), there(lambda y, z: s3["below"](y, z), j2, u), there(lambda y: s3["rng"](y), u),
                   there(within, S3, j2), there(within, S3, last(H)), there(within, j2, last(H)), across(H, last(H), q2, j2), there(ends_f), s2["above"](p, km), s2["below"](p, km)])
        B = [L1, L3, L4, L5, L6, ctx.nonneg(rows, H, P), w.rng] + perm + arrive() + [there(lambda y, z=z: z["at"](y), u) for z in ctx.selections[1:]] + ([] if cfg["sorted"] else [there(lambda y: ctx.sorts[0]["src"](y), S3), there(lambda y: ctx.fetches[0]["got"](y, ctx.sorts[0]["orank"](y)), S3)] if getattr(ctx, "fetches", None) else [])
        A = perm + arrive() + [e2["fromseg"](p), ctx.nonneg(rows, H, P), w.rng, there(lambda y: s3["rng"](y), u)] + [there(lambda y, z=z: z["at"](y), u) for z in ctx.selections[1:]]
        D = lambda k: ctx.mono(rows, k, P, P)
        if cfg["sorted"]: A += [ctx.mono(rows, H, q, P), ctx.mono(rows, q, H, P), D(H), ctx.step(rows, H, P), eq(elem1(w, b0, q, sub(R(i), first(q))), elem1(w, b0, q, sub(R(i), first(q))))]
        else:
            og = there(lambda y: ctx.sorts[0]["orank"](y), S3)
            A += [ctx.mono(rows, og, q, P), ctx.mono(rows, q, og, P), D(og), there(lambda y: ctx.sorts[0]["src"](y), S3)] + ([there(lambda y: ctx.fetches[0]["got"](y, ctx.sorts[0]["orank"](y)), S3)] if getattr(ctx, "fetches", None) else [])
    v.ensure(implies(land(mine, found), ge(R(i), 0)), "an element with an equal one in the second array (on any rank) gets an index", hints=B)
    v.ensure(implies(mine, land(ge(R(i), -1), lt(R(i), total))), "an index is -1 or one of the second array", hints=A)
    v.ensure(implies(land(mine, land(le(0, q), lt(q, P)), le(first(q), R(i)), lt(R(i), add(first(q), rows(q)))), eq(elem1(w, b0, q, sub(R(i), first(q))), a0(i))), "the element at the index is equal", hints=A)


PROPERTY = "C05"
def tasks():
    for srt in (False, True):
        yield dict(label="parallel_match", fn=contract, cfg=dict(sorted=srt), spmd=True, contracts={MOD + ".my_alltoallv": alltoallv, MOD + ".parallel_sort": psort, MOD + ".fetch_elements": fetch}, cfgname="sorted" if srt else "not sorted")
