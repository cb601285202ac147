"""C04: virgo.mpi.parallel_sort.parallel_sort, given the contract of find_splitting_points (C23)"""
from verify import *
from loops import LoopSpec, All
from contracts.psort import MOD, alltoallv, elem1

I8 = np.dtype(np.int64)
T = SDtype("T", Real, "f")
F = MOD + ".parallel_sort"


def clamp(x, hi): return tmax(0, tmin(x, hi))


class Outer:
    """The communicator passed by the caller: only what is needed to make the one of the ranks with elements"""
    def __init__(self, inner, has): self.inner, self.has = inner, has
    def vtruth(self, I): return True
    def __repr__(self): return "<communicator of the caller>"
    def vattr(self, I, name):
        b = lambda f: Builtin("Comm." + name, f)
        if name == "Get_rank": return b(lambda I, a, k: self.rank(I))
        if name == "Split": return b(lambda I, a, k: self.split(I, *[I.resolve(x) for x in a], **{x: I.resolve(y) for x, y in k.items()}))
        raise Unsupported("communicator method %s before the ranks without elements are set aside" % name)
    def rank(self, I): return outer_rank(I.ctx, self.has)
    def split(self, I, colour=0, key=0):
        """Ranks with the same colour make a communicator, in order of key and then of rank.  Those with elements must be those of one colour, in order of rank."""
        ctx = I.ctx; w = ctx.world; q, r = fresh_int("q"), fresh_int("r"); ctx.used.add("MPI Split")
        ctx.split = (colour, key, list(ctx.guards))
        if any(is_sym(g) for g in ctx.guards): ctx.prove(False, "Split is reached by all ranks")
        ctx.prove(eq(colour, 1 if self.has else 0), "ranks with elements, and only these, have colour 1")
        if self.has:
            k = t(key)
            ctx.prove(implies(land(le(0, q), lt(q, r), lt(r, w.P)), le(w.on(k, q), w.on(k, r))), "the ranks keep their order", hints=ctx.orank_order(q, r))
            return self.inner
        return Empty()


class Empty:
    """A communicator of ranks without elements: nothing may be exchanged"""
    def vtruth(self, I): return True
    def vattr(self, I, name):
        if name in ("Get_rank", "Get_size"): return Builtin(name, lambda I, a, k: I.ctx.fresh("other_" + name))
        if name == "Free": return Builtin(name, lambda I, a, k: None)
        raise Unsupported("communicator method %s on ranks without elements" % name)


def outer_rank(ctx, has):
    if not hasattr(ctx, "orank"):
        w = ctx.world; f = ctx.orank = ctx.fresh_fn("outer_rank", 0) if False else ctx.fresh("outer_rank")
        ctx.orank_order = lambda q, r: [implies(land(le(0, q), lt(q, r), lt(r, w.P)), lt(w.on(f, q), w.on(f, r)))]
    return ctx.orank


def uniform_fn(ctx, name, nargs, *sorts):
    bs = ctx.binders; ctx.binders = [b for b in bs if not b[0].eq(ctx.world.me)]
    try: return ctx.fresh_fn(name, nargs, *sorts)
    finally: ctx.binders = bs


class G:
    """Ghost functions and lemmas"""
    def __init__(self, ctx, n, label):
        self.ctx, self.n, self.label = ctx, n, label; w = self.w = ctx.world
        self.me, self.P = w.me, w.P
        self.rows = lambda q: w.on(n, q); self.first = lambda k: ctx.psum(self.rows, k, self.P)
        self.first_hints = lambda k: [ctx.step(self.rows, k, self.P), ctx.nonneg(self.rows, k, self.P), implies(self.inq(k), ge(self.rows(k), 1)), eq(self.first(t(0)), 0)]
        self.inq = lambda q: land(le(0, q), lt(q, self.P))
        self.split = False

    def lemma(self, goal, name, vs, hints=()):
        ctx = self.ctx; ctx.where = "lemma"; f0 = ctx.func; ctx.func = self.label
        goal = t(goal)
        ctx.prove(goal, "lemma: " + name, hints=hints); ctx.func = f0
        return lambda *xs: z3.substitute(goal, *[(a, t(b)) for a, b in zip(vs, xs)])

    def on(self, f, q, *xs):
        """f(xs) on rank q, for terms xs of this rank"""
        ph = [fresh_int("u") if t(x).sort() == Int else z3.Const("uv%d" % i, t(x).sort()) for i, x in enumerate(xs)]
        r = f(*ph)
        if isinstance(r, list): return [z3.substitute(self.w.on(t(y), q), *[(p, t(x)) for p, x in zip(ph, xs)]) for y in r if not conc(lit(y))]
        return z3.substitute(self.w.on(t(r), q), *[(p, t(x)) for p, x in zip(ph, xs)])

    def splitting(self, srt, val):
        """Called when the splitting values are known; srt: the locally sorted array"""
        ctx, n, P, me, w = self.ctx, self.n, self.P, self.me, self.w; on = self.on; self.split = True; self.srt, self.val = srt, val
        ctx.used.add("well-ordering of the natural numbers"); ctx.used.add("definition of functions by recursion")
        # number of local elements smaller than x, and not larger than x
        less, upto = self.less, self.upto = [ctx.fresh_fn(s, 1, Int, Real) for s in ("less", "upto")]
        self.l = lambda x, i: land(le(0, less(x)), le(less(x), n), implies(land(le(0, i), lt(i, less(x))), lt(srt(i), x)), implies(land(le(less(x), i), lt(i, n)), ge(srt(i), x)))
        self.u = lambda x, i: land(le(0, upto(x)), le(upto(x), n), implies(land(le(0, i), lt(i, upto(x))), le(srt(i), x)), implies(land(le(upto(x), i), lt(i, n)), gt(srt(i), x)))
        # over the ranks before k
        SL, SU = self.SL, self.SU = [uniform_fn(ctx, s, 2, Int) if False else z3.Function(ctx.name(s), Real, Int, Int) for s in ("LESS", "UPTO")]
        self.sum0 = lambda x: [SL(x, 0) == 0, SU(x, 0) == 0]
        self.sum1 = lambda x, k: [implies(self.inq(k), land(SL(x, t(add(k, 1))) == SL(x, t(k)) + on(less, k, x), SU(x, t(add(k, 1))) == SU(x, t(k)) + on(upto, k, x)))]
        # splitting values in order
        x = z3.Const("x", Real); y = z3.Const("y", Real); k, j, d = fresh_int("k"), fresh_int("j"), fresh_int("d")
        self.lu = self.lemma(le(less(x), upto(x)), "fewer elements are smaller than not larger", [x], [self.l(x, t(upto(x))), self.u(x, t(upto(x)))] + [self.u(x, t(sub(less(x), 1))), self.l(x, t(sub(less(x), 1)))])
        self.ul = self.lemma(implies(lt(x, y), le(upto(x), less(y))), "elements not larger than a value are smaller than a larger one", [x, y], [self.u(x, t(less(y))), self.l(y, t(less(y)))])
        # cut points: this rank sends elements cut(d) to cut(d+1)-1 to rank d
        v = val
        self.low = lambda d: SU(t(v(d)), me) - SL(t(v(d)), me)
        self.target = lambda d: sub(self.first(d), SL(t(v(d)), P))
        cut = self.cut = ctx.fresh_fn("cut", 1)
        self.cutdef = lambda d: eq(cut(d), ite(le(d, 0), 0, ite(ge(d, P), n, add(less(v(d)), clamp(sub(self.target(d), self.low(d)), sub(upto(v(d)), less(v(d))))))))
        ctx.fact(self.cutdef(d), [d], [cut(d)])
        # sum over the ranks before k of the cut points of destination d
        self.C = lambda d, k: ite(le(d, 0), 0, ite(ge(d, P), self.first(k), add(SL(t(v(d)), t(k)), clamp(self.target(d), sub(SU(t(v(d)), t(k)), SL(t(v(d)), t(k)))))))
        self.Ch = lambda d, k: self.sum0(t(v(d))) + self.sum1(t(v(d)), k) + [on(self.cutdef, k, d), on(self.lu, k, t(v(d))), self.SLU(t(v(d)), k)] + self.first_hints(k) + self.found(d)
        sl = lambda x, k: implies(land(le(0, k), le(k, P)), land(le(0, SL(x, t(k))), le(SL(x, t(k)), SU(x, t(k)))))
        self.lemma(sl(x, t(0)), "sums of counts: base", [x], self.sum0(x))
        self.lemma(implies(land(self.inq(k), sl(x, k)), sl(x, add(k, 1))), "sums of counts: step", [x, k], self.sum1(x, k) + [on(self.lu, k, x), on(lambda x: self.l(x, t(0)), k, x)])
        ctx.used.add("induction over ranks"); self.SLU = sl
        self.mono = self.lemma(implies(land(le(0, d), lt(d, P)), land(le(0, cut(d)), le(cut(d), cut(add(d, 1))), le(cut(add(d, 1)), n))), "cut points are in order", [d],
                               [self.cutdef(d), self.cutdef(add(d, 1)), self.lu(t(v(d))), self.lu(t(v(add(d, 1)))), self.ul(t(v(d)), t(v(add(d, 1))))] + self.first_hints(d) + self.found(d) + self.found(add(d, 1)) + self.order(d, add(d, 1)) +
                               [self.l(t(v(d)), t(0)), self.u(t(v(d)), t(0)), self.l(t(v(add(d, 1))), t(0)), self.u(t(v(add(d, 1))), t(0)), ge(n, 1)])
        ctx.used.add("induction over ranks")
        mono2 = lambda d, j: implies(land(le(0, d), le(d, j), le(j, P)), le(cut(d), cut(j)))
        self.lemma(mono2(d, d), "cut points in order: base", [d], [])
        self.lemma(implies(land(mono2(d, j), lt(j, P), le(d, j)), mono2(d, add(j, 1))), "cut points in order: step", [d, j], [self.mono(j)])
        self.mono2 = mono2
        # each local element is in one segment
        ctx.used.add("lemma: partial sums partition [0,total)")
        self.dest = dest = ctx.fresh_fn("destination", 1)
        self.destdef = lambda u: implies(land(le(0, u), lt(u, n)), land(self.inq(dest(u)), le(cut(dest(u)), u), lt(u, cut(add(dest(u), 1)))))

    def found(self, d): return [implies(self.inq(d), land(le(self.SL(t(self.val(d)), self.P), self.first(d)), lt(self.first(d), self.SU(t(self.val(d)), self.P))))]
    def order(self, d, e): return [implies(land(self.inq(d), self.inq(e), le(d, e)), le(self.val(d), self.val(e)))]


def splitting_points(I, L):
    """
    Contract of find_splitting_points at a call (C23): the value at each of the positions r of the sorted concatenation, and the lowest and highest position where it occurs.
    """
    ctx, npm, comm = I.ctx, I.np, I.comm; w = comm.w; g = ctx.g; P = w.P
    c = I.resolve(L.get("comm"))
    if c is not comm: raise Unsupported("find_splitting_points on another communicator")
    comm.collective("(find_splitting_points)")
    a, r = npm.as_array(I.resolve(L["arr"])), npm.as_array(I.resolve(L["r"]))
    if a.ndim != 1 or r.ndim != 1: raise Unsupported("find_splitting_points of several dimensions")
    srt = ctx.named(a.freeze(), 1, "sorted_locally"); fr = r.freeze(); m = r.shape[0]
    i, j, k, q = [fresh_int(x) for x in "ijkq"]
    ctx.prove(ge(a.shape[0], 1), "find_splitting_points: every rank has elements"); ctx.prove(eq(a.shape[0], g.n), "find_splitting_points: all elements are passed")
    ctx.require(eq(m, P), "one position for each rank")
    ctx.prove(implies(land(le(0, i), le(i, j), lt(j, a.shape[0])), le(srt(i), srt(j))), "find_splitting_points: the array is sorted on each rank", hints=[o["order"](i, j) for o in getattr(ctx, "argsorts", [])])
    ctx.prove(implies(g.inq(k), eq(fr(k), g.first(k))), "find_splitting_points: the positions are those of the first element of each rank, the same on all ranks", hints=g.first_hints(k))
    val = uniform_fn(ctx, "splitting_value", 1, Real)
    vv = lambda k: val(t(k))
    g.splitting(srt, vv)
    x = fresh_int("k")
    lo = SArr(cached(lambda k: g.SL(t(vv(k)), P)), [m], I8, name="min_rank"); hi = SArr(cached(lambda k: sub(g.SU(t(vv(k)), P), 1)), [m], I8, name="max_rank")
    return (SArr(cached(lambda k: vv(k)), [m], T, name="split_value"), lo, hi)


def exchange(I, L):
    ctx = I.ctx; g = ctx.g
    r = alltoallv(I, L)
    if g.split:
        P, me = g.P, g.me; e = ctx.exchanges[-1]
        h = [x(P) for x in getattr(ctx, "instances", [])] + g.found(me) + g.found(add(me, 1)) + g.first_hints(me) + [g.SLU(t(g.val(d)), P) for d in (me, add(me, 1))] + [g.w.rng]
        g.total = implies(g.w.rng, eq(e["total"], g.n))
        ctx.prove(g.total, "each rank receives as many elements as it had", hints=h); ctx.fact(g.total)
    return r


def contract(v, cfg):
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    has = cfg["elements"]
    n = v.int("n", lo=1) if has else 0
    a = v.array("arr", [n], T); a0 = a.cell.fn
    g = ctx.g = G(ctx, n, v.label)
    on = g.on
    def s1s2():
        ss = getattr(ctx, "searches", [])
        return ss[:2] if len(ss) >= 2 else None
    def same(s, x, k):
        """The result of a search is the number of elements below"""
        left = s["side"] == "left"; f, h = (g.less, g.l) if left else (g.upto, g.u)
        sk = t(s["s"](k))
        return [s["rng"](k), s["below"](t(f(x)), k), s["above"](t(f(x)), k), s["above"](sk, k), s["below"](t(sub(sk, 1)), k), h(x, sk), h(x, t(f(x)))]
    g.same = same
    # closed forms of sums
    def cand_low(self, params, fd, nn):
        if not g.split or not s1s2() or not params: return None
        p = params[0]; x = t(g.val(p))
        c = lambda k: g.SU(x, t(k)) - g.SL(x, t(k))
        c.hints = lambda k: g.sum0(x) + g.sum1(x, k) + [implies(land(g.inq(p)), y) for y in on(lambda p: located(p), k, p)]
        return c
    def ends(q, d):
        """What the loops established on rank q about destination d"""
        out = []
        for vs, body in getattr(ctx, "loop_ends", []):
            if len(vs) > 1: continue
            x = [fresh_int("u") for _ in vs]
            b = w.on(z3.substitute(t(body), *zip(vs, x)), q)
            out.append(z3.substitute(b, *[(a, t(d)) for a in x]))
        return out
    def located(p):
        x = t(g.val(p)); out = []
        for s in getattr(ctx, "searches", []): out += same(s, x, p)
        ss = s1s2()
        if ss:
            s = ss[0]; sp = t(s["s"](p))
            for i in (sp, t(sub(g.n, 1))): out += [g.l(x, i), g.u(x, i)]
        return out + [g.lu(x), g.l(x, t(sub(g.n, 1))), g.u(x, t(g.less(x))), g.l(x, t(sub(g.upto(x), 1)))]
    g.located = located
    def cand_sent(self, params, fd, nn):
        if not g.split: return None
        c = lambda k: g.cut(k)
        c.hints = lambda k: [g.cutdef(k), g.cutdef(add(k, 1)), g.mono(k)] + ends(me, k)
        return c
    def cand_recv(self, params, fd, nn):
        if not g.split: return None
        c = lambda k: sub(g.C(add(me, 1), k), g.C(me, k))
        c.hints = lambda k: g.Ch(me, k) + g.Ch(add(me, 1), k) + ends(k, me) + [w.rng] + on(lambda x: [g.mono(x), g.cutdef(x), g.cutdef(add(x, 1))], k, me)
        return c
    ctx.close_at_use = True
    ctx.sum_candidates = [cand_low, cand_sent, cand_recv]
    base = lambda q: [g.mono(q), g.cutdef(q), g.cutdef(add(q, 1))] + ends(me, q) if g.split else []
    ctx.summand_hints = lambda j: (base(j) + on(lambda x: base(x), j, me)) if g.split else []
    ctx.alltoallv_hints = lambda q: (base(q) + base(me) + on(lambda x: base(x), q, me) + [g.mono2(add(q, 1), P)]) if g.split else []
    outer = Outer(v.I.comm, has); outer_rank(ctx, has)
    v.I.models["mpi4py.MPI"].d["COMM_WORLD"] = outer
    r_ = v.call(MOD, "parallel_sort", a, *([outer] if cfg["index"] else []), **({"return_index": True} if cfg["index"] else {}))
    ctx.prove(hasattr(ctx, "split"), "the ranks with elements are brought together")
    if not cfg["index"]: v.ensure(r_ is None, "nothing is returned")
    if not has:
        if cfg["index"]: v.ensure(land(eq(len(r_.shape), 1), eq(r_.shape[0], 0)), "the index is empty on a rank without elements")
        v.unchanged(a, a0, "nothing happens on a rank without elements"); return
    ctx.where = "postcondition"; ctx.func = v.label
    v.ensure(land(eq(len(a.shape), 1), eq(a.shape[0], n)), "as many elements as before")
    if len(getattr(ctx, "exchanges", [])) < 1 or len(getattr(ctx, "argsorts", [])) < 2 or not g.split: raise Unsupported("the array is not sorted by an exchange between two local sorts")
    new = ctx.named(a.cell.fn, 1, "result"); e = ctx.exchanges[0]; o1, o2 = ctx.argsorts[0], ctx.argsorts[-1]; srt, cut = g.srt, g.cut
    inst = lambda q, d: [x for h in getattr(ctx, "instances", []) for x in on(lambda z: [h(z)], q, d)]
    i, j, q, r = [v.fresh(x) for x in "ijqr"]
    P_ = lambda i: o2["p"](i); own = lambda i: e["own"](P_(i)); at = lambda i: add(e["sfrom"](own(i)), sub(P_(i), e["rd"](own(i))))
    mine = lambda i: land(le(0, i), lt(i, n))
    seg = lambda q: implies(g.inq(q), land(ge(e["rd"](q), 0), le(add(e["rd"](q), e["rc"](q)), n), eq(e["rc"](q), e["sent"](q)), ge(e["rc"](q), 0)))
    seg = g.lemma(seg(q), "segments which are received", [q], ctx.alltoallv_hints(q) + [g.total])
    sent = g.lemma(implies(land(g.inq(q), g.inq(r)), land(eq(on(lambda d: e["sd"](d), q, r), on(cut, q, r)), eq(on(lambda d: e["sc"](d), q, r), sub(on(cut, q, add(r, 1)), on(cut, q, r))))), "segments which are sent", [q, r],
                   ends(q, r) + inst(q, r) + on(lambda d: base(d), q, r))
    come = lambda i: land(g.inq(own(i)), le(on(cut, own(i), me), at(i)), lt(at(i), on(cut, own(i), add(me, 1))), le(0, at(i)), lt(at(i), g.rows(own(i))), e["hit"](P_(i)), le(0, P_(i)), lt(P_(i), n), eq(new(i), on(srt, own(i), at(i))))
    come = g.lemma(implies(mine(i), come(i)), "where an element comes from", [i], [o2["perm"](i), e["cover"](P_(i)), e["fromseg"](P_(i)), g.total, seg(own(i)), sent(own(i), me), w.rng] + on(lambda d: [g.mono(d), g.mono2(add(d, 1), P), g.cutdef(P), g.cutdef(d)], own(i), me))
    x0, x1 = t(g.val(me)), t(g.val(add(me, 1)))
    bound = g.lemma(implies(mine(i), land(implies(ge(me, 1), ge(new(i), x0)), implies(lt(me, sub(P, 1)), le(new(i), x1)))), "values on a rank lie between two splitting values", [i],
                    [come(i), w.rng] + BOUND(g, own(i), at(i)))
    v.ensure(implies(land(le(0, i), le(i, j), lt(j, n)), le(new(i), new(j))), "the elements of each rank are in ascending order", hints=[o2["order"](i, j)])
    v.ensure(implies(land(g.inq(q), g.inq(r), lt(q, r), le(0, i), lt(i, g.rows(q)), le(0, j), lt(j, g.rows(r))), le(on(new, q, i), on(new, r, j))), "no element is larger than one on a later rank",
             hints=[on(bound, q, i), on(bound, r, j)] + g.order(add(q, 1), r))
    # permutation: where elements come from and go to
    src = lambda i: add(g.first(own(i)), on(o1["p"], own(i), at(i)))
    old = lambda q, k: on(a0, q, k)
    fh = lambda q, r: [ctx.mono(g.rows, q, r, P), ctx.mono(g.rows, r, q, P), ctx.mono(g.rows, q, P, P)] + g.first_hints(q) + g.first_hints(r)
    perm1 = lambda q, k: [on(lambda y: o1["perm"](y), q, k)]
    v.ensure(implies(mine(i), eq(new(i), old(own(i), sub(src(i), g.first(own(i)))))), "each element is one of the original ones", hints=[come(i)] + perm1(own(i), at(i)))
    u = o1["q"](j); D = g.dest(u); p2 = add(on(lambda d: e["rd"](d), D, me), sub(u, cut(D))); i2 = on(lambda y: o2["q"](y), D, p2)
    arrive = [o1["inv"](j), g.destdef(u), w.rng, sent(me, D), there(g, lambda m: seg(m), D), there2(g, lambda m, y: e["uniq"](y, m), D, p2), on(lambda y: o2["inv"](y), D, p2), on(come, D, i2), on(lambda: g.total, D)] + perm1(me, u) + [g.mono(D), g.mono2(add(D, 1), P)]
    goal = land(g.inq(D), le(0, i2), lt(i2, g.rows(D)), eq(on(own, D, i2), me), eq(on(at, D, i2), u), eq(on(src, D, i2), add(g.first(me), j)), eq(on(new, D, i2), a0(j)))
    v.ensure(implies(mine(j), goal), "each original element is found on some rank", hints=arrive)
    both = land(g.inq(q), g.inq(r), le(0, i), lt(i, g.rows(q)), le(0, j), lt(j, g.rows(r)), eq(on(src, q, i), on(src, r, j)))
    oq, orr = on(own, q, i), on(own, r, j); uq, ur = on(at, q, i), on(at, r, j)
    inj = [on(come, q, i), on(come, r, j)] + fh(oq, orr) + perm1(oq, uq) + perm1(orr, ur) + on2(g, oq, q, r) + \
          [on(lambda y: o2["perm"](y), q, i), on(lambda y: o2["perm"](y), r, j)]
    v.ensure(implies(both, land(eq(q, r), eq(i, j))), "no original element is found twice", hints=inj)
    if not cfg["index"]: return
    v.ensure(land(eq(len(r_.shape), 1), eq(r_.shape[0], n)), "one index for each element")
    R = ctx.named(r_.freeze(), 1, "index")
    if len(ctx.exchanges) < 2: raise Unsupported("the index is not exchanged")
    e2 = ctx.exchanges[1]
    v.ensure(implies(mine(i), eq(R(i), src(i))), "the index is the original position of the element", hints=[come(i), e2["uniq"](P_(i), own(i)), e2["fromseg"](P_(i)), e["fromseg"](P_(i)), e["uniq"](P_(i), e2["own"](P_(i))), o2["perm"](i), g.total, w.rng, seg(own(i)), sent(own(i), me)] + perm1(own(i), at(i)) + g.first_hints(own(i)))
    v.ensure(implies(land(mine(i), g.inq(q), le(g.first(q), src(i)), lt(src(i), add(g.first(q), g.rows(q)))), eq(new(i), old(q, sub(src(i), g.first(q))))), "the original element at that position is this one", hints=[come(i)] + perm1(own(i), at(i)) + fh(q, own(i)))


def on2(g, o, q, r):
    x, y = fresh_int("x"), fresh_int("y")
    return [z3.substitute(g.w.on(t(f), o), (x, t(q)), (y, t(r))) for f in (g.mono2(add(x, 1), y), g.mono2(add(y, 1), x))]


def there(g, f, q):
    """Formula f(me) about another rank m of this one, stated on rank q about rank me"""
    m = fresh_int("m")
    return z3.substitute(g.w.on(t(f(m)), q), (m, g.me))


def there2(g, f, q, y):
    m, z = fresh_int("m"), fresh_int("z")
    return z3.substitute(g.w.on(t(f(m, z)), q), (m, g.me), (z, t(y)))


def BOUND(g, q, u):
    """Elements from cut(d) on are not smaller than splitting value d, those before cut(d+1) not larger than value d+1"""
    d = fresh_int("d"); z = fresh_int("z")
    x0, x1 = t(g.val(d)), t(g.val(add(d, 1)))
    f = [g.l(x0, z), g.u(x0, z), g.l(x1, z), g.u(x1, z), g.lu(x0), g.lu(x1), g.cutdef(d), g.cutdef(add(d, 1)), g.l(x0, t(0)), g.l(x1, t(0))]
    return [z3.substitute(g.w.on(t(x), q), (d, g.me), (z, t(u))) for x in f]


def counted(st):
    """How many instances of each splitting value are on lower ranks"""
    g = st.I.ctx.g; d = fresh_int("d"); x = st["nval_lower"].freeze()(d)
    return All([d], implies(land(le(0, d), lt(d, st.k)), eq(x, g.low(d))), [x] if usable_trigger(x, [d]) else [], g.sum0(t(g.val(d))) + [h(g.me) for h in getattr(g.ctx, "instances", [])])


def at_cut(st):
    g = st.I.ctx.g
    return eq(st["first_to_send"], g.cut(st.k))


def counts(st):
    """Elements sent to the ranks so far"""
    g = st.I.ctx.g; d = fresh_int("d"); x = st["send_count"].freeze()(d)
    return All([d], implies(land(le(0, d), lt(d, st.k)), eq(x, sub(g.cut(add(d, 1)), g.cut(d)))), [x] if usable_trigger(x, [d]) else [], [g.mono(d)])


def cut_hints(st):
    """The place where the elements for the next rank start"""
    g = st.I.ctx.g; k = st.k; ctx = st.I.ctx; P, me = g.P, g.me
    if not g.split: return []
    e = add(k, 1); x = t(g.val(e))
    low = st["nval_lower"].freeze()(t(e))
    return [g.cutdef(t(0)), g.cutdef(k), g.cutdef(e), g.mono(k), g.mono2(e, P), g.mono2(k, P), g.cutdef(P)] + g.located(e) + g.located(k) + g.sum0(x) + g.found(e) + [implies(g.inq(e), eq(low, g.low(e))), implies(g.inq(k), ge(g.rows(k), 1))] + g.first_hints(e)


PROPERTY = "C04"
ASSUMPTIONS = ["find_splitting_points meets its contract (C23): the value at each requested position, the lowest and highest position where it occurs, in order of position",
               "MPI Comm.Split makes a communicator of the ranks with the same colour, in order of key (ranks without elements contribute nothing to the concatenation)",
               "finite sums do not depend on how they are grouped: partial sums partition [0, total)"]
spec = {(F, 0): LoopSpec([counted]), (F, 1): LoopSpec([at_cut, counts], hints=cut_hints)}
def tasks():
    for el in (True, False):
        for ix in (True, False):
            yield dict(label="parallel_sort", fn=contract, cfg=dict(elements=el, index=ix), spmd=True, contracts={MOD + ".my_alltoallv": exchange, MOD + ".find_splitting_points": splitting_points},
                       loopspecs=dict(spec) if el else {}, cfgname="%s elements, %s index" % ("with" if el else "without", "with" if ix else "without"))
