"""C12: virgo.mpi.util.group_index_from_length_and_offset"""
from verify import *
from loops import LoopSpec, All
from contracts.psort import alltoallv, elem1

MOD = "virgo.mpi.util"
F = MOD + ".group_index_from_length_and_offset"
I8 = np.dtype(np.int64)


def contract(v, cfg):
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    ng, npart = v.int("nr_groups", lo=0), v.int("nr_local_ids", lo=0)
    length, offset = v.array("length", [ng], I8), v.array("offset", [ng], I8)
    ln, off = length.cell.fn, offset.cell.fn
    g = ctx.g = type("G", (), {})()
    g.ln, g.off, g.ng, g.np = ln, off, ng, npart
    on = lambda f, q, *x: elem1(w, f, q, *x)
    end = g.end = lambda i: add(off(i), ln(i))
    parts = lambda q: w.on(npart, q)
    groups = lambda q: w.on(ng, q)
    first = g.first = lambda k: ctx.psum(parts, k, P)          # particles on ranks before k
    gfirst = lambda k: ctx.psum(groups, k, P)
    last = g.last = lambda r: sub(add(first(r), parts(r)), 1)
    i, j, q, r, p, m = [v.fresh(x) for x in "ijqrpm"]
    inq = g.inq = lambda q: land(le(0, q), lt(q, P))
    # groups do not overlap and are in order of offset
    pos = g.pos = lambda i: implies(land(le(0, i), lt(i, ng)), land(ge(ln(i), 0), ge(off(i), 0)))
    here = g.here = lambda i, j: implies(land(le(0, i), lt(i, j), lt(j, ng)), le(end(i), off(j)))
    across = g.across = lambda q, i, r, j: implies(land(inq(q), inq(r), lt(q, r), le(0, i), lt(i, groups(q)), le(0, j), lt(j, groups(r))), le(on(end, q, i), on(off, r, j)))
    v.assume(pos(i), [i], [off(i)]); v.assume(here(i, j), [i, j], [z3.MultiPattern(off(i), off(j))])
    v.assume(across(q, i, r, j), [q, i, r, j], [z3.MultiPattern(t(on(off, q, i)), t(on(off, r, j)))])
    # first and last rank each group is sent to
    ctx.used.add("well-ordering of the natural numbers")
    A, B = g.A, g.B = ctx.fresh_fn("first_rank", 1), ctx.fresh_fn("last_rank", 1)
    mine = lambda i: land(le(0, i), lt(i, ng))
    g.a0 = lambda i: implies(mine(i), land(le(0, A(i)), lt(A(i), P), lor(eq(A(i), sub(P, 1)), ge(last(A(i)), off(i)))))
    g.a1 = lambda i, r: implies(land(mine(i), le(0, r), lt(r, A(i))), lt(last(r), off(i)))
    g.b0 = lambda i: implies(mine(i), land(le(-1, B(i)), lt(B(i), P), lor(eq(B(i), sub(P, 1)), ge(first(add(B(i), 1)), end(i)))))
    g.b1 = lambda i, r: implies(land(mine(i), le(0, r), le(r, B(i))), lt(first(r), end(i)))
    for f in (g.a0(i),): v.assume(f, [i], [A(i)])
    v.assume(g.b0(i), [i], [B(i)])
    v.assume(g.a1(i, r), [i, r], [z3.MultiPattern(A(i), t(first(r)))]); v.assume(g.b1(i, r), [i, r], [z3.MultiPattern(B(i), t(first(r)))])
    def ordered(i, j):
        """Later groups are not sent to ranks before those of earlier ones"""
        return [g.a0(i), g.a0(j), g.b0(i), g.b0(j), g.a1(j, A(i)), g.a1(i, A(j)), g.b1(i, add(B(j), 1)), g.b1(j, add(B(i), 1)), g.here(i, j), g.pos(i), g.pos(j)]
    g.ordered = ordered
    g.later = ctx_lemma(v, [i, j], implies(land(mine(i), mine(j), le(i, j)), land(le(A(i), A(j)), le(B(i), B(j)))), "ranks in order", ordered(i, j), [z3.MultiPattern(A(i), A(j))])
    def ends(q, d, i=None):
        """What the loop over groups established on rank q, for destination d (and group i there)"""
        out = []
        for vs, body in getattr(ctx, "loop_ends", []):
            if len(vs) > 1 + (i is not None): continue
            x = [fresh_int("u") for _ in vs]
            b = w.on(z3.substitute(body, *zip(vs, x)), q)
            out.append(z3.substitute(b, *[(a, t(y)) for a, y in zip(x, (d, i))]))
        return out
    g.ends, g.parts, g.gfirst = ends, parts, gfirst
    ctx.summand_hints = lambda j: ends(j, me)
    out = v.call(MOD, "group_index_from_length_and_offset", length, offset, npart, **({"return_rank": True} if cfg["rank"] else {}), **({"comm": v.I.comm} if cfg["comm"] else {}))
    grnr, rank = out if cfg["rank"] else (out, None)
    ctx.where = "postcondition"; ctx.func = v.label
    v.ensure(land(eq(len(grnr.shape), 1), eq(grnr.shape[0], npart)), "one group index for each particle")
    G = ctx.named(grnr.freeze(), 1, "grnr"); R = ctx.named(rank.freeze(), 1, "rank") if cfg["rank"] else None
    if cfg["rank"]: v.ensure(land(eq(len(rank.shape), 1), eq(rank.shape[0], npart)), "one rank in group for each particle")
    inp = land(le(0, p), lt(p, npart)); x = add(first(me), p)
    holds = land(inq(q), le(0, j), lt(j, groups(q)), le(on(off, q, j), x), lt(x, on(end, q, j)))
    h1 = []
    if hasattr(g, "hit"):
        e = exchanged(ctx)[0]; mm = add(e["rd"](q), sub(j, e["sfrom"](q)))
        def step(goal, name, hints):
            goal = implies(land(inp, holds), goal)
            ctx.prove(goal, "lemma: " + name, hints=hints); ctx.lemmas = getattr(ctx, "lemmas", []) + [goal]; ctx.fact(goal); return goal
        H = belongs(ctx, q, j, p); on_q = lambda f: elem1(w, f, q, j)
        l1 = step(land(le(on_q(A), me), le(me, on_q(B))), "the group is sent to the rank of the particle", [on_q(g.a0), on_q(g.b0), on_q(lambda u: g.a1(u, me)), on_q(lambda u: g.b1(u, me)), w.rng, ctx.mono(parts, me, add(on_q(B), 1), P),
                  ctx.mono(parts, add(on_q(B), 1), me, P), ctx.step(parts, me, P)])
        l2 = step(land(le(e["sfrom"](q), j), lt(j, add(e["sfrom"](q), e["sent"](q)))), "it is in the segment which is sent", [l1, w.rng] + ends(q, me) + ends(q, me, j))
        l3 = step(land(le(0, mm), lt(mm, g.total), eq(g.q(mm), q), eq(g.j(mm), j)), "it is received", [l2, e["uniq"](mm, q), ctx.nonneg(lambda r: e["rc"](r), q, P), ctx.mono(lambda r: e["rc"](r), q, P, P)] + ends(q, me))
        l4 = step(land(g.hit(p), eq(g.own(p), mm)), "it is the group of the particle", [l3, g.hit_uniq(p, mm)])
        h1 = [l3, l4] + ends(me, p)
    h2 = received(ctx, g.own(p)) + [g.hit_from(p)] + ends(me, p) if hasattr(g, "hit") else []
    ends_at = getattr(ctx, "loop_ends", [])
    v.ensure(implies(land(inp, holds), eq(G(p), add(gfirst(q), j))), "a particle inside a group has the global index of the group", hints=h1)
    if R: v.ensure(implies(land(inp, holds), eq(R(p), sub(x, on(off, q, j)))), "a particle inside a group has its position in the group", hints=h1)
    gq = lambda q: [ctx.nonneg(groups, q, P), ctx.mono(groups, q, P, P), ctx.step(groups, q, P)]
    v.ensure(implies(inp, land(ge(G(p), -1), lt(G(p), gfirst(P)))), "the index is -1 or one of the groups", hints=h2 + (gq(g.q(g.own(p))) if h2 else []))
    a = sub(G(p), gfirst(q))
    o = g.q(g.own(p)) if h2 else me
    v.ensure(implies(land(inp, inq(q), le(0, a), lt(a, groups(q)), ge(G(p), 0)), land(le(on(off, q, a), x), lt(x, on(end, q, a)))), "the group with this index contains the particle",
             hints=h2 + [ctx.mono(groups, q, o, P), ctx.mono(groups, o, q, P)])
    if R: v.ensure(implies(land(inp, eq(G(p), -1)), eq(R(p), -1)), "no position in a group without a group", hints=h2 + (gq(g.q(g.own(p))) if h2 else []))
    v.unchanged(length, ln, "lengths not modified"); v.unchanged(offset, off, "offsets not modified")


def exchanged(ctx):
    """The exchanges of lengths, offsets and indexes"""
    return getattr(ctx, "exchanges", [])[:3]


def received(ctx, m):
    """Facts about received group m"""
    g, w = ctx.g, ctx.world; me = w.me; q = g.q(m)
    e = exchanged(ctx)
    out = [e[0]["fromseg"](m), e[0]["cover"](m), w.rng, implies(land(le(0, m)), ge(q, 0)) if False else w.rng]
    out += [x["uniq"](m, q) for x in e] + g.ends(q, me) + [elem1(w, g.pos, q, g.j(m))]
    return out


def ghosts(ctx):
    """Which received group contains a particle: at most one does"""
    g, w = ctx.g, ctx.world; me, P = w.me, w.P
    if hasattr(g, "hit"): return True
    if ctx.quiet or len(exchanged(ctx)) < 3: return False
    e = exchanged(ctx); on = lambda f, q, *x: elem1(w, f, q, *x)
    g.q = q = e[0]["own"]; g.total = e[0]["total"]
    g.j = j = lambda m: add(e[0]["sfrom"](q(m)), sub(m, e[0]["rd"](q(m))))
    g.O = lambda m: on(g.off, q(m), j(m)); g.E = lambda m: on(g.end, q(m), j(m))
    inside = g.inside = lambda m, p: land(le(0, m), lt(m, g.total), le(g.O(m), add(g.first(me), p)), lt(add(g.first(me), p), g.E(m)))
    p, m, n = ctx.const("p"), ctx.const("m"), ctx.const("n")
    rc = lambda x: e[0]["rc"](x)
    z = lambda m, n: [g.across(q(m), j(m), q(n), j(n)), elem1_2(w, g.here, q(m), j(m), j(n)), ctx.mono(rc, q(m), q(n), P), ctx.mono(rc, q(n), q(m), P)]
    one = implies(land(inside(m, p), inside(n, p)), eq(m, n))
    ctx.prove(one, "lemma: at most one group contains a particle", hints=received(ctx, m) + received(ctx, n) + z(m, n) + z(n, m))
    ctx.fact(one, [m, n, p])
    ctx.used.add("choice of the group which contains a particle")
    g.hit, g.own = ctx.fresh_fn("in_group", 1, Bool), ctx.fresh_fn("group_of", 1)
    g.hit_from = lambda p: implies(g.hit(p), inside(g.own(p), p))
    g.hit_uniq = lambda p, m: implies(inside(m, p), land(g.hit(p), eq(g.own(p), m)))
    ctx.fact(g.hit_from(p), [p], [g.hit(p)]); ctx.fact(g.hit_uniq(p, m), [p, m], [z3.MultiPattern(g.hit(p), q(m))])
    return True


def belongs(ctx, q, j, p):
    """Group j of rank q contains particle p of this rank: it was sent here"""
    g, w = ctx.g, ctx.world; me = w.me; e = exchanged(ctx)[0]
    m = add(e["rd"](q), sub(j, e["sfrom"](q)))
    x = lambda f, *a: elem1(w, f, q, *a)
    return received(ctx, m) + [y["uniq"](m, q) for y in exchanged(ctx)] + [g.hit_uniq(p, m), x(g.a0, j), x(g.b0, j), x(lambda u: g.a1(u, me), j), x(lambda u: g.b1(u, me), j)] + g.ends(q, me) + g.ends(q, me, j) + \
        [ctx.mono(g.parts, me, add(x(g.B, j), 1), w.P), ctx.mono(g.parts, add(x(g.B, j), 1), me, w.P), ctx.nonneg(g.parts, me, w.P), ctx.mono(lambda r: e["rc"](r), q, w.P, w.P), ctx.nonneg(lambda r: e["rc"](r), q, w.P)] + g.ends(me, p)


def elem1_2(w, f, q, x, y):
    a, b = fresh_int("a"), fresh_int("b")
    return z3.substitute(w.on(t(f(a, b)), q), (a, t(x)), (b, t(y)))


def labels(name, value):
    def inv(st):
        ctx = st.I.ctx; g, w = ctx.g, ctx.world
        if not ghosts(ctx): return True
        p = fresh_int("p"); x = st[name].freeze()(p); m = g.own(p)
        return All([p], implies(land(le(0, p), lt(p, g.np)), eq(x, ite(land(g.hit(p), lt(m, st.k)), value(ctx, m, p), -1))), [x] if usable_trigger(x, [p]) else [],
                   [g.hit_from(p), g.hit_uniq(p, st.k)] + received(ctx, st.k) + received(ctx, m))
    return inv
label_index = labels("grnr", lambda ctx, m, p: add(ctx.g.gfirst(ctx.g.q(m)), ctx.g.j(m)))
label_rank = labels("rank", lambda ctx, m, p: sub(add(ctx.g.first(ctx.world.me), p), ctx.g.O(m)))


def ctx_lemma(v, vs, goal, name, hints, pats):
    v.ctx.where = "lemma"; v.ctx.func = v.label
    v.ctx.prove(goal, "lemma: " + name, hints=hints); v.ctx.fact(goal, vs, pats)
    return lambda *xs: z3.substitute(t(goal), *[(a, t(b)) for a, b in zip(vs, xs)])


# --- loop over groups: which of them are sent to each rank
def pointers(st):
    g = st.I.ctx.g; k = st.k
    return land(eq(st["first_rank_to_send_group_to"], ite(eq(k, 0), 0, g.A(sub(k, 1)))), eq(st["last_rank_to_send_group_to"], ite(eq(k, 0), -1, g.B(sub(k, 1)))))


def segments(st):
    """The groups sent to a rank so far are consecutive"""
    g = st.I.ctx.g; k = st.k; d = fresh_int("d")
    so, sc = st["rank_send_offset"].freeze()(d), st["rank_send_count"].freeze()(d); e = add(so, sc)
    sends = lambda i: land(le(g.A(i), d), le(d, g.B(i)))
    return All([d], implies(g.inq(d), land(ge(sc, 0), implies(eq(sc, 0), eq(so, -1)), implies(gt(sc, 0), land(ge(so, 0), le(e, k), sends(so), sends(sub(e, 1)), lor(eq(e, k), lnot(sends(e))))))), [sc] if usable_trigger(sc, [d]) else [],
               [g.later(so, e), g.later(e, k), g.later(so, k), g.later(sub(e, 1), k)])


def sent(st):
    g = st.I.ctx.g; k = st.k; d, i = fresh_int("d"), fresh_int("i")
    so, sc = st["rank_send_offset"].freeze()(d), st["rank_send_count"].freeze()(d); e = add(so, sc)
    here = segments(st); one = [z3.substitute(t(x), (here.vs[0], d)) for x in [implies(land(*st.I.ctx.local()), here.body)] + list(here.hints)]
    return All([d, i], implies(land(g.inq(d), le(0, i), lt(i, k)), eq(t(land(le(g.A(i), d), le(d, g.B(i)))), t(land(le(so, i), lt(i, e))))), [z3.MultiPattern(sc, g.A(i))] if usable_trigger(sc, [d]) else [], one)


def group_hints(st):
    g = st.I.ctx.g; k = st.k
    return [g.a0(k), g.b0(k), g.a0(sub(k, 1)), g.b0(sub(k, 1)), g.later(sub(k, 1), k)]


def counted(st):
    """Ranks the group is sent to"""
    g = st.I.ctx.g; i = st["i"]; d = fresh_int("d"); k = st.k
    so, sc, so0, sc0 = st["rank_send_offset"].freeze()(d), st["rank_send_count"].freeze()(d), st.before("rank_send_offset")(d), st.before("rank_send_count")(d)
    x = st.before("first_rank_to_send_group_to"); now = land(le(x, d), lt(d, add(x, k)))
    return All([d], land(eq(so, ite(land(now, lt(so0, 0)), i, so0)), eq(sc, ite(now, add(sc0, 1), sc0))), [so] if usable_trigger(so, [d]) else [], [])


def start(g, i, f, x): return ite(eq(i, 0), x, f(sub(i, 1)))
def first_count(st):
    g = st.I.ctx.g; i = st["i"]
    return sub(g.A(i), start(g, i, g.A, 0))
def first_hints(st):
    g = st.I.ctx.g; i = st["i"]; x = add(start(g, i, g.A, 0), st.k)
    return [g.a0(i), g.a0(sub(i, 1)), g.a1(i, x), g.later(sub(i, 1), i)]
def last_count(st):
    g = st.I.ctx.g; i = st["i"]
    return sub(g.B(i), start(g, i, g.B, -1))
def last_hints(st):
    g = st.I.ctx.g; i = st["i"]; x = add(start(g, i, g.B, -1), st.k)
    return [g.b0(i), g.b0(sub(i, 1)), g.b1(i, add(x, 1)), g.later(sub(i, 1), i)]


PROPERTY = "C12"
def tasks():
    for rank in (False, True):
        yield dict(label="group_index_from_length_and_offset", fn=contract, cfg=dict(rank=rank, comm=rank), spmd=True, contracts={"virgo.mpi.parallel_sort.my_alltoallv": alltoallv},
                   loopspecs={(F, 0): LoopSpec([pointers, segments, sent], hints=group_hints), (F, 1): LoopSpec([], first_count, first_hints), (F, 2): LoopSpec([], last_count, last_hints), (F, 3): LoopSpec([counted]), (F, 4): LoopSpec([label_index]), **({(F, 5): LoopSpec([label_rank])} if rank else {})}, cfgname="with rank in group, communicator" if rank else "without rank in group")
