"""C01: virgo.mpi.parallel_sort.my_alltoallv and sendrecv"""
from verify import *
from loops import LoopSpec, All
from mpimodel import MPIType

MOD = "virgo.mpi.parallel_sort"
I8 = np.dtype(np.int64)


class Ghost:
    """Ghost functions of the chunked transfer of c elements, N at a time"""
    def __init__(self, ctx, N, single=False):
        self.ctx, self.N = ctx, N
        self.rem = z3.Function("rem", Int, Int, Int)         # elements left after j transfers
        self.nit = z3.Function("nit", Int, Int, Int)         # transfers needed for a and b elements, both at once
        rem, nit = self.rem, self.nit
        ctx.facts.append(N >= 1)
        c, j, a, b = z3.Ints("_c _j _a _b")
        ctx.facts += [z3.ForAll([c], self.d0(c), patterns=[rem(c, 0)]), z3.ForAll([c, j], self.d1(c, j), patterns=[rem(c, j + 1)])]
        # left over: decreases, and nothing is left after c transfers
        c = ctx.const("c")
        down = ctx.induct("elements left", lambda j: land(ge(rem(c, j), 0), le(rem(c, j), tmax(0, sub(c, j)))), 0, None, lambda j: [rem(c, t(j))], [c], ge(c, 0), hints=lambda j: [self.d0(c), self.d1(c, t(j))])
        self.down = lambda j, c_: down(t(j), t(c_))
        # it does not increase
        d, j0 = ctx.const("d"), ctx.const("j0")
        P = lambda e: le(rem(c, add(j0, e)), rem(c, j0))
        if single: mono = ctx.induct("elements left do not increase", P, 0, None, lambda e: [rem(c, add(j0, e))], [c, j0], land(ge(c, 0), ge(j0, 0)), hints=lambda e: [self.d1(c, add(j0, e)), down(add(j0, e), c)])
        if single: self.later = lambda c_, j1, j2: implies(le(j1, j2), mono(sub(t(j2), t(j1)), t(c_), t(j1)))
        zero = z3.Implies(z3.And(a >= 0, b >= 0), z3.Exists([j], z3.And(j >= 0, rem(a, j) == 0, rem(b, j) == 0)))
        a_, b_, j_ = ctx.const("a"), ctx.const("b"), ctx.const("j")
        m = z3.If(a_ > b_, a_, b_)
        ctx.lemma(z3.Implies(z3.And(a_ >= 0, b_ >= 0), z3.And(rem(a_, m) == 0, rem(b_, m) == 0)), "nothing is left after as many transfers as elements", hints=[down(m, a_), down(m, b_)])
        # so there is a least number of transfers after which nothing is left
        ctx.used.add("well-ordering of the natural numbers")
        ctx.facts += [z3.ForAll([a, b], self.n0(a, b), patterns=[nit(a, b)]), z3.ForAll([a, b, j], self.n1(a, b, j), patterns=[z3.MultiPattern(nit(a, b), rem(a, j)), z3.MultiPattern(nit(a, b), rem(b, j))])]
        sym = nit(a_, b_) == nit(b_, a_)
        ctx.lemma(z3.Implies(z3.And(a_ >= 0, b_ >= 0), sym), "the number of transfers is the same for both sides", [a_, b_], [nit(a_, b_)],
                  hints=[self.n0(a_, b_), self.n0(b_, a_), self.n1(a_, b_, nit(b_, a_)), self.n1(b_, a_, nit(a_, b_))])
        self.sym = lambda x, y: z3.Implies(z3.And(t(x) >= 0, t(y) >= 0), nit(t(x), t(y)) == nit(t(y), t(x)))
    def d0(self, c): return self.rem(t(c), t(0)) == t(c)
    def d1(self, c, j):
        c, j = t(c), t(j); r = self.rem(c, j)
        return z3.Implies(j >= 0, self.rem(c, j + 1) == r - z3.If(r < self.N, r, self.N))
    def n0(self, a, b):
        a, b = t(a), t(b); n = self.nit(a, b)
        return z3.Implies(z3.And(a >= 0, b >= 0), z3.And(n >= 0, self.rem(a, n) == 0, self.rem(b, n) == 0))
    def n1(self, a, b, j):
        a, b, j = t(a), t(b), t(j)
        return z3.Implies(z3.And(a >= 0, b >= 0, 0 <= j, j < self.nit(a, b)), z3.Or(self.rem(a, j) > 0, self.rem(b, j) > 0))


def setup(v, cfg):
    """Counts and offsets, buffers and what has to arrive"""
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    T = SDtype("T", Elem, "?")
    if is_sym(T.itemsize): ctx.facts.append(z3.And(T.itemsize >= 1, T.itemsize <= 100 * 1024 * 1024))
    ns, nr = v.int("ns", lo=0), v.int("nr", lo=0)
    S, R = v.array("sendbuf", [ns], T), v.array("recvbuf", [nr], T)
    sc, sd, rc, rd = [v.array(x, [P], I8) for x in ("send_count", "send_offset", "recv_count", "recv_offset")]
    g = v.g = type("G", (), {})(); ctx.g = g
    g.S, g.R, g.arrays = S, R, (sc, sd, rc, rd)
    g.sc, g.sd, g.rc, g.rd = [x.cell.fn for x in (sc, sd, rc, rd)]
    g.S0, g.R0, g.ns, g.nr = S.cell.fn, R.cell.fn, ns, nr
    q, r = v.fresh("q"), v.fresh("r")
    a = fresh_int("a")
    at = lambda f, q, i: z3.substitute(w.on(t(f(a)), q), (a, t(i)))      # f(i) on rank q
    g.at = at; inr = g.inr = lambda x: land(le(0, x), lt(x, P))
    g.pre = lambda q: implies(inr(q), land(ge(g.sc(q), 0), lor(eq(g.sc(q), 0), land(ge(g.sd(q), 0), le(add(g.sd(q), g.sc(q)), ns))), ge(g.rd(q), 0), le(add(g.rd(q), g.rc(q)), nr), eq(g.rc(q), at(g.sc, q, me))))
    v.assume(g.pre(q), [q], [g.sc(q)]); v.assume(g.pre(q), [q], [g.rc(q)])
    sep = g.sep = lambda q, r: implies(land(inr(q), inr(r), lnot(eq(q, r))), lor(eq(g.rc(q), 0), eq(g.rc(r), 0), le(add(g.rd(q), g.rc(q)), g.rd(r)), le(add(g.rd(r), g.rc(r)), g.rd(q))))
    v.assume(sep(q, r), [q, r], [z3.MultiPattern(g.rd(q), g.rd(r))])
    # which rank element p of the receive buffer comes from, if any
    g.own, g.hit = ctx.fresh_fn("from", 1), ctx.fresh_fn("received", 1, Bool)
    p = v.fresh("p")
    g.fromseg = lambda p: implies(g.hit(p), land(inr(g.own(p)), le(g.rd(g.own(p)), p), lt(p, add(g.rd(g.own(p)), g.rc(g.own(p))))))
    g.uniq = lambda p, q: implies(land(inr(q), le(g.rd(q), p), lt(p, add(g.rd(q), g.rc(q)))), land(g.hit(p), eq(g.own(p), q)))
    v.assume(g.fromseg(p), [p], [g.hit(p)]); v.assume(g.uniq(p, q), [p, q], [z3.MultiPattern(g.hit(p), g.rd(q))])
    g.val = lambda p: at(g.S0, g.own(p), add(at(g.sd, g.own(p), me), sub(p, g.rd(g.own(p)))))
    g.partner_hints = lambda d: [g.pre(d), w.on(t(g.pre(me)), d), w.on(t(g.pre(w.on(t(d), d) if is_sym(d) else d)), d), inr(me)]
    return g


def mpi_datatype(I, L):
    d = I.resolve(L["dtype"])
    return MPIType(d)




# --- loops of the pairwise exchange
def ranks_count(st):
    """Dimensions of the smallest hypercube which holds the ranks"""
    ctx, P = st.I.ctx, st.I.ctx.world.P
    K0 = ctx.const("ptask0"); p2 = st.I.np.pow2
    j = fresh_int("j")
    ctx.used.add("well-ordering of the natural numbers")
    ctx.g.K0 = K0; ctx.g.kdef = lambda j: implies(land(le(0, j), lt(j, K0)), lt(p2(t(j)), P))
    ctx.facts.append(land(K0 >= 0, p2(K0) >= P))
    ctx.facts.append(forall([j], ctx.g.kdef(j), [p2(j)]))
    return K0


def ptask_spec(): return LoopSpec([lambda st: eq(st["ptask"], st.k)], ranks_count, lambda st: [st.I.ctx.g.kdef(st.k)])


def outer_inv(st):
    g, w, I = st.I.ctx.g, st.I.ctx.world, st.I
    p = fresh_int("p"); R = st["recvbuf"].cell.fn
    hints = [g.fromseg(p), g.pre(g.own(p))] + I.ctx.xor_rules(w.me, g.own(p)) + I.ctx.xor_rules(w.me, st.k)
    return All([p], eq(R(p), ite(land(g.hit(p), lt(g.xor(w.me, g.own(p)), st.k)), g.val(p), g.R0(p))), [R(p)] if usable_trigger(R(p), [p]) else [g.hit(p)], hints)


def inner_count(st):
    g = st.I.ctx.g; r = st["rank"]
    return g.ghost.nit(t(g.sc(r)), t(g.rc(r)))


def inner_scalars(st):
    g = st.I.ctx.g; r = st["rank"]; rem = g.ghost.rem; k = t(st.k)
    ls, lr = rem(t(g.sc(r)), k), rem(t(g.rc(r)), k)
    return land(eq(st["left_to_send"], ls), ls >= 0, eq(st["current_send_offset"], add(g.sd(r), sub(g.sc(r), ls))), ls <= t(g.sc(r)),
                eq(st["left_to_recv"], lr), lr >= 0, eq(st["current_recv_offset"], add(g.rd(r), sub(g.rc(r), lr))), lr <= t(g.rc(r)))


def inner_content(st):
    g, w, I = st.I.ctx.g, st.I.ctx.world, st.I
    r = st["rank"]; cur = add(g.rd(r), sub(g.rc(r), g.ghost.rem(t(g.rc(r)), t(st.k))))
    p = fresh_int("p"); R = st["recvbuf"].cell.fn; n = st["ngrp"]
    G = g.ghost
    hints = [g.fromseg(p), g.pre(g.own(p)), g.pre(r), g.uniq(p, r)] + I.ctx.xor_rules(w.me, g.own(p)) + inner_hints(st) + [w.on(t(g.pre(w.me)), r)] + [h for c in (g.rc(r), g.sc(r)) for h in (G.down(st.k, c), G.d1(c, sub(st.k, 1)))]
    return All([p], eq(R(p), ite(land(g.hit(p), lor(lt(g.xor(w.me, g.own(p)), n), land(eq(g.own(p), r), lt(p, cur)))), g.val(p), g.R0(p))), [R(p)] if usable_trigger(R(p), [p]) else [g.hit(p)], hints)


def inner_hints(st):
    g = st.I.ctx.g; r = st["rank"]; G = g.ghost
    k = st.k
    return [G.d0(g.sc(r)), G.d0(g.rc(r)), G.d1(g.sc(r), k), G.d1(g.rc(r), k), G.n0(g.sc(r), g.rc(r)), G.n1(g.sc(r), g.rc(r), k), g.pre(r)]


# --- loops of the version with non-blocking messages
def post_outer_inv(st):
    g, w = st.I.ctx.g, st.I.ctx.world
    p = fresh_int("p"); R = st["recvbuf"].cell.fn
    return All([p], eq(R(p), ite(land(g.hit(p), lt(g.own(p), st.k)), g.val(p), g.R0(p))), [R(p)] if usable_trigger(R(p), [p]) else [g.hit(p)], [g.fromseg(p), g.pre(g.own(p))])


def half_count(which):
    def count(st):
        g = st.I.ctx.g; c = t(getattr(g, which + "c")(st["rank"]))
        return g.ghost.nit(c, c)
    return count


def half_scalars(which):
    def inv(st):
        g = st.I.ctx.g; r = st["rank"]; rem = g.ghost.rem; name = {"s": "send", "r": "recv"}[which]
        c, d = getattr(g, which + "c"), getattr(g, which + "d")
        l = rem(t(c(r)), t(st.k))
        return land(eq(st["left_to_" + name], l), l >= 0, eq(st["current_%s_offset" % name], add(d(r), sub(c(r), l))), l <= t(c(r)))
    return inv


def half_hints(which):
    def hints(st):
        g = st.I.ctx.g; r = st["rank"]; G = g.ghost; c = getattr(g, which + "c")(r)
        return [G.d0(c), G.d1(c, st.k), G.n0(c, c), G.n1(c, c, st.k), g.pre(r)]
    return hints


def post_inner_content(st):
    g = st.I.ctx.g; r = st["rank"]
    cur = add(g.rd(r), sub(g.rc(r), g.ghost.rem(t(g.rc(r)), t(st.k))))
    p = fresh_int("p"); R = st["recvbuf"].cell.fn
    hints = [g.fromseg(p), g.pre(g.own(p)), g.pre(r), g.uniq(p, r)] + half_hints("r")(st)
    return All([p], eq(R(p), ite(land(g.hit(p), lor(lt(g.own(p), r), land(eq(g.own(p), r), lt(p, cur)))), g.val(p), g.R0(p))), [R(p)] if usable_trigger(R(p), [p]) else [g.hit(p)], hints)


def contract(v, cfg):
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    g = setup(v, cfg)
    T = g.S.dtype
    N = floordiv(100 * 1024 * 1024, T.itemsize)
    g.ghost = Ghost(ctx, N, cfg["args"].get("method") == "async")
    v.np.xor(me, fresh_int("z")); ctx.hints = []
    xf = z3.Function("xor", Int, Int, Int); g.xor = lambda a, b: xf(t(a), t(b))
    ctx.exchange_hints = lambda d: g.partner_hints(d) + [g.ghost.sym(g.sc(d), g.rc(d))]
    # what a receive from a rank has to get: the elements at the same place in the segment which that rank sends
    ctx.expected = lambda r: (lambda i: g.at(g.S0, r.peer, add(g.at(g.sd, r.peer, me), sub(add(r.start, i), g.rd(r.peer)))))
    if cfg["args"].get("method") == "async":
        G = g.ghost
        ctx.exchange_hints = lambda d: g.partner_hints(d)
        def overlap(b, c):
            # positions of two transfers: of different ranks, or one after the other
            h = [g.sep(b[0], c[0]), g.pre(b[0]), g.pre(c[0])]
            if len(b) > 1: h += [G.d1(g.rc(x), y) for x in (b[0], c[0]) for y in (b[1], c[1])] + [G.later(g.rc(b[0]), add(y, 1), z) for y, z in ((b[1], c[1]), (c[1], b[1]))] + [G.later(g.rc(b[0]), 0, y) for y in (b[1], c[1])] \
                + [G.down(y, g.rc(x)) for x in (b[0], c[0]) for y in (b[1], c[1])] + [G.later(g.rc(x), 0, y) for x in (b[0], c[0]) for y in (b[1], c[1])] + [G.d0(g.rc(x)) for x in (b[0], c[0])]
            return h
        ctx.overlap_hints = overlap
    sc, sd, rc, rd = g.arrays
    v.call(MOD, "my_alltoallv", g.S, sc, sd, g.R, rc, rd, **cfg["args"])
    q, i, p = v.fresh("q"), v.fresh("i"), v.fresh("p")
    pos = add(g.rd(q), i)
    v.ensure_all([q, i], land(g.inr(q), le(0, i), lt(i, g.rc(q))), eq(g.R.get(pos), g.at(g.S0, q, add(g.at(g.sd, q, me), i))), "element i received from q is element i of what q sends to this rank",
                 hints=[g.uniq(pos, q), g.pre(q)])
    outside = lambda q: implies(land(g.inr(q), le(g.rd(q), p), lt(p, add(g.rd(q), g.rc(q)))), False)
    v.ensure_all([p], land(le(0, p), lt(p, g.nr), forall([q], outside(q), [g.rd(q)])), eq(g.R.get(p), g.R0(p)), "the rest of the receive buffer is unchanged", hints=[g.fromseg(p), outside(g.own(p))])
    v.unchanged(g.S, g.S0, "send buffer not modified")
    for x, f, n in zip(g.arrays, (g.sc, g.sd, g.rc, g.rd), ("send counts", "send offsets", "receive counts", "receive offsets")): v.unchanged(x, f, n + " not modified")


# --- exchange with one other rank
def sr_count(st):
    g = st.I.ctx.g
    return g.ghost.nit(g.n, g.m)


def sr_scalars(st):
    g = st.I.ctx.g; k = t(st.k); rem = g.ghost.rem
    ls, lr = rem(g.n, k), rem(g.m, k)
    return land(eq(st["nr_send_left"], ls), ls >= 0, eq(st["send_offset"], sub(g.n, ls)), ls <= g.n, eq(st["nr_recv_left"], lr), lr >= 0, eq(st["recv_offset"], sub(g.m, lr)), lr <= g.m)


def sr_content(st):
    g = st.I.ctx.g; p = fresh_int("p"); R = st["recvbuf"].cell.fn
    return All([p], eq(R(p), ite(land(le(0, p), lt(p, sub(g.m, g.ghost.rem(g.m, t(st.k))))), g.val(p), g.R0(p))), [R(p)] if usable_trigger(R(p), [p]) else [], sr_hints(st))


def sr_hints(st):
    g = st.I.ctx.g; G = g.ghost; k = st.k
    return [h for c in (g.n, g.m) for j in (k, sub(k, 1)) for h in (G.d0(c), G.d1(c, j), G.down(j, c))] + [G.n0(g.n, g.m), G.n1(g.n, g.m, k)] + g.pre


def sendrecv_contract(v, cfg):
    ctx, w = v.ctx, v.ctx.world; me, P = w.me, w.P
    T = SDtype("T", Elem, "?")
    ctx.facts.append(z3.And(T.itemsize >= 1, T.itemsize <= 100 * 1024 * 1024))
    g = ctx.g = type("G", (), {})()
    g.n = v.int("ns", lo=0); nr = v.int("nr", lo=0); dest = v.int("dest", lo=0)
    S, R = v.array("sendbuf", [g.n], T), v.array("recvbuf", [nr], T)
    g.S0, g.R0 = S.cell.fn, R.cell.fn
    g.m = w.on(g.n, dest)
    both = land(lt(dest, P), eq(w.on(dest, dest), me), le(g.m, nr))
    v.assume(both, [], [])
    g.pre = [both, w.on(t(both), dest), land(g.n >= 0, g.m >= 0, dest >= 0), z3.And(0 <= me, me < P)]
    a = fresh_int("a")
    g.val = lambda p: z3.substitute(w.on(t(g.S0(a)), dest), (a, t(p)))
    N = floordiv(100 * 1024 * 1024, T.itemsize)
    args = {}
    if cfg["nchunk"]: N = args["nchunk"] = v.int("nchunk", local=False, lo=1)
    if cfg["comm"]: args["comm"] = v.I.comm
    g.ghost = Ghost(ctx, N)
    ctx.exchange_hints = lambda d: g.pre + [g.ghost.sym(g.n, g.m)]
    v.call(MOD, "sendrecv", dest, S, R, **args)
    p = v.fresh("p")
    v.ensure_all([p], land(le(0, p), lt(p, g.m)), eq(R.get(p), g.val(p)), "the elements of the other rank are received", hints=g.pre)
    v.ensure_all([p], land(le(g.m, p), lt(p, nr)), eq(R.get(p), g.R0(p)), "the rest of the receive buffer is unchanged", hints=g.pre)
    v.unchanged(S, g.S0, "send buffer not modified")


PROPERTY = "C01"
def tasks():
    F = MOD + ".my_alltoallv"
    specs = {(F, 0): ptask_spec(), (F, 1): LoopSpec([outer_inv]), (F, 2): LoopSpec([inner_scalars, inner_content], inner_count, inner_hints, ranks=lambda st: [st["rank"]])}
    specs.update({(F, 3): LoopSpec([post_outer_inv]), (F, 4): LoopSpec([half_scalars("r"), post_inner_content], half_count("r"), half_hints("r")), (F, 5): LoopSpec(), (F, 6): LoopSpec([half_scalars("s")], half_count("s"), half_hints("s"))})
    pick = lambda *n: {k: x for k, x in specs.items() if k[1] in n}
    for args in ({}, {"method": "hypercube"}):
        yield dict(label="my_alltoallv", fn=contract, cfg=dict(args=args), spmd=True, contracts={MOD + ".mpi_datatype": mpi_datatype}, loopspecs=pick(0, 1, 2), cfgname="pairwise" + (" (by name)" if args else ""))
    yield dict(label="my_alltoallv", fn=contract, cfg=dict(args={"method": "async"}), spmd=True, contracts={MOD + ".mpi_datatype": mpi_datatype}, loopspecs=pick(0, 3, 4, 5, 6), cfgname="non-blocking")
    F = MOD + ".sendrecv"
    for nchunk in (False, True):
        for comm in (False, True):
            if comm and not nchunk: continue
            yield dict(label="sendrecv", fn=sendrecv_contract, cfg=dict(nchunk=nchunk, comm=comm), spmd=True, contracts={MOD + ".mpi_datatype": mpi_datatype},
                       loopspecs={(F, 0): LoopSpec([sr_scalars, sr_content], sr_count, sr_hints, ranks=lambda st: [st["dest"]])}, cfgname="sendrecv" + (", chunk size given" if nchunk else "") + (", communicator" if comm else ""))
