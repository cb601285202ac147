"""Contracts of virgo.mpi.parallel_sort's helpers as they are used at calls"""
from verify import *
import mpimodel

MOD = "virgo.mpi.parallel_sort"


def rows_of(I, buf, what):
    """Array behind a communication buffer: a one-dimensional array, or the flattened view of an array of rows"""
    b = I.resolve(buf)
    if not isinstance(b, SArr): b = I.np.as_array(b)
    if b.flat_of is not None: return b.flat_of, True
    if b.ndim != 1: I.ctx.require(False, "%s is one-dimensional" % what)
    return b, False


def row_counts(I, c, width, flat, what):
    c = I.np.as_array(I.resolve(c))
    if c.ndim != 1: raise Unsupported("counts of dimension %d" % c.ndim)
    I.ctx.require(eq(c.shape[0], I.comm.w.P), "my_alltoallv: one %s for each rank" % what)
    if not flat: return c.freeze()
    if c.scaled is not None and I.ctx.decide(eq(c.scaled[0], width)): return c.scaled[1].freeze()
    if conc(width) and width == 1: return c.freeze()
    raise Unsupported("my_alltoallv: %s is not a multiple of the row length" % what)


def alltoallv(I, L):
    """
    Contract of my_alltoallv.  Requires: matching counts (what each rank receives from another is what that one sends), segments inside the buffers, segments
    of the receive buffer which do not overlap.  Ensures: recv[rd(q)+i] = send on rank q [sd on rank q (me) + i] for 0 <= i < rc(q); the rest is unchanged.
    """
    ctx, npm, comm = I.ctx, I.np, I.comm
    w = comm.w; me, P = w.me, w.P
    c = I.resolve(L.get("comm"))
    if c is not None and c is not comm: raise Unsupported("my_alltoallv on another communicator")
    comm.collective("(my_alltoallv)")
    S, fs = rows_of(I, L["sendbuf"], "send buffer"); R, fr = rows_of(I, L["recvbuf"], "receive buffer")
    flat = fs or fr
    comm.same_kind(S, R)
    if S.ndim != R.ndim: raise Unsupported("my_alltoallv: rows of different dimension")
    for d, e in zip(S.shape[1:], R.shape[1:]): comm.same_length(d, e, "my_alltoallv: rows have the same shape in both buffers")
    for a, what in ((S, "send"), (R, "receive")):
        if not flat: ctx.require(a.contig if is_sym(a.contig) else bool(a.contig), "my_alltoallv: %s buffer is contiguous" % what)
    width = prod(S.shape[1:])
    sc, sd, rc, rd = [ctx.named(row_counts(I, L[x], width, flat, x), 1, x) for x in ("send_count", "send_offset", "recv_count", "recv_offset")]
    q, r = fresh_int("q"), fresh_int("r")
    inr = lambda x: land(le(0, x), lt(x, P))
    a = fresh_int("a"); scb, sdb = t(sc(a)), t(sd(a))
    sent = lambda q: z3.substitute(w.on(scb, q), (a, me))          # what rank q sends to this one
    sfrom = lambda q: z3.substitute(w.on(sdb, q), (a, me))
    hint = getattr(ctx, "alltoallv_hints", lambda q: [])
    def req(goal, name, vs, pats=()):
        ctx.prove(goal, "my_alltoallv: " + name, hints=[h for v in vs for h in hint(v)]); ctx.fact(goal, vs, pats)
    tr = lambda *e: [z3.MultiPattern(*e)] if all(usable_trigger(x, []) for x in e) else []
    req(implies(inr(q), ge(sc(q), 0)), "send counts are not negative", [q], tr(sc(q)))
    req(implies(inr(q), lor(eq(sc(q), 0), land(ge(sd(q), 0), le(add(sd(q), sc(q)), S.shape[0])))), "segments to send lie inside the buffer", [q], tr(sd(q)))
    req(implies(inr(q), eq(rc(q), sent(q))), "as many elements are received as are sent", [q], tr(rc(q)))
    req(implies(inr(q), land(ge(rd(q), 0), le(add(rd(q), rc(q)), R.shape[0]))), "segments to receive lie inside the buffer", [q], tr(rd(q)))
    def separate(q, r): return implies(land(inr(q), inr(r), lt(q, r)), lor(eq(rc(q), 0), eq(rc(r), 0), le(add(rd(q), rc(q)), rd(r)), le(add(rd(r), rc(r)), rd(q))))
    pair = getattr(ctx, "alltoallv_pair_hints", None)
    if pair is not None: ctx.prove(separate(q, r), "my_alltoallv: segments to receive do not overlap", hints=hint(q) + hint(r) + pair(q, r)); ctx.fact(separate(q, r), [q, r], tr(rd(q), rd(r)))
    else: req(separate(q, r), "segments to receive do not overlap", [q, r], tr(rd(q), rd(r)))
    own, hit = ctx.fresh_fn("from", 1), ctx.fresh_fn("received", 1, Bool)
    p = fresh_int("p")
    fromseg = lambda p: implies(hit(p), land(inr(own(p)), le(rd(own(p)), p), lt(p, add(rd(own(p)), rc(own(p))))))
    uniq = lambda p, q: implies(land(inr(q), le(rd(q), p), lt(p, add(rd(q), rc(q)))), land(hit(p), eq(own(p), q)))
    ctx.fact(fromseg(p), [p], [hit(p)])
    ctx.fact(uniq(p, q), [p, q], tr(hit(p), rd(q)))
    # receive buffer filled in rank order: partition lemma
    total = ctx.psum(lambda x: rc(x), P, P)
    cover = lambda p: True
    Sq = lambda k: ctx.psum(lambda x: rc(x), k, P)
    if ctx.ground_proves(implies(inr(q), eq(rd(q), Sq(q)))) or ctx.quick(implies(inr(q), eq(rd(q), Sq(q))), 300000):
        ctx.prove(implies(inr(q), eq(rd(q), Sq(q))), "my_alltoallv: receive offsets are partial sums of the counts")
        ctx.used.add("lemma: partial sums partition [0,total)")
        cover = lambda p: implies(land(le(0, p), lt(p, total)), hit(p))
        ctx.fact(cover(p), [p], [hit(p)])
    fz = S.freeze(); ph = [fresh_int("a") for _ in S.shape]
    body = t(fz(*ph))
    at = lambda qq, *i: z3.substitute(w.on(body, qq), *[(x, t(y)) for x, y in zip(ph, i)])
    val = lambda p, *i: at(own(p), add(sfrom(own(p)), sub(p, rd(own(p)))), *i)
    npm.update(R, lambda *i: hit(i[0]), cached(val))
    info = dict(own=own, hit=hit, sc=sc, sd=sd, rc=rc, rd=rd, sent=sent, sfrom=sfrom, uniq=uniq, fromseg=fromseg, cover=cover, total=total, S=S, R=R, at=at)
    ctx.exchanges = getattr(ctx, "exchanges", []) + [info]


def elem(w, f, q, i, js):
    """f(i, js) on rank q"""
    ph = fresh_int("a")
    return z3.substitute(w.on(t(f(ph, *js)), q), (ph, t(i)))


def elem1(w, f, q, x):
    """f(x) on rank q, for x of this rank"""
    ph = fresh_int("a")
    return z3.substitute(w.on(t(f(ph)), q), (ph, t(x)))
