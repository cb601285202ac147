"""
Contracts of the MPI operations.  The program is the same on all ranks: every
term is a function of the rank constant `me`, and the value on rank q is the
term with me replaced by q.
"""
import z3, numpy as np
from terms import *
from arr import *
from interp import *
from npmodel import *


class World:
    """Ranks of a communicator"""
    def __init__(self, ctx, name="world"):
        self.ctx = ctx
        self.me, self.P = z3.Int("me"), z3.Int("P")
        ctx.globals.add(self.P.get_id())
        ctx.facts.append(self.P >= 1)
        self.rng = z3.And(0 <= self.me, self.me < self.P)
        ctx.binders.insert(0, (self.me, self.rng))
        ctx.world = self

    def on(self, x, q):
        """Value of a term on rank q"""
        return subst(x, (self.me, t(q)))

    def uniform(self, c):
        if not contains(c, self.me): return True
        q = fresh_int("q")
        return self.ctx.quick(z3.Implies(z3.And(0 <= q, q < self.P), t(c) == self.on(t(c), q)), 200000)


class Op:
    def __init__(self, name): self.name = name
    def __repr__(self): return "MPI." + self.name
    def vattr(self, I, name):
        if name == "Reduce_local":
            def run(I, a, k):
                h = getattr(I.ctx, "reduce_local", None)
                if h is None: raise Unsupported("Reduce_local")
                return h(self, a, k)
            return Builtin("Reduce_local", run)
        raise Unsupported("MPI.Op.%s" % name)


OPS = {n: Op(n) for n in ("SUM", "MAX", "MIN", "LOR", "LAND", "PROD")}


class Comm:
    """A communicator whose ranks are those of the world the terms are written for"""
    def __init__(self, I, world):
        self.I, self.w, self.ctx = I, world, I.ctx
        self.name = "comm"

    def __repr__(self): return "<communicator>"
    def vtruth(self, I): return True

    def vattr(self, I, name):
        m = getattr(self, "c_" + name, None)
        if m is None: raise Unsupported("communicator method %s" % name)
        if name in ("rank", "size"): return m()
        return Builtin("Comm." + name, lambda I_, a, k: m(*[I.resolve(x) for x in a], **{x: I.resolve(y) for x, y in k.items()}))

    # --- who takes part
    def collective(self, name):
        ctx = self.ctx
        ctx.used.add("MPI " + name)
        if ctx.guards:
            g = [x for x in ctx.guards if is_sym(x)]
            if g: ctx.prove(False, "collective operation %s is reached by all ranks or none" % name)
        for b, r in ctx.binders:
            if b.eq(self.w.me): continue
            # inside a loop: the number of iterations must be the same on all ranks
            if contains(r, self.w.me):
                q = fresh_int("q")
                ctx.prove(z3.Implies(z3.And(0 <= q, q < self.w.P), self.w.on(r, q)), "collective operation %s is in a loop with the same number of iterations on all ranks" % name)
        ctx.ncollective = getattr(ctx, "ncollective", 0) + 1

    def c_Get_rank(self): return self.w.me
    def c_Get_size(self): return self.w.P
    def c_rank(self): return self.w.me
    def c_size(self): return self.w.P
    def c_Barrier(self): self.collective("Barrier")
    c_barrier = c_Barrier
    def c_Free(self): return None
    def c_Abort(self, code=1): self.I.do_raise(PyRaise(SystemExit, ("MPI_Abort",)))

    # --- lower case: Python objects
    def c_allgather(self, x):
        self.collective("allgather")
        return self.gathered(x)

    def gathered(self, x):
        w, npm = self.w, self.I.np
        if isinstance(x, SArr) and x.ndim == 0: x = x.get()
        if isinstance(x, (SArr, np.ndarray)): return RankList(self, x)
        if isinstance(x, (tuple, list)): return SymIter(w.P, lambda k: type(x)(self.other(y, k) for y in x))
        if isinstance(x, (Choice, type(None), SDtype, str, np.dtype)): return RankList(self, x)
        body = t(x)
        return npm.list_from(w.P, lambda q: w.on(body, q), body.sort())

    def other(self, x, q):
        """The value x has on rank q"""
        w = self.w
        if is_sym(x): return w.on(x, q)
        if isinstance(x, SArr):
            return other_array(self, x, q)
        if isinstance(x, (tuple, list)): return type(x)(self.other(y, q) for y in x)
        if isinstance(x, Choice): return self.I.merge(w.on(x.c, q), self.other(x.a, q), self.other(x.b, q))
        if isinstance(x, SDtype) and getattr(x, "term", None) is not None:
            return SDtypeAt(x, w.on(x.term, q))
        if isinstance(x, SDtype) or conc(x): return x
        raise Unsupported("value of %r on another rank" % (x,))

    def reduction(self, op, value, name):
        """value: function of rank"""
        w, ctx = self.w, self.ctx
        opn = op.name if isinstance(op, Op) else None
        if opn == "SUM": return ctx.psum(lambda q: value(q), w.P, w.P)
        if opn in ("MAX", "MIN"):
            q = fresh_int("q")
            v = value(q)
            # the same on all ranks
            bs = ctx.binders; ctx.binders = [b for b in bs if not b[0].eq(w.me)]
            try:
                m = ctx.fresh("all" + opn.lower(), t(v).sort()); who = ctx.fresh("argall" + opn.lower())
                ctx.fact(land(le(0, who), lt(who, w.P), eq(m, value(who))))
                ctx.fact(implies(land(le(0, q), lt(q, w.P)), (ge if opn == "MAX" else le)(m, v)), [q])
            finally: ctx.binders = bs
            return m
        if opn in ("LOR", "LAND"):
            q = fresh_int("q"); v = self.I.truth(value(q))
            if opn == "LAND": return forall([q], implies(land(le(0, q), lt(q, w.P)), v))
            return lnot(forall([q], implies(land(le(0, q), lt(q, w.P)), lnot(v))))
        raise Unsupported("reduction %s" % op)

    def c_allreduce(self, x, op=None):
        self.collective("allreduce")
        op = op or OPS["SUM"]
        if isinstance(x, (SArr, np.ndarray)):
            a = self.I.np.as_array(x)
            if a.ndim: raise Unsupported("allreduce of an array object")
            x = a.get()
        if op.name in ("LOR", "LAND"): x = self.I.truth(x)
        if isinstance(x, Opaque): raise Unsupported("allreduce of %r" % x)
        b = t(x) if not isinstance(x, (bool, np.bool_)) else t(x)
        if b.sort() == Bool and op.name in ("SUM", "MAX", "MIN"):
            b = t(b, Int)
        return self.reduction(op, lambda q: self.w.on(b, q), "allreduce")

    def c_scan(self, x, op=None):
        self.collective("scan")
        if op is not None and op.name != "SUM": raise Unsupported("scan")
        b = t(self.I.np.scalar(x))
        f = lambda q: self.w.on(b, q)
        # sum over ranks up to and including this one
        return add(self.ctx.psum(f, self.w.me, self.w.P), b)
    def c_exscan(self, x, op=None):
        self.collective("exscan")
        b = t(self.I.np.scalar(x))
        s = self.ctx.psum(lambda q: self.w.on(b, q), self.w.me, self.w.P)
        return Choice(self.w.me > 0, s, None)

    def c_bcast(self, x, root=0):
        self.collective("bcast")
        return self.other(x, root) if not conc(x) or isinstance(x, (SArr, Choice)) else x

    def c_gather(self, x, root=0):
        self.collective("gather")
        g = self.gathered(x)
        c = eq(self.w.me, root)
        return self.I.merge(c, g, None)

    def c_Split(self, colour=0, key=0):
        self.collective("Split")
        h = getattr(self.ctx, "split", None)
        if h is None: raise Unsupported("Split")
        return h(self, colour, key)

    def c_Get_parent(self): raise Unsupported("Get_parent")

    # --- exchange between pairs of ranks
    def position(self):
        """Condition for this rank to get to this point, in this iteration of the loops it is in"""
        rs = [r for b, r in self.ctx.binders if not b.eq(self.w.me)]
        return land(*(rs + list(self.ctx.guards)))

    def pairwise(self, dest, source, name):
        """
        This rank exchanges with dest at this point.  The other rank gets to the same point in the same iterations, with this rank as its partner.
        Ranks pass their points in the same order, so the one which is furthest behind always finds its partner there: no deadlock, and messages between
        two ranks are received in the order they were sent.
        """
        w, ctx = self.w, self.ctx
        ctx.used.add("MPI " + name)
        same = conc(dest) and conc(source) and dest == source or is_sym(dest) and is_sym(source) and dest.eq(source) or ctx.decide(eq(dest, source))
        if not same: raise Unsupported("exchange with two different ranks")
        d = dest
        hints = getattr(ctx, "exchange_hints", lambda d: [])(d)
        ctx.require(land(le(0, d), lt(d, w.P)), "%s: the partner is a rank" % name, hints)
        ctx.require(eq(w.on(t(d), d), w.me), "%s: the partner of the partner is this rank" % name, hints)
        ctx.require(w.on(t(self.position()), d), "%s: the partner gets to this point in the same iteration" % name, hints)
        return d, hints

    def c_Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=None, recvtag=-1, status=None):
        w, ctx, npm = self.w, self.ctx, self.I.np
        if not (conc(sendtag) and conc(recvtag)) or recvtag not in (-1, sendtag) or source is None: raise Unsupported("Sendrecv with these tags")
        d, hints = self.pairwise(dest, source, "Sendrecv")
        S, R = [self.segment(x) for x in (sendbuf, recvbuf)]
        self.same_kind(S, R)
        for a in (S, R): ctx.require(a.contig if is_sym(a.contig) else bool(a.contig), "Sendrecv: buffer is contiguous")
        m = w.on(t(S.shape[0]), d)
        ctx.require(eq(R.shape[0], m), "Sendrecv: as many elements are received as are sent", hints)
        fz = S.freeze(); a = fresh_int("a"); body = t(fz(a))
        npm.update(R, lambda i: True, cached(lambda i: z3.substitute(w.on(body, d), (a, t(i)))))

    def c_Irecv(self, buf, source=None, tag=0): return self.post("receive", buf, source, tag)
    def c_Isend(self, buf, dest=None, tag=0): return self.post("send", buf, dest, tag)

    def post(self, kind, buf, peer, tag):
        """Start a send or a receive; what is received has to be what the contract expects, proved when the requests are waited for"""
        ctx, npm, w = self.ctx, self.I.np, self.w
        ctx.used.add("MPI I" + kind)
        if not conc(tag) or peer is None: raise Unsupported("message with this tag")
        a = self.segment(buf)
        ctx.require(a.contig if is_sym(a.contig) else bool(a.contig), "I%s: buffer is contiguous" % kind)
        ctx.require(land(le(0, peer), lt(peer, w.P)), "I%s: the other side is a rank" % kind, getattr(ctx, "exchange_hints", lambda d: [])(peer))
        r = Request(); r.kind, r.peer, r.tag, r.array, r.n = kind, t(peer), tag, a, t(a.shape[0])
        r.binders = [b for b in ctx.binders if not b[0].eq(w.me)]; r.guard = land(*[x for x in ctx.guards]); r.where = ctx.where
        r.start = a.imap(t(0)) if a.imap is not None else 0
        if isinstance(r.start, tuple): r.start = r.start[0]
        if kind == "receive":
            e = getattr(ctx, "expected", None)
            if e is None: raise Unsupported("receive without a contract for what arrives")
            r.expected = e(r)
            npm.update(a, lambda i: True, cached(lambda i: r.expected(t(i))))
            r.before = None
        else:
            r.cell, r.before = a.cell, a.cell.fn
            r.content = a.freeze()
        return r

    def waitall(self, reqs):
        """The k-th receive from a rank gets the k-th message it sends to this one: matched iteration by iteration"""
        ctx, w = self.ctx, self.w
        if not isinstance(reqs, list): raise Unsupported("Waitall of %r" % (reqs,))
        flat = []
        def walk(x):
            for y in x:
                if isinstance(y, RequestGroup): walk(y.items)
                elif isinstance(y, Request): flat.append(y)
                else: raise Unsupported("Waitall of %r" % (y,))
        walk(reqs)
        sends, recvs = [x for x in flat if x.kind == "send"], [x for x in flat if x.kind == "receive"]
        if len(sends) != 1 or len(recvs) != 1: raise Unsupported("Waitall of %d sends and %d receives" % (len(sends), len(recvs)))
        s, r = sends[0], recvs[0]
        if s.tag != r.tag or len(s.binders) != len(r.binders) or not s.binders: raise Unsupported("messages which are not matched")
        if s.cell.fn is not s.before and not getattr(s.cell, "unchanged", False): ctx.require(False, "the send buffer is not changed before the messages are sent")
        ctx.used.add("MPI Waitall")
        # messages between two ranks: posted in the order of the inner loops, for one iteration of the outer loop
        for x in (s, r): self.over(x, x.peer == x.binders[0][0], "Waitall: the outer loop is over the ranks (%s)" % x.kind)
        def other(x, y, i=None):
            """Terms of y on the other side of x: rank x.peer, outer loop at this rank, the same inner iterations"""
            sub = [(y.binders[0][0], w.me)] + [(b[0], c[0]) for b, c in zip(y.binders[1:], x.binders[1:])]
            tmp = [(b, fresh_int("b")) for b, _ in sub]
            def at(e):
                e = z3.substitute(t(e), *tmp)
                e = w.on(e, x.peer)
                return z3.substitute(e, *[(tv, v) for (b, tv), (_, v) in zip(tmp, sub)])
            return at
        hints = lambda x: getattr(ctx, "exchange_hints", lambda d: [])(x.peer)
        for x, y, what in ((r, s, "every message received is sent"), (s, r, "every message sent is received")):
            at = other(x, y)
            here = land(*([b[1] for b in y.binders] + [y.guard]))
            self.over(x, t(at(here)), "Waitall: " + what, hints(x))
            self.over(x, t(eq(at(y.n), x.n)), "Waitall: %s: the length is the same" % what, hints(x))
        i = fresh_int("i")
        at = other(r, s)
        self.over(r, t(implies(land(le(0, i), lt(i, r.n)), eq(at(s.content(i)), r.expected(i)))), "Waitall: what is received is what the contract says", hints(r))
        # two receives never write to the same place
        two = [(b, fresh_int("c")) for b, _ in r.binders]
        f2 = lambda e: z3.substitute(t(e), *two)
        rng2 = f2(land(*([b[1] for b in r.binders] + [r.guard])))
        differ = z3.Or(*[b != c for b, c in two])
        self.over(r, t(implies(land(rng2, differ), lor(eq(r.n, 0), eq(f2(r.n), 0), le(add(r.start, r.n), f2(r.start)), le(add(f2(r.start), f2(r.n)), r.start)))), "Waitall: receives do not overlap",
                  hints(r) + [f2(h) for h in hints(r) if is_sym(h)] + list(getattr(ctx, "overlap_hints", lambda b, c: [])([b for b, _ in two], [c for _, c in two])))

    def over(self, x, goal, name, hints=()):
        """Prove for all iterations in which x is executed"""
        ctx = self.ctx
        ctx.binders += x.binders; gs = ctx.guards; ctx.guards = [g for g in gs] + ([x.guard] if is_sym(x.guard) else [])
        try: ctx.require(goal, name, hints)
        finally:
            del ctx.binders[len(ctx.binders) - len(x.binders):]; ctx.guards = gs

    def segment(self, spec):
        """One-dimensional buffer, possibly with its MPI type"""
        I = self.I; spec = I.resolve(spec)
        ty = None
        if isinstance(spec, (list, tuple)):
            items = [I.resolve(x) for x in spec]
            if len(items) != 2 or not isinstance(items[1], MPIType): raise Unsupported("communication buffer")
            spec, ty = items
        a = I.np.as_array(spec)
        if a.ndim != 1: raise Unsupported("buffer of dimension %d" % a.ndim)
        if ty is not None and ty.dtype is not a.dtype and ty.dtype != a.dtype: self.ctx.require(False, "the MPI type is the one of the buffer")
        return a

    def c_sendrecv(self, obj, dest, sendtag=0, recvbuf=None, source=None, recvtag=-1, status=None):
        d, hints = self.pairwise(dest, source, "sendrecv")
        return self.other(obj, d)

    # --- upper case: buffers
    def buf(self, spec):
        """Array, as (array, count or None, displacements or None)"""
        I = self.I
        spec = I.resolve(spec)
        if isinstance(spec, Choice):
            # one element, from a scalar or an array of no dimensions
            a, b = [I.resolve(x) for x in (spec.a, spec.b)]
            zero = lambda x: (is_num(x) or is_sym(x) or isinstance(x, (SArr, np.ndarray)) and x.ndim == 0)
            if not (zero(a) and zero(b)): raise Unsupported("buffer which differs in kind between ranks")
            dts = [x.dtype for x in (a, b) if isinstance(x, (SArr, np.ndarray))]
            xa, xb = I.np.as_array(a), I.np.as_array(b)
            so = sort_of(dts[0]) if dts else xa.sort
            val = ite(spec.c, t(xa.get(), so), t(xb.get(), so))
            spec = SArr(lambda: val, [], dts[0] if dts else xa.dtype)
        if isinstance(spec, (list, tuple)):
            items = [I.resolve(x) for x in spec]
            a = items[0]; counts = None
            for x in items[1:]:
                if isinstance(x, (tuple, list)): counts = tuple(I.resolve(y) for y in x)
            return a, counts
        return spec, None

    def same_length(self, a, b, what):
        if not (conc(a) and conc(b) and a == b):
            self.ctx.require(eq(a, b), what)

    def c_Allreduce(self, send, recv, op=None):
        self.collective("Allreduce")
        op = op or OPS["SUM"]
        npm, w = self.I.np, self.w
        (s, _), (r, _) = self.buf(send), self.buf(recv)
        s = npm.as_array(s)
        if not isinstance(r, SArr): raise Unsupported("Allreduce buffer")
        q = fresh_int("q")
        for d, e in zip(s.shape, r.shape): self.same_length(d, e, "Allreduce buffers have equal lengths")
        for d in s.shape:
            if is_sym(d) and contains(d, w.me): self.ctx.require(z3.Implies(z3.And(0 <= q, q < w.P), d == w.on(d, q)), "Allreduce buffers have the same length on all ranks")
        self.same_kind(s, r)
        fz = s.freeze(); ph = [fresh_int("a") for _ in s.shape]
        body = t(fz(*ph)) 
        def val(*i): return self.reduction(op, lambda q: z3.substitute(w.on(body, q), *[(p, t(x)) for p, x in zip(ph, i)]), "Allreduce")
        if op.name != "SUM": raise Unsupported("Allreduce of arrays with %s" % op)
        npm.update(r, lambda *i: True, cached(val))

    def same_kind(self, s, r):
        if s.sort != r.sort: self.ctx.require(False, "send and receive buffers have the same element type")
        elif s.dtype != r.dtype:
            if isinstance(s.dtype, SDtype) or isinstance(r.dtype, SDtype): self.ctx.require(False, "send and receive buffers have the same element type")
            elif s.dtype.itemsize != r.dtype.itemsize: self.ctx.require(False, "send and receive buffers have elements of the same size")

    def c_Alltoall(self, send, recv):
        """recv(me)[q] = send(q)[me]"""
        self.collective("Alltoall")
        npm, w = self.I.np, self.w
        (s, _), (r, _) = self.buf(send), self.buf(recv)
        s = npm.as_array(s)
        if s.ndim != 1 or r.ndim != 1: raise Unsupported("Alltoall of multi-dimensional arrays")
        self.same_length(s.shape[0], w.P, "Alltoall: one element for each rank to send")
        self.same_length(r.shape[0], w.P, "Alltoall: one element for each rank to receive")
        self.same_kind(s, r)
        fz = s.freeze(); a = fresh_int("a"); body = t(fz(a))
        npm.update(r, lambda i: True, cached(lambda i: z3.substitute(w.on(body, i), (a, w.me))))

    def c_Allgather(self, send, recv):
        self.collective("Allgather")
        npm, w = self.I.np, self.w
        (s, _), (r, _) = self.buf(send), self.buf(recv)
        s = npm.as_array(s)
        if not isinstance(r, SArr): raise Unsupported("Allgather buffer")
        if s.ndim == 0 and isinstance(r.dtype, SDtype): self.ctx.require(s.sort == r.sort, "send and receive buffers have the same element type")    # a numpy scalar has the type of its array
        else: self.same_kind(s, r)
        if s.ndim == 0 or s.ndim == 1 and self.ctx.decide(eq(s.shape[0], 1)) and r.ndim == 1:
            body = t(s.get() if s.ndim == 0 else s.get(0))
            self.same_length(r.shape[0], w.P, "Allgather: room for one element from each rank")
            npm.update(r, lambda i: True, lambda i: w.on(body, i)); return
        if s.ndim == 1:
            fz = s.freeze(); a = fresh_int("a"); body = t(fz(a)); n = s.shape[0]
            q = fresh_int("q")
            if is_sym(n) and contains(n, w.me): self.ctx.require(z3.Implies(z3.And(0 <= q, q < w.P), n == w.on(n, q)), "Allgather buffers have the same length on all ranks")
            if r.ndim == 2:
                self.same_length(r.shape[0], w.P, "Allgather: one row from each rank"); self.same_length(r.shape[1], n, "Allgather: row length")
                npm.update(r, lambda i, j: True, lambda i, j: z3.substitute(w.on(body, i), (a, t(j)))); return
            if r.ndim == 1:
                self.same_length(r.shape[0], mul(w.P, n), "Allgather: room for all elements")
                base = SArr(lambda i, j: z3.substitute(w.on(body, i), (a, t(j))), [w.P, n], r.dtype, name="gathered")
                # the flat contents are only used as rows
                un = self.ctx.fresh_fn("gathered", 1, r.sort)
                npm.update(r, lambda i: True, lambda i: un(t(i))); r.flat_rows = (n, base); return
        raise Unsupported("Allgather of these buffers")

    def gatherv(self, send, recvspec, name):
        """Contents and checks of a gather with counts and displacements"""
        npm, w, ctx, I = self.I.np, self.w, self.ctx, self.I
        (s, sc) = self.buf(send)
        s = npm.as_array(s)
        return s

    def rows(self, a):
        """An array communicated as rows: (rows, width)"""
        return a, prod(a.shape[1:])

    def c_Allgatherv(self, send, recv):
        self.collective("Allgatherv")
        self.vgather(send, recv, None)
    def c_Gatherv(self, send, recv, root=0):
        self.collective("Gatherv")
        self.vgather(send, recv, root)

    def vgather(self, send, recv, root):
        name_ = "Allgatherv" if root is None else "Gatherv"
        npm, w, ctx, I = self.I.np, self.w, self.ctx, self.I
        s, _ = self.buf(send)
        s = npm.as_array(s)
        ctx.require(s.contig if is_sym(s.contig) else bool(s.contig), "buffer sent is contiguous")
        recv = I.resolve(recv)
        at_root = True if root is None else eq(w.me, root)
        ctx.guards.append(at_root) if is_sym(at_root) else None
        try:
            out = I.resolve(recv[0]); spec = I.resolve(recv[1]) if len(recv) > 1 else None
            if isinstance(out, Choice) and (out.a is None or out.b is None):
                ctx.require(lnot(out.c) if out.a is None else out.c, "there is a receive buffer on the root")
                out = out.b if out.a is None else out.a
            if not isinstance(out, SArr): raise Unsupported("no receive buffer on the root")
            if spec is None: raise Unsupported("gather without counts")
            counts, displ = [npm.as_array(I.resolve(x)) for x in (spec if isinstance(spec, (tuple, list)) else (spec, None))]
            W = prod(s.shape[1:])
            def rowsof(c):
                if conc(W) and W == 1: return c.freeze()
                if c.scaled is not None and (ctx.decide(eq(c.scaled[0], W))): return c.scaled[1].freeze()
                raise Unsupported("counts which are not multiples of the row length")
            fc, fd = rowsof(counts), rowsof(displ)
            q, q2 = fresh_int("q"), fresh_int("q2")
            fc, fd = ctx.named(fc, 1, "counts"), ctx.named(fd, 1, "displs")
            inr = lambda x: land(le(0, x), lt(x, w.P))
            rows = lambda q: w.on(t(s.shape[0]), q)
            self.same_kind(s, out)
            if out.ndim != s.ndim: raise Unsupported("receive buffer of another dimension")
            for d, e in zip(s.shape[1:], out.shape[1:]): self.same_length(d, e, "row shape of the receive buffer")
            self.same_length(counts.shape[0], w.P, "one count for each rank"); self.same_length(displ.shape[0], w.P, "one displacement for each rank")
            hint = lambda k: [ctx.step(rows, k, w.P), ctx.nonneg(rows, k, w.P), ge(rows(k), 0)] if is_sym(rows(k)) else []
            base = lambda k: [implies(inr(k), ge(rows(k), 0)), ctx.step(rows, k, w.P), ctx.nonneg(rows, k, w.P)]
            tr = lambda *e: [z3.MultiPattern(*e)] if all(usable_trigger(x, []) for x in e) else []
            def req(goal, name, vs, pats=(), hints=()):
                ctx.prove(goal, "%s: %s" % (name_, name), hints=list(hints)); ctx.fact(goal, vs, pats)
            req(implies(inr(q), eq(fc(q), rows(q))), "the count for each rank is the number of rows it sends", [q], tr(fc(q)), base(q))
            total = ctx.psum(rows, w.P, w.P); S = lambda k: ctx.psum(rows, k, w.P)
            contiguous = ctx.ground_proves(implies(inr(q), eq(fd(q), S(q))), base(q)) or ctx.quick(implies(inr(q), eq(fd(q), S(q))), 300000)
            if contiguous:
                req(implies(inr(q), eq(fd(q), S(q))), "the displacements are partial sums of the counts", [q], tr(fd(q)), base(q))
            req(implies(inr(q), land(le(0, fd(q)), le(add(fd(q), fc(q)), out.shape[0]))), "segments lie inside the receive buffer", [q], tr(fd(q)), base(q))
            req(implies(land(inr(q), inr(q2), lt(q, q2)), lor(eq(fc(q), 0), eq(fc(q2), 0), le(add(fd(q), fc(q)), fd(q2)), le(add(fd(q2), fc(q2)), fd(q)))), "segments of the receive buffer do not overlap", [q, q2],
                tr(fd(q), fd(q2)), base(q) + base(q2) + ([ctx.mono(rows, q, q2, w.P), ctx.mono(rows, q2, q, w.P)] if contiguous else []))
            ctx.require(out.contig if is_sym(out.contig) else bool(out.contig), "receive buffer is contiguous")
            own = ctx.fresh_fn("owner", 1); hit = ctx.fresh_fn("hit", 1, Bool)
            p = fresh_int("p")
            ctx.fact(implies(hit(p), land(inr(own(p)), le(fd(own(p)), p), lt(p, add(fd(own(p)), fc(own(p)))))), [p], [hit(p)])
            ctx.fact(implies(land(inr(q), le(fd(q), p), lt(p, add(fd(q), fc(q)))), land(hit(p), eq(own(p), q))), [p, q], tr(hit(p), fd(q)))
            fz = s.freeze(); ph = [fresh_int("a") for _ in s.shape]
            body = t(fz(*ph))
            at = lambda qq, *i: z3.substitute(w.on(body, qq), *[(x, t(y)) for x, y in zip(ph, i)])
            npm.update(out, lambda *i: hit(i[0]), cached(lambda *i: at(own(i[0]), sub(i[0], fd(own(i[0]))), *i[1:])))
            cover = lambda p: True
            if contiguous:
                ctx.used.add("lemma: partial sums partition [0,total)")
                cover = lambda p: implies(land(le(0, p), lt(p, total)), hit(p))
                ctx.fact(cover(p), [p], [hit(p)])
            uniq = lambda p, q: implies(land(inr(q), le(fd(q), p), lt(p, add(fd(q), fc(q)))), land(hit(p), eq(own(p), q)))
            ctx.gathers = getattr(ctx, "gathers", []) + [dict(own=own, hit=hit, fd=fd, fc=fc, uniq=uniq, cover=cover, rows=rows, total=total, base=base, at=at, out=out, s=s)]
        finally:
            if is_sym(at_root): ctx.guards.pop()


class Request:
    """A message which is being sent or received, in each iteration of the loops it is posted in"""
    def vattr(self, I, name): raise Unsupported("MPI.Request.%s" % name)


class RequestGroup:
    """The requests of all iterations of a loop"""
    def __init__(self, items): self.items = items


class MPIType:
    """MPI type made from a numpy type"""
    def __init__(self, dtype): self.dtype = dtype
    def vattr(self, I, name):
        if name in ("Commit", "Free"): return Builtin(name, lambda I_, a, k: None)
        raise Unsupported("MPI.Datatype.%s" % name)
    def __repr__(self): return "<MPI type of %s>" % (self.dtype,)


def other_array(comm, x, q):
    w = comm.w
    fz = x.freeze(); ph = [fresh_int("a") for _ in x.shape]
    body = t(fz(*ph))
    r = SArr(lambda *i: z3.substitute(w.on(body, q), *[(p, t(y)) for p, y in zip(ph, i)]), [w.on(d, q) if is_sym(d) else d for d in x.shape], x.dtype, name=x.cell.name)
    r.pylist = x.pylist
    return r


class RankList(SymVal):
    """List of objects gathered from the ranks"""
    def __init__(self, comm, x): self.comm, self.x = comm, x
    def at(self, q): return self.comm.other(self.x, q)
    def getitem(self, I, k):
        if isinstance(k, slice): raise Unsupported("slice of gathered objects")
        kk = I.np.norm_index(k, self.comm.w.P)
        return self.at(kk)
    def vlen(self, I): return self.comm.w.P
    def truth(self, I): return True


class SDtypeAt(SDtype):
    def __init__(self, d, term):
        SDtype.__init__(self, d.name, d.sort, d.kind, d.isnative, d.byteorder, d.itemsize); self.term = term


def mpi_module(I, world):
    comm = Comm(I, world)
    mpi = Namespace("mpi4py.MPI", COMM_WORLD=comm, Request=Namespace("Request", Waitall=Builtin("Waitall", lambda I_, a, k: comm.waitall(I.resolve(a[0])))), **OPS)
    return comm, Namespace("mpi4py", MPI=mpi), mpi
