"""C21: masses and main progenitors of virgo.database.index_trees (depth_first_index: bounded only)"""
from verify import *
from loops import LoopSpec, All

MOD = "virgo.database.index_trees"
I8, F8 = np.dtype(np.int64), np.dtype(np.float64)


def match_handler(I, L):
    """Contract of virgo.util.match.match at a call (verified under C14)"""
    ctx, npm = I.ctx, I.np
    a, b = npm.as_array(I.resolve(L["arr1"])), npm.as_array(I.resolve(L["arr2"]))
    ctx.require(z3.BoolVal(a.ndim == 1 and b.ndim == 1), "match: one-dimensional arrays")
    fa, fb, n, m = a.freeze(), b.freeze(), a.shape[0], b.shape[0]
    ptr = ctx.fresh_fn("ptr", 1); i, j = fresh_int("i"), fresh_int("j")
    found = lambda i: implies(land(le(0, i), lt(i, n)), land(le(-1, ptr(i)), lt(ptr(i), m), implies(ge(ptr(i), 0), eq(fb(ptr(i)), fa(i)))))
    exists_ = lambda i, j: implies(land(le(0, i), lt(i, n), le(0, j), lt(j, m), eq(fb(j), fa(i))), ge(ptr(i), 0))
    ctx.fact(found(i), [i], [ptr(i)]); ctx.fact(exists_(i, j), [i, j], [z3.MultiPattern(ptr(i), t(fb(j)))])
    ctx.used.add("contract of match (verified under C14)")
    ctx.g.matched(ptr, found, exists_)
    return SArr(lambda x: ptr(x), [n], I8, name="match")


class Sums:
    """Sum over k < m of f(i, k), as one function of i and m"""
    def __init__(self, ctx, f, n):
        self.i, self.k, self.m = fresh_int("i"), fresh_int("k"), fresh_int("m")
        self.f = t(f(self.i, self.k), Real); one = lambda k: subst(self.f, (self.k, t(k)))
        self.S = ctx.psum(one, self.m, n); self.st = ctx.step(one, self.m, n)
    def __call__(self, i, m): return subst(self.S, (self.i, t(i)), (self.m, t(m)))
    def step(self, i, m): return subst(self.st, (self.i, t(i)), (self.m, t(m)))


class Forest:
    """Unique nodes; the descendant of a node, if it is in the set, is at a later snapshot"""
    def __init__(self, v, ties=False):
        self.v, self.ctx = v, v.ctx; ctx = self.ctx; ctx.g = self
        self.n = n = v.int("n", lo=0)
        self.node, self.desc, self.snap = [v.array(x, [n], I8) for x in ("nodeIndex", "descendantIndex", "snapnum")]
        self.mass = v.array("mass", [n], F8)
        self.arrays = [(x, x.cell.fn) for x in (self.node, self.desc, self.snap, self.mass)]
        N, D, S, self.m = [f for _, f in self.arrays]
        i, j = v.fresh("i"), v.fresh("j")
        self.inr = inr = lambda x: land(le(0, x), lt(x, n))
        self.unique = lambda i, j: implies(land(inr(i), inr(j), eq(N(i), N(j))), eq(i, j))
        # d(i): position of the descendant of node i, -1 if there is none
        self.d = d = ctx.fresh_fn("descendant", 1)
        self.dspec = lambda i: implies(inr(i), land(le(-1, d(i)), lt(d(i), n), implies(ge(d(i), 0), land(eq(N(d(i)), D(i)), lt(S(i), S(d(i)))))))
        self.dall = lambda i, j: implies(land(inr(i), inr(j), eq(N(j), D(i))), ge(d(i), 0))
        v.assume(self.unique(i, j), [i, j], [z3.MultiPattern(N(i), N(j))])
        v.assume(self.dspec(i), [i], [d(i)]); v.assume(self.dall(i, j), [i, j], [z3.MultiPattern(N(j), D(i))])
        self.N, self.D, self.S = N, D, S

    def matched(self, ptr, found, exists_):
        ctx, n, d = self.ctx, self.n, self.d
        o = ctx.argsorts[-1]; p, q = self.p, self.q = o["p"], o["q"]
        self.o, self.ptr = o, ptr
        k = fresh_int("k"); inr = self.inr
        if self.sorted_copy:
            hs = [found(k), o["perm"](k), self.dspec(p(k)), o["perm"](ptr(k)), o["inv"](d(p(k))), exists_(k, q(d(p(k)))), self.dall(p(k), p(ptr(k))), self.unique(p(ptr(k)), d(p(k)))]
            goal = implies(inr(k), eq(ptr(k), ite(ge(d(p(k)), 0), q(d(p(k))), -1)))
        else:
            hs = [found(k), self.dspec(k), exists_(k, d(k)), self.dall(k, ptr(k)), self.unique(ptr(k), d(k))]
            goal = implies(inr(k), eq(ptr(k), d(k)))
        ctx.lemma(goal, "the descendant is the one matched", [k], [ptr(k)], hints=hs)
        self.at = lambda kk: subst(t(goal), (k, kk))
        if self.sorted_copy:
            later = implies(land(inr(k), ge(ptr(k), 0)), lt(k, ptr(k)))
            ctx.lemma(later, "descendants come later in the order of snapshots", [k], [ptr(k)],
                      hints=[found(k), self.at(k), o["perm"](k), o["perm"](ptr(k)), self.dspec(p(k)), o["order"](ptr(k), k), o["inv"](d(p(k)))])
            self.later = lambda kk: subst(t(later), (k, kk))
        self.ghosts()


# ------------------------------------------------------------------ total mass of the progenitor tree

def tree_mass(v, cfg):
    g = Forest(v); ctx, n = v.ctx, g.n; g.sorted_copy = True
    T = ctx.fresh_fn("T", 1, Real)
    Z = z3.RealVal(0)
    allp = Sums(ctx, lambda i, j: ite(eq(g.d(j), i), T(j), Z), n)
    progs = lambda i: allp(i, n)
    i = v.fresh("i")
    # definition of the mass of the progenitor tree, by recursion on the snapshot
    T_def = lambda i: implies(g.inr(i), eq(T(i), g.m(i) + progs(i)))
    def ghosts():
        p, ptr = g.p, g.ptr
        g.T, g.T_def = T, T_def
        g.part = Sums(ctx, lambda j, k: ite(eq(ptr(k), j), T(p(k)), Z), n); g.part_step = g.part.step
        # the sum over all progenitors in the order of the sorted nodes
        perm = Sums(ctx, lambda i, k: ite(eq(g.d(p(k)), i), T(p(k)), Z), n)
        a = fresh_int("a")
        ctx.used.add("lemma: a sum does not depend on the order of its terms")
        order = eq(progs(a), perm(a, n)); ctx.fact(order, [a], [progs(a)])
        j = fresh_int("j")
        same = ctx.induct("progenitors in order of snapshots", lambda m: eq(perm(g.p(j), m), g.part(j, m)), 0, n, lambda m: [g.part(j, m)], [j], g.inr(j),
                   hints=lambda m: [perm.step(g.p(j), m), g.part_step(j, m), g.at(m), g.o["perm"](j), g.o["inv"](g.d(p(m))), g.o["perm"](m), g.dspec(p(m))])
        none = ctx.induct("no progenitors after the node", lambda m: eq(g.part(j, m), g.part(j, j)), j, n, lambda m: [g.part(j, m)], [j], g.inr(j),
                   hints=lambda m: [g.part_step(j, m), g.later(m)])
        g.T_at = lambda j: [T_def(g.p(j)), subst(order, (a, t(g.p(j)))), same(n, j), none(n, j), g.o["perm"](j)]
    g.ghosts = ghosts
    v.assume(T_def(i), [i], [T(i)])
    R = v.call(MOD, "find_progenitor_tree_mass", g.node, g.desc, g.snap, g.mass)
    ctx.where = "postcondition"
    v.ensure(land(eq(len(R.shape), 1), eq(R.shape[0], n)), "one mass for each node")
    i = v.fresh("i")
    o = g.o; q = g.q(i)
    v.ensure(implies(g.inr(i), eq(R.get(i), T(i))), "the mass is that of the progenitor tree", hints=[o["inv"](i)] + g.T_at(q))
    for x, f in g.arrays: v.unchanged(x, f, "inputs not modified")


def accumulated(st):
    g = st.I.ctx.g; j = fresh_int("j"); M = st["mbranch"]
    return All([j], implies(g.inr(j), eq(M.get(j), g.m(g.p(j)) + g.part(j, st.k))), [M.get(j)], [g.part_step(j, st.k)] + g.T_at(st.k) + [g.later(st.k)])


# ------------------------------------------------------------------ mass of the main branch

class Running:
    """Largest of 0 and the values val(k) of those k < m with link(k) == j, and the first k which has it (-1: none)"""
    def __init__(self, ctx, link, val, n):
        X, W = self.X, self.W = ctx.fresh_fn("largest", 2, Real), ctx.fresh_fn("which", 2)
        j, m = fresh_int("j"), fresh_int("m")
        better = lambda j, m: land(eq(link(m), j), gt(val(m), X(j, m)))
        self.start = lambda j: land(eq(X(j, t(0)), z3.RealVal(0)), eq(W(j, t(0)), -1))
        self.step = lambda j, m: implies(ge(m, 0), land(eq(X(j, add(m, 1)), ite(better(j, m), val(m), X(j, m))), eq(W(j, add(m, 1)), ite(better(j, m), m, W(j, m)))))
        ctx.fact(self.start(j), [j], [X(j, t(0))]); ctx.fact(self.step(j, m), [j, m], [X(j, add(m, 1))])
        j, k = fresh_int("j"), fresh_int("k")
        self.some = ctx.induct("the largest value is one of them", lambda m: land(ge(X(j, m), 0), lt(W(j, m), m), ge(W(j, m), -1),
                ite(eq(W(j, m), -1), eq(X(j, m), z3.RealVal(0)), land(eq(link(W(j, m)), j), eq(val(W(j, m)), X(j, m)), gt(X(j, m), 0)))), 0, n,
                lambda m: [W(j, m)], [j], hints=lambda m: [self.start(j), self.step(j, m)])
        self.all = ctx.induct("none of them is larger", lambda m: implies(land(eq(link(k), j), lt(k, m)), le(val(k), X(j, m))), 0, n,
                lambda m: [z3.MultiPattern(X(j, m), t(link(k)))], [j, k], ge(k, 0), hints=lambda m: [self.start(j), self.step(j, m)])


def branch_mass(v, cfg):
    g = Forest(v); ctx, n = v.ctx, g.n; g.sorted_copy = True
    def ghosts():
        p, ptr = g.p, g.ptr
        # main branch mass of the sorted nodes, by recursion: own mass, plus the largest one of a progenitor
        g.B = ctx.fresh_fn("B", 1, Real)
        g.run = Running(ctx, ptr, g.B, n)
        j = fresh_int("j")
        g.B_def = lambda j: implies(g.inr(j), eq(g.B(j), g.m(p(j)) + g.run.X(j, n)))
        ctx.fact(g.B_def(j), [j], [g.B(j)])
        j = fresh_int("j")
        none = ctx.induct("no progenitors after the node", lambda m: eq(g.run.X(j, m), g.run.X(j, j)), j, n, lambda m: [g.run.X(j, m)], [j], g.inr(j), hints=lambda m: [g.run.step(j, m), g.later(m)])
        g.B_at = lambda j: [g.B_def(j), none(n, j), g.o["perm"](j)]
    g.ghosts = ghosts
    R = v.call(MOD, "find_progenitor_branch_mass_delucia", g.node, g.desc, g.snap, g.mass)
    ctx.where = "postcondition"
    v.ensure(land(eq(len(R.shape), 1), eq(R.shape[0], n)), "one mass for each node")
    i, j = v.fresh("i"), v.fresh("j"); o = g.o; q, r = g.q(i), g.q(j)
    val = implies(g.inr(i), eq(R.get(i), g.B(q)))
    v.ensure(val, "the mass is that of the main branch", hints=[o["inv"](i)] + g.B_at(q))
    ctx.fact(val, [i], [R.get(i)])
    at = lambda x: subst(t(val), (i, t(x)))
    h = [at(i), at(j), o["inv"](i), o["inv"](j), g.at(r), g.run.all(n, q, r), g.run.some(n, q), g.B_def(q), g.B_def(r), g.dspec(j), o["inv"](g.d(j))]
    v.ensure(implies(g.inr(i), ge(R.get(i), g.m(i))), "at least the mass of the node", hints=h)
    v.ensure(implies(land(g.inr(i), g.inr(j), eq(g.d(j), i)), ge(R.get(i), g.m(i) + R.get(j))), "at least the mass of the node and the main branch of each progenitor", hints=h)
    w = g.run.W(q, n); pw = g.p(w)
    h = [at(i), at(pw), o["inv"](i), o["perm"](w), g.at(w), g.run.some(n, q), g.B_def(q), g.B_def(w), g.dspec(pw), o["inv"](g.d(pw))]
    v.ensure(implies(g.inr(i), lor(eq(R.get(i), g.m(i)), land(g.inr(pw), eq(g.d(pw), i), eq(R.get(i), g.m(i) + R.get(pw))))), "the mass of the node and the main branch of one progenitor, if any", hints=h)
    for x, f in g.arrays: v.unchanged(x, f, "inputs not modified")


def branch(st):
    g = st.I.ctx.g; j = fresh_int("j"); M = st["mbranch"]; k = st.k
    return All([j], implies(g.inr(j), eq(M.get(j), g.m(g.p(j)) + g.run.X(j, k))), [M.get(j)], [g.run.step(j, k), g.run.start(j)] + g.B_at(k) + [g.later(k), g.at(k), g.o["perm"](k), g.o["inv"](g.d(g.p(k))), g.dspec(g.p(k))])


# ------------------------------------------------------------------ main progenitor

def main_progenitor(v, cfg):
    g = Forest(v); ctx, n = v.ctx, g.n; g.sorted_copy = False
    i, j = v.fresh("i"), v.fresh("j")
    pos = lambda i: implies(g.inr(i), gt(g.m(i), 0))
    v.assume(pos(i), [i], [g.m(i)])
    def ghosts():
        g.run = Running(ctx, lambda k: g.ptr(g.p(k)), lambda k: g.m(g.p(k)), n)
    g.ghosts = ghosts
    nt, R = v.call(MOD, "find_main_progenitor", g.node, g.desc, g.snap, g.mass)
    ctx.where = "postcondition"
    v.ensure(land(eq(len(R.shape), 1), eq(R.shape[0], n), eq(len(nt.shape), 1), eq(nt.shape[0], n)), "one main progenitor for each node")
    o = g.o; w = g.run.W(i, n); pw = g.p(w); r = g.q(j)
    isprog = land(g.inr(pw), eq(g.d(pw), i), eq(R.get(i), g.N(pw)))
    h = [g.run.some(n, i), g.run.all(n, i, r), o["perm"](w), g.at(pw), o["inv"](j), g.at(j), pos(j), pos(pw)]
    v.ensure(implies(land(g.inr(i), g.inr(j), eq(g.d(j), i)), isprog), "the main progenitor is a progenitor", hints=h)
    v.ensure(implies(land(g.inr(i), g.inr(j), eq(g.d(j), i)), ge(g.m(pw), g.m(j))), "it has the largest branch mass", hints=h)
    v.ensure(implies(g.inr(i), lor(eq(R.get(i), -1), isprog)), "-1 without a progenitor", hints=h)
    for x, f in g.arrays: v.unchanged(x, f, "inputs not modified")


def largest(st):
    g = st.I.ctx.g; j = fresh_int("j"); M, R, k = st["mbranch_max"], st["mainprog"], st.k
    W = g.run.W(j, k)
    return All([j], implies(g.inr(j), land(eq(M.get(j), g.run.X(j, k)), eq(R.get(j), ite(ge(W, 0), g.N(g.p(W)), -1)))), [R.get(j)], [g.run.step(j, k), g.run.start(j), g.run.some(k, j), g.o["perm"](k), g.at(g.p(k)), g.dspec(g.p(k))])


PROPERTY = "C21"
def tasks():
    M = "virgo.util.match.match"
    F = MOD + ".find_progenitor_tree_mass"
    yield dict(label="find_progenitor_tree_mass", fn=tree_mass, cfg={}, contracts={M: match_handler}, loopspecs={(F, 0): LoopSpec([accumulated])})
    F = MOD + ".find_progenitor_branch_mass_delucia"
    yield dict(label="find_progenitor_branch_mass_delucia", fn=branch_mass, cfg={}, contracts={M: match_handler}, loopspecs={(F, 0): LoopSpec([branch])})
    F = MOD + ".find_main_progenitor"
    yield dict(label="find_main_progenitor", fn=main_progenitor, cfg={}, contracts={M: match_handler}, loopspecs={(F, 0): LoopSpec([largest]), (F, 1): LoopSpec()})
