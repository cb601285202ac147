"""C16: virgo.util.peano"""
from verify import *
from loops import LoopSpec, All
import npmodel
from npmodel import Table, finite

MOD = "virgo.util.peano"

# Gadget's tables (allvars/peano.c)
QUAD = np.array([
 [[[0,7],[1,6]],[[3,4],[2,5]]], [[[7,4],[6,5]],[[0,3],[1,2]]], [[[4,3],[5,2]],[[7,0],[6,1]]], [[[3,0],[2,1]],[[4,7],[5,6]]],
 [[[1,0],[6,7]],[[2,3],[5,4]]], [[[0,3],[7,4]],[[1,2],[6,5]]], [[[3,2],[4,5]],[[0,1],[7,6]]], [[[2,1],[5,6]],[[3,0],[4,7]]],
 [[[6,1],[7,0]],[[5,2],[4,3]]], [[[1,2],[0,3]],[[6,5],[7,4]]], [[[2,5],[3,4]],[[1,6],[0,7]]], [[[5,6],[4,7]],[[2,1],[3,0]]],
 [[[7,6],[0,1]],[[4,5],[3,2]]], [[[6,5],[1,2]],[[7,4],[0,3]]], [[[5,4],[2,3]],[[6,7],[1,0]]], [[[4,7],[3,0]],[[5,6],[2,1]]],
 [[[6,7],[5,4]],[[1,0],[2,3]]], [[[7,0],[4,3]],[[6,1],[5,2]]], [[[0,1],[3,2]],[[7,6],[4,5]]], [[[1,6],[2,5]],[[0,7],[3,4]]],
 [[[2,3],[1,0]],[[5,4],[6,7]]], [[[3,4],[0,7]],[[2,5],[1,6]]], [[[4,5],[7,6]],[[3,2],[0,1]]], [[[5,2],[6,1]],[[4,3],[7,0]]]])
RX = [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0, 1, 2, 3, 17, 18, 19, 16, 23, 20, 21, 22]
RY = [1, 2, 3, 0, 16, 17, 18, 19, 11, 8, 9, 10, 22, 23, 20, 21, 14, 15, 12, 13, 4, 5, 6, 7]
NX = [3, 0, 0, 2, 2, 0, 0, 1]; NY = [0, 1, 1, 2, 2, 3, 3, 0]; SE = [-1, -1, -1, +1, +1, -1, -1, -1]


def power(table, m, r):
    for _ in range(m): r = table[r]
    return r


CORNER = np.zeros((3, 24, 8), dtype=int)          # the cell with a given position along the curve
for _r in range(24):
    for _b in np.ndindex(2, 2, 2):
        for _a in range(3): CORNER[_a, _r, QUAD[(_r,) + _b]] = _b[_a]
TX = np.array([[power(RX, m, r) for r in range(24)] for m in range(4)])
TY = np.array([[power(RY, m, r) for r in range(24)] for m in range(4)])


class Spec:
    """The curve, level by level: key, orientation and sense of direction of the cell (X, Y, Z) of level k, and the cell and
    orientation which belong to a key of level k"""
    def __init__(self, ctx):
        self.ctx = ctx
        T = lambda x: Table.of(ctx, np.array(x))
        self.quad, self.tx, self.ty, self.nx, self.ny, self.se = T(QUAD), T(TX), T(TY), T(NX), T(NY), T(SE)
        self.inv = [T(CORNER[a]) for a in range(3)]
        F = lambda n, a: z3.Function(n, *([Int] * (a + 1)))
        self.KEY, self.ROT, self.SEN = F("KEY", 4), F("ROT", 4), F("SEN", 4)
        self.X, self.DR, self.DS = [F("CELL_" + a, 2) for a in "xyz"], F("DROT", 2), F("DSEN", 2)
    def turn(self, rot, q): return self.ty(self.ny(q), self.tx(self.nx(q), rot))
    def next_quad(self, k, X, Y, Z):
        p = [t(k)] + [floordiv(c, 2) for c in (X, Y, Z)]
        return self.quad(self.ROT(*p), *[mod(c, 2) for c in (X, Y, Z)])
    def start(self): return z3.And(self.KEY(0, 0, 0, 0) == 0, self.ROT(0, 0, 0, 0) == 0, self.SEN(0, 0, 0, 0) == 1, *[f(0, 0) == 0 for f in self.X + [self.DR]], self.DS(0, 0) == 1)
    def cell(self, k, X, Y, Z):
        """Definition at level k + 1"""
        k, X, Y, Z = t(k), t(X), t(Y), t(Z)
        p = [k] + [floordiv(c, 2) for c in (X, Y, Z)]; n = [add(k, 1), X, Y, Z]
        q = self.next_quad(k, X, Y, Z); s = self.SEN(*p)
        return implies(land(k >= 0, X >= 0, Y >= 0, Z >= 0), land(self.KEY(*n) == 8 * self.KEY(*p) + z3.If(s == 1, q, 7 - q), self.ROT(*n) == self.turn(self.ROT(*p), q), self.SEN(*n) == s * self.se(q)))
    def key(self, k, c):
        """Definition at level k + 1"""
        k, c = t(k), t(c)
        p = [k, floordiv(c, 8)]; n = [add(k, 1), c]; d = mod(c, 8); s = self.DS(*p)
        q = z3.If(s == 1, d, 7 - d)
        return implies(land(k >= 0, c >= 0), land(*[f(*n) == 2 * f(*p) + inv(self.DR(*p), q) for f, inv in zip(self.X, self.inv)], self.DR(*n) == self.turn(self.DR(*p), q), self.DS(*n) == s * self.se(q)))
    def states(self): return [range(24), (-1, 1)]


def curve(v, cfg):
    """What the definition implies"""
    ctx = v.ctx; S = Spec(ctx); ctx.facts.append(S.start())
    pow2 = lambda k: t(v.np.pow2(k))
    step2 = lambda k: implies(ge(k, 0), eq(pow2(add(k, 1)), mul(2, pow2(k))))
    pow8 = z3.Function("pow8", Int, Int); ctx.facts.append(pow8(0) == 1)
    step8 = lambda k: implies(ge(k, 0), pow8(add(k, 1)) == 8 * pow8(t(k)))
    ctx.where = "curve"
    ok_state = lambda r, s: land(le(0, r), le(r, 23), lor(eq(s, 1), eq(s, -1)))
    D = [range(24), (-1, 1)]
    # tables
    turns = finite(ctx, "turning gives one of the 24 orientations", [range(24), range(8)], lambda r, q: land(le(0, S.turn(r, q)), le(S.turn(r, q), 23), lor(eq(S.se(q), 1), eq(S.se(q), -1))), [S.tx, S.ty, S.nx, S.ny, S.se])
    corner = finite(ctx, "the positions of the eight parts are different", [range(24)] + [range(2)] * 3, lambda r, a, b, c: land(le(0, S.quad(r, a, b, c)), le(S.quad(r, a, b, c), 7), *[eq(i(r, S.quad(r, a, b, c)), y) for i, y in zip(S.inv, (a, b, c))]), [S.quad] + S.inv)
    back = finite(ctx, "each position belongs to one part", [range(24), range(8)], lambda r, q: land(eq(S.quad(r, *[i(r, q) for i in S.inv]), q), *[land(le(0, i(r, q)), le(i(r, q), 1)) for i in S.inv]), [S.quad] + S.inv)
    # cell -> key -> cell, by induction over the level
    k, X, Y, Z = [v.fresh(n) for n in "kXYZ"]
    cells = (X, Y, Z)
    def inside(k, *c): return land(*[land(le(0, x), lt(x, pow2(k))) for x in c])
    def forward(k, X, Y, Z):
        K, R, s = S.KEY(k, X, Y, Z), S.ROT(k, X, Y, Z), S.SEN(k, X, Y, Z)
        return implies(inside(k, X, Y, Z), land(0 <= K, K < pow8(k), ok_state(R, s), *[eq(f(k, K), c) for f, c in zip(S.X, (X, Y, Z))], S.DR(k, K) == R, S.DS(k, K) == s))
    ctx.prove(forward(t(0), X, Y, Z), "level 0: one cell with key 0")
    half = [floordiv(c, 2) for c in cells]; bits = [mod(c, 2) for c in cells]
    hyp = forward(k, *half); R = S.ROT(k, *half); q = S.quad(R, *bits)
    K1 = S.KEY(add(k, 1), *cells)
    ctx.prove(implies(land(ge(k, 0), hyp), forward(add(k, 1), X, Y, Z)), "the key is in range and determines the cell: step", hints=[step2(k), step8(k), S.cell(k, *cells), S.key(k, K1), turns(R, q), corner(R, *bits)])
    # key -> cell -> key
    c = v.fresh("c")
    def backward(k, c):
        xs = [f(k, c) for f in S.X]
        return implies(land(le(0, c), c < pow8(t(k))), land(inside(k, *xs), S.KEY(k, *xs) == c, S.ROT(k, *xs) == S.DR(k, c), S.SEN(k, *xs) == S.DS(k, c), ok_state(S.DR(k, c), S.DS(k, c))))
    ctx.prove(backward(t(0), c), "level 0: key 0 belongs to the cell")
    c8 = floordiv(c, 8); d = mod(c, 8); R = S.DR(k, c8); q = z3.If(S.DS(k, c8) == 1, d, 7 - d)
    ctx.prove(implies(land(ge(k, 0), backward(k, c8)), backward(add(k, 1), c)), "every key is the key of the cell found for it: step", hints=[step2(k), step8(k), S.key(k, c), S.cell(k, *[f(add(k, 1), c) for f in S.X]), turns(R, q), back(R, q)])
    # the parent
    ctx.prove(implies(land(ge(k, 0), X >= 0, Y >= 0, Z >= 0, forward(add(k, 1), X, Y, Z), forward(k, *half), inside(add(k, 1), *cells)), eq(floordiv(K1, 8), S.KEY(k, *half))), "the key of the parent cell is the key without its last three bits", hints=[step2(k), step8(k), S.cell(k, *cells), corner(S.ROT(k, *half), *bits)])
    # neighbours on the curve
    first = lambda i, r, s: i(r, ite(eq(s, 1), 0, 7)); last = lambda i, r, s: i(r, ite(eq(s, 1), 7, 0))
    def child(r, s, d):
        q = ite(eq(s, 1), d, sub(7, d))
        return S.turn(r, q), mul(s, S.se(q)), [i(r, q) for i in S.inv]
    def joined(u, w, st, sn):
        """Cells u and w share a face, and the curve leaves the one and enters the other there"""
        out = []
        for a in range(3):
            for e in (-1, 1):
                out.append(land(*[eq(sub(w[b], u[b]), e if b == a else 0) for b in range(3)],
                                *[eq(sub(first(S.inv[b], *sn), last(S.inv[b], *st)), -e if b == a else 0) for b in range(3)]))
        return lor(*out)
    tabs = [S.tx, S.ty, S.nx, S.ny, S.se] + S.inv
    def pair(r, s, d):
        r1, s1, b1 = child(r, s, d); r2, s2, b2 = child(r, s, d + 1 if isinstance(d, int) else add(d, 1))
        return joined(b1, b2, (r1, s1), (r2, s2))
    pairs = finite(ctx, "successive parts share a face where the curve goes through", [range(24), (-1, 1), range(7)], pair, tabs)
    def ends(r, s):
        out = []
        for d, e in ((0, first), (7, last)):
            r1, s1, b1 = child(r, s, d)
            out += [eq(e(i, r1, s1), e(i, r, s)) for i in S.inv]
        return land(*out)
    same_ends = finite(ctx, "the curve enters at the corner of its first part and leaves at that of its last", [range(24), (-1, 1)], ends, tabs)
    def successive(k, c):
        e = add(c, 1)
        return implies(land(le(0, c), t(e) < pow8(t(k))), joined([f(k, c) for f in S.X], [f(k, e) for f in S.X], (S.DR(k, c), S.DS(k, c)), (S.DR(k, e), S.DS(k, e))))
    ctx.prove(successive(t(0), c), "level 0: no successive cells")
    e = add(c, 1); e8 = floordiv(e, 8)
    # inside one part of the level above
    R, s = S.DR(k, c8), S.DS(k, c8)
    ctx.prove(implies(land(ge(k, 0), backward(k, c8), lt(d, 7)), successive(add(k, 1), c)), "successive cells with the same parent share a face",
              hints=[step8(k), S.key(k, c), S.key(k, e), eq(e8, c8) if False else implies(lt(d, 7), land(eq(e8, c8), eq(mod(e, 8), add(d, 1)))), pairs(R, s, d)])
    n8 = add(c8, 1); R2, s2 = S.DR(k, n8), S.DS(k, n8)
    ctx.prove(implies(land(ge(k, 0), backward(k, c8), backward(k, n8), successive(k, c8), eq(d, 7)), successive(add(k, 1), c)), "successive cells with different parents share a face",
              hints=[step8(k), S.key(k, c), S.key(k, e), implies(eq(d, 7), land(eq(e8, n8), eq(mod(e, 8), 0))), same_ends(R, s), same_ends(R2, s2)])


# --- the functions
INT32, INT64 = np.dtype(np.int32), np.dtype(np.int64)


class G:
    """Definitions and lemmas used for one function"""
    def __init__(self, v, bits, n):
        ctx = v.ctx; self.ctx, self.v, self.bits, self.n = ctx, v, bits, n
        S = self.S = Spec(ctx); ctx.facts.append(S.start())
        ctx.where = "arithmetic"
        x, p, u, e, m = [ctx.const(c) for c in ("x", "p", "u", "e", "m")]
        div = {m_: implies(ge(p, 1), eq(floordiv(x, mul(m_, p)), floordiv(floordiv(x, p), m_))) for m_ in (2, 8)}
        for m_ in (2, 8): ctx.prove(div[m_], "lemma division by a product, %d" % m_)
        cancel = implies(ge(p, 1), eq(floordiv(mul(u, p), p), u)); ctx.prove(cancel, "lemma division undoes multiplication")
        self.pow2 = lambda k: t(v.np.pow2(k))
        self.step2 = lambda k: implies(ge(k, 0), land(eq(self.pow2(add(k, 1)), mul(2, self.pow2(k))), ge(self.pow2(k), 1)))
        SHR = z3.Function("shr", Int, Int, Int)              # x >> e
        self.shr = lambda x, e: SHR(t(x), t(e))
        df = lambda x, e: eq(self.shr(x, e), floordiv(x, self.pow2(e)))
        defs = []
        def lemma(name, vs, body, hints):
            body = t(body); ctx.prove(body, "lemma " + name, hints=hints)
            defs.append(forall(vs, body))
            return lambda *xs: z3.substitute(body, *[(a, t(b)) for a, b in zip(vs, xs)])
        self.div = lambda xx, pp, m_: subst(t(div[m_]), (x, t(xx)), (p, t(pp)))
        self.half = lemma("one bit less", [x, e], implies(ge(e, 0), eq(self.shr(x, add(e, 1)), floordiv(self.shr(x, e), 2))), [df(x, e), df(x, add(e, 1)), self.step2(e), self.div(x, self.pow2(e), 2)])
        self.div_ = lambda uu, pp: subst(t(cancel), (u, t(uu)), (p, t(pp)))
        r = v.np.band(x, m)
        bit = lambda r, x: implies(land(ge(e, 0), eq(m, self.pow2(e))), eq(ne(r, 0), eq(mod(self.shr(x, e), 2), 1)))
        bit_ = lemma("one bit of a number", [x, m, e], bit(r, x), [df(x, e), v.np.band_rule((t(r), x, m), e, 1), self.step2(e), lor(eq(mod(self.shr(x, e), 2), 0), eq(mod(self.shr(x, e), 2), 1))])
        self.bit = lambda band, e: land(bit_(band[1], band[2], e), bit_(band[2], band[1], e), eq(v.np.band(band[1], band[2]), v.np.band(band[2], band[1])))
        self.all = lemma("all bits", [x], eq(self.shr(x, 0), x), [df(x, t(0)), eq(self.pow2(0), 1)])
        self.none = lemma("no bits", [x, e], implies(land(le(0, x), lt(x, self.pow2(e))), eq(self.shr(x, e), 0)), [df(x, e)])
        self.pos = lemma("not negative", [x, e], implies(land(ge(x, 0), ge(e, 0)), ge(self.shr(x, e), 0)), [df(x, e), self.step2(e)])
        self.step8 = lambda k: land(self.step2(k), self.step2(add(k, 1)), self.step2(add(k, 2)))
        self.eighth = lemma("three bits less", [x, e], implies(ge(e, 0), eq(self.shr(x, add(e, 3)), floordiv(self.shr(x, e), 8))), [df(x, e), df(x, add(e, 3)), self.step8(e), self.div(x, self.pow2(e), 8)])
        field_ = lemma("three bits of a number", [x, m, e], implies(land(ge(e, 0), eq(m, mul(7, self.pow2(e)))), eq(floordiv(r, self.pow2(e)), mod(self.shr(x, e), 8))),
                       [df(x, e), v.np.band_rule((t(r), x, m), e, 3), self.step2(e), self.div_(mod(self.shr(x, e), 8), self.pow2(e))])
        self.field = lambda band, e: land(field_(band[1], band[2], e), field_(band[2], band[1], e), eq(v.np.band(band[1], band[2]), v.np.band(band[2], band[1])))
        ctx.bands = []
        ctx.lemmas = defs + [forall([x, p], div[2]), forall([x, p], div[8]), forall([u, p], cancel)]
        self.cancel = lambda uu, pp: subst(t(cancel), (u, t(uu)), (p, t(pp)))
        # tables of the code
        g = v.I.load(MOD).g
        want = {}
        self.tabs = S
        self.code = lambda x: Table.of(ctx, g[x])

    def tables(self, inverse):
        """The tables of the code are those of the definition"""
        ctx, S = self.ctx, self.S; out = {}
        def same(name, spec, ranges):
            tab = self.code(name)
            out[name] = finite(ctx, "table %s" % name, ranges, lambda *i: land(eq(tab(*i), spec(*i)), le(int(spec.x.min()), spec(*i)), le(spec(*i), int(spec.x.max()))), [tab, spec])
        if inverse:
            for a, i in zip("xyz", S.inv): same("quadrants_inverse_" + a, i, [range(24), range(8)])
        else: same("quadrants", S.quad, [range(24)] + [range(2)] * 3)
        same("rotx_table", S.nx, [range(8)]); same("roty_table", S.ny, [range(8)]); same("sense_table", S.se, [range(8)])
        for name, tab in (("rotxmap_table", S.tx), ("rotymap_table", S.ty)):
            ct = self.code(name)
            out[name] = finite(ctx, "table %s" % name, [range(1, 4), range(24)], lambda m, r, ct=ct, tab=tab: land(eq(tab(m, r), tab(m - 1 if isinstance(m, int) else sub(m, 1), ct(r))), le(0, ct(r)), le(ct(r), 23)), [ct, tab])
            out["none " + name] = finite(ctx, "no turn", [range(24)], lambda r, tab=tab: eq(tab(0, r), r), [tab])
        self.lem = out
        out["turn"] = finite(ctx, "turning gives one of the 24 orientations", [range(24), range(8)], lambda r, q: land(le(0, S.turn(r, q)), le(S.turn(r, q), 23), lor(eq(S.se(q), 1), eq(S.se(q), -1))), [S.tx, S.ty, S.nx, S.ny, S.se])


def at(x, j): return x.get(j) if isinstance(x, SArr) else x


# --- keys
def level(g, st, j, k):
    """The cell of level k which contains cell j"""
    return [g.shr(c(j), sub(g.bits, k)) for c in g.cells]


def in_range(g, j): return land(le(0, j), lt(j, g.n))


class Now:
    """The level"""
    def __init__(self, st): self.k, self.I = st.k, st.I
    def __getitem__(self, x): return self.k


def key_mask(st):
    g = st.I.ctx.g; g.now = Now(st)
    return implies(lt(st.k, g.bits), eq(st["mask"], g.pow2(sub(sub(g.bits, st.k), 1))))


def mask_hints(st):
    g = st.I.ctx.g
    return [g.step2(sub(sub(g.bits, st.k), i)) for i in (1, 2)]


def key_state(st):
    g = st.I.ctx.g; S = g.S; j = fresh_int("j")
    p = [t(st.k)] + level(g, st, j, st.k)
    key, rot, sen = at(st["key"], j), at(st["rotation"], j), at(st["sense"], j)
    k, e = sub(st.k, 1), sub(g.bits, st.k)
    bits = [mod(c, 2) for c in p[1:]]; q0 = [k] + [floordiv(c, 2) for c in p[1:]]; R = S.ROT(*[t(x) for x in q0]); q = S.quad(R, *bits); L = g.lem
    hints = [eq(g.pow2(0), 1), g.step2(e), S.cell(k, *p[1:]), g.defs(k, j), L["turn"](R, q), L["quadrants"](R, *bits), L["sense_table"](q), L["rotx_table"](q), L["roty_table"](q)]
    hints += [implies(in_range(g, j), land(le(0, c(j)), lt(c(j), g.pow2(g.bits)))) for c in g.cells] + [x for c in g.cells for x in (g.half(c(j), e), g.pos(c(j), e), g.all(c(j)), g.none(c(j), g.bits))]
    hints += known_at(g, j) + [L["none rotxmap_table"](rot), L["none rotymap_table"](rot)]
    return All([j], implies(in_range(g, j), land(eq(key, S.KEY(*p)), eq(rot, S.ROT(*p)), eq(sen, S.SEN(*p)), le(0, rot), le(rot, 23), lor(eq(sen, 1), eq(sen, -1)))), [x for x in (key, rot, sen) if is_sym(x) and usable_trigger(x, [j])], hints)


def known_at(g, j):
    """What is known about element j: after the loops before, and from conditions on all elements"""
    return [z3.substitute(b, (vs[0], t(j))) for vs, b in getattr(g.ctx, "loop_ends", []) if len(vs) == 1] + getattr(g.ctx, "loop_exits", []) + [at(j) for at in getattr(g.ctx, "anys", [])]


def element(g, hints):
    """Instances of what is known about element j"""
    def at(j):
        out = known_at(g, j) + [z3.substitute(x, (vs[0], t(j))) for vs, xs in g.ctx.heads if len(vs) == 1 for x in xs]
        st = getattr(g, "now", None)
        return [x for x in out + (hints(st, j) if st is not None else []) if is_sym(x)]
    return at


def turning(which):
    """In the loops which turn the orientation: what remains to be done leads to the orientation wanted"""
    def inv(st):
        g = st.I.ctx.g; S = g.S; j = fresh_int("j"); i = t(st["i"])
        R, q = g.RJ(i, j), g.QJ(i, j)
        n = at(st["rot" + which], j); r = at(st["rotation"], j); quad = at(st["quad"], j)
        want = S.tx(S.nx(q), R) if which == "x" else S.ty(S.ny(q), S.tx(S.nx(q), R))
        tab = S.tx if which == "x" else S.ty
        L = g.lem; name = "rot%smap_table" % which
        hints = [L[name](n, r), L[name](add(n, 1), r), L["none rotxmap_table"](r), L["none rotymap_table"](r), L["none " + name](at(st["rotation"], j))]
        hints += [s["at"](j) for s in getattr(g.ctx, "selections", [])]
        hints += [L["rotx_table"](q), L["roty_table"](q), L["turn"](R, q)]
        hints += known_at(g, j)
        if is_sym(st.k) is False and st.k == 0 and which == "x": hints += g.part_hints(st, j)
        if which == "y": hints += [L["none rotxmap_table"](at(st["rotation"], j))]
        return All([j], implies(in_range(g, j), land(eq(quad, q), le(0, q), le(q, 7), le(0, R), le(R, 23), eq(tab(n, r), want), le(0, n), le(n, 3), le(0, r), le(r, 23))), [x for x in (t(n), t(r)) if usable_trigger(x, [j])], hints)
    return inv


def key_hints(st, j):
    g = st.I.ctx.g; S, L = g.S, g.lem
    k = st["i"]; e = sub(sub(g.bits, k), 1)
    p = level(g, st, j, add(k, 1)); bits = [mod(c, 2) for c in p]
    R = S.ROT(t(k), *[floordiv(c, 2) for c in p])
    return [g.defs(k, j), g.step2(e), L["quadrants"](R, *bits)] + [g.half(c(j), e) for c in g.cells] + [g.bit(b, e) for b in getattr(g.ctx, "bands", [])]


def key_defs(g):
    """Orientation and part of the curve for cell j at level k"""
    S = g.S
    g.RJ, g.QJ = z3.Function("rotation_of", Int, Int, Int), z3.Function("part_of", Int, Int, Int)
    def defs(k, j):
        p = level(g, None, j, add(k, 1))
        return land(eq(g.RJ(t(k), t(j)), S.ROT(t(k), *[floordiv(c, 2) for c in p])), eq(g.QJ(t(k), t(j)), S.next_quad(k, *p)))
    g.defs = defs
    k, j = fresh_int("k"), fresh_int("j")
    g.ctx.lemmas.append(forall([k, j], defs(k, j)))


# --- cells
def inv_mask(st):
    g = st.I.ctx.g; g.now = Now(st)
    e = mul(3, sub(sub(g.bits, st.k), 1))
    return land(eq(st["shift"], e), implies(lt(st.k, g.bits), eq(st["mask"], mul(7, g.pow2(e)))))


def inv_lengths(st):
    g = st.I.ctx.g
    return land(*[eq(st[a].shape[0], g.n) for a in "xyz"])


def inv_mask_hints(st):
    g = st.I.ctx.g
    return [g.step8(mul(3, sub(sub(g.bits, st.k), 2)))]


def inv_state(st):
    g = st.I.ctx.g; S = g.S; j = fresh_int("j"); L = g.lem
    e = mul(3, sub(g.bits, st.k)); c = g.key(j)
    p = [t(st.k), g.shr(c, e)]
    rot, sen = at(st["rotation"], j), at(st["sense"], j)
    xs = [at(st[a], j) for a in "xyz"]
    k = sub(st.k, 1)
    R, q = g.RJ(t(k), j), g.QJ(t(k), j)
    hints = [S.key(k, p[1]), g.defs(k, j), g.eighth(c, e), g.pos(c, e), g.all(c), g.none(c, mul(3, g.bits)), L["turn"](R, q), L["sense_table"](q), L["rotx_table"](q), L["roty_table"](q), implies(in_range(g, j), land(le(0, c), lt(c, g.pow2(mul(3, g.bits)))))]
    hints += [L["quadrants_inverse_" + a](R, q) for a in "xyz"] + known_at(g, j) + [L["none rotxmap_table"](rot), L["none rotymap_table"](rot)]
    return All([j], implies(in_range(g, j), land(*[eq(x, f(*p)) for x, f in zip(xs, S.X)], eq(rot, S.DR(*p)), eq(sen, S.DS(*p)), le(0, rot), le(rot, 23), lor(eq(sen, 1), eq(sen, -1)))),
               [x for x in xs + [rot, sen] if is_sym(x) and usable_trigger(x, [j])], hints)


def inv_hints(st, j):
    g = st.I.ctx.g
    k = st["i"]; e = mul(3, sub(sub(g.bits, k), 1)); c = g.key(j)
    return [g.defs(k, j), g.step2(e), g.eighth(c, e), g.pos(c, e), implies(in_range(g, j), le(0, c))] + [g.field(b, e) for b in getattr(g.ctx, "bands", [])]


def inv_defs(g):
    S = g.S
    g.RJ, g.QJ = z3.Function("rotation_of", Int, Int, Int), z3.Function("part_of", Int, Int, Int)
    def defs(k, j):
        c = g.shr(g.key(j), mul(3, sub(sub(g.bits, k), 1))); d = mod(c, 8); p = [t(k), floordiv(c, 8)]
        return land(eq(g.RJ(t(k), t(j)), S.DR(*p)), eq(g.QJ(t(k), t(j)), ite(eq(S.DS(*p), 1), d, sub(7, d))))
    g.defs = defs
    k, j = fresh_int("k"), fresh_int("j")
    g.ctx.lemmas.append(forall([k, j], defs(k, j)))


def inverses_contract(v, cfg):
    ctx = v.ctx
    n = v.int("n", lo=0); bits = v.int("bits", lo=1)
    ctx.named_any = True; g = ctx.g = G(v, bits, n); g.part_hints = inv_hints; g.tables(True); ctx.element_hints = element(g, inv_hints)
    key = v.array("key", [n], np.dtype(cfg["dtype"]))
    g.key = key.cell.fn
    inv_defs(g)
    j = v.fresh("j")
    v.assume(implies(in_range(g, j), land(le(0, g.key(j)), lt(g.key(j), g.pow2(mul(3, bits))))), [j], [g.key(j)])
    r = v.call(MOD, "peano_hilbert_key_inverses_block", key, bits)
    v.ensure(z3.BoolVal(isinstance(r, tuple) and len(r) == 3), "three coordinates")
    for a, x, f in zip("xyz", r, g.S.X):
        v.ensure(land(eq(len(x.shape), 1), eq(x.shape[0], n)), "one %s for each key" % a)
        v.ensure_all([j], in_range(g, j), eq(x.get(j), f(bits, g.key(j))), "%s is that of the cell which has this key" % a, hints=[g.all(g.key(j))])
    v.unchanged(key, g.key, "keys not modified")


def block_contract(v, cfg):
    ctx = v.ctx
    n = v.int("n", lo=0); bits = v.int("bits", lo=1)
    ctx.named_any = True; g = ctx.g = G(v, bits, n); g.part_hints = key_hints; g.tables(False); ctx.element_hints = element(g, key_hints)
    dt = np.dtype(cfg["dtype"])
    args = [v.array("i" + a, [n], dt) for a in "xyz"]
    before = g.cells = [a.cell.fn for a in args]
    key_defs(g)
    j = v.fresh("j")
    for f in before: v.assume(implies(in_range(g, j), land(le(0, f(j)), lt(f(j), g.pow2(bits)))), [j], [f(j)])
    r = v.call(MOD, "peano_hilbert_keys_block", *args, bits)
    v.ensure(land(eq(len(r.shape), 1), eq(r.shape[0], n)), "one key for each cell")
    v.ensure(z3.BoolVal(r.dtype == INT64), "keys are 64-bit integers")
    v.ensure_all([j], in_range(g, j), eq(r.get(j), g.S.KEY(bits, *[f(j) for f in before])), "the key is that of Gadget's curve", hints=[g.all(f(j)) for f in before])
    for a, f in zip(args, before): v.unchanged(a, f, "cells not modified")


# --- the block functions at a call: their contracts, proved above
def one_dim(I, ctx, xs, n):
    for x in xs:
        ctx.require(eq(len(x.shape), 1), "one-dimensional argument"); ctx.require(eq(x.shape[0], n), "arguments of the same length")


def keys_handler(I, L):
    ctx, npm = I.ctx, I.np; g = ctx.g
    xs = [npm.as_array(I.resolve(L[x])) for x in ("ix", "iy", "iz")]; bits = I.resolve(L["bits"])
    n = xs[0].shape[0]
    one_dim(I, ctx, xs, n); ctx.require(ge(bits, 1), "bits")
    for x in xs:
        if x.dtype.kind not in "i": raise Unsupported("cells of type %s" % x.dtype)
    fs = [x.freeze() for x in xs]
    j = fresh_int("j")
    for f, b in zip(fs, "xyz"):
        ctx.prove(implies(land(le(0, j), lt(j, n)), land(le(0, f(j)), lt(f(j), g.pow2(bits)))), "the cell is inside the grid", hints=ctx.element_hints(j) if ctx.element_hints else ())
    return SArr(cached(lambda j: g.S.KEY(t(bits), *[t(f(j)) for f in fs])), [n], INT64)


def inverses_handler(I, L):
    ctx, npm = I.ctx, I.np; g = ctx.g
    key, bits = npm.as_array(I.resolve(L["key"])), I.resolve(L["bits"])
    n = key.shape[0]
    one_dim(I, ctx, [key], n); ctx.require(ge(bits, 1), "bits")
    if key.dtype.kind not in "i": raise Unsupported("keys of type %s" % key.dtype)
    f = key.freeze()
    j = fresh_int("j")
    ctx.prove(implies(land(le(0, j), lt(j, n)), land(le(0, f(j)), lt(f(j), g.pow2(mul(3, bits))))), "the key is in range", hints=ctx.element_hints(j) if ctx.element_hints else ())
    return tuple(SArr(cached(lambda j, X=X: X(t(bits), t(f(j)))), [n], INT32) for X in g.S.X)


class W:
    """Wrapper functions, which work on blocks: definitions only"""
    def __init__(self, v): self.S, self.pow2 = Spec(v.ctx), lambda k: t(v.np.pow2(k))


def done(names):
    """The blocks before this one have been done"""
    def inv(st):
        g = st.I.ctx.g; j = fresh_int("j")
        if hasattr(st.I.ctx, "rounds"): st.I.ctx.rounds = [st]
        vals = [at(st[x], j) for x in names]
        return All([j], implies(land(le(0, j), lt(j, tmin(mul(g.block, st.k), g.n))), land(*[eq(x, y) for x, y in zip(vals, g.result(j))])), [x for x in vals if is_sym(x) and usable_trigger(x, [j])], g.at(j) if hasattr(g, "at") else ())
    return inv


def wrapper_contract(v, cfg):
    ctx = v.ctx
    n = v.int("n", lo=0); bits = v.int("bits", lo=1)
    g = ctx.g = W(v); g.n, g.bits = n, bits; g.block = v.I.load(MOD).g["blocksize"]
    what = cfg["what"]; dt = np.dtype(cfg["dtype"])
    j = v.fresh("j")
    if what == "keys":
        args = [v.array("i" + a, [n], dt) for a in "xyz"]; before = [a.cell.fn for a in args]
        for f in before: v.assume(implies(in_range(g, j), land(le(0, f(j)), lt(f(j), g.pow2(bits)))), [j], [f(j)])
        g.result = lambda j: [g.S.KEY(bits, *[f(j) for f in before])]
        r = [v.call(MOD, "peano_hilbert_keys", *args, bits)]
    elif what == "inverses":
        args = [v.array("key", [n], dt)]; before = [args[0].cell.fn]; f = before[0]
        v.assume(implies(in_range(g, j), land(le(0, f(j)), lt(f(j), g.pow2(mul(3, bits))))), [j], [f(j)])
        g.result = lambda j: [X(bits, f(j)) for X in g.S.X]
        r = v.call(MOD, "peano_hilbert_key_inverses", args[0], bits)
        v.ensure(z3.BoolVal(isinstance(r, tuple) and len(r) == 3), "three coordinates")
    else:
        args = [v.array("pos", [n, 3], dt)]; before = [args[0].cell.fn]; f = before[0]
        box = v.real("boxsize"); v.assume(gt(box, 0))
        for a in range(3): v.assume(implies(in_range(g, j), land(le(0, f(j, t(a))), lt(f(j, t(a)), box))), [j], [f(j, t(a))])
        # the cell of a coordinate: c <= x * 2^bits / boxsize < c + 1
        C = [z3.Function("cell_" + a, Int, Int) for a in "xyz"]
        P = z3.ToReal(g.pow2(bits))
        defs = lambda j: land(*[land(mul(z3.ToReal(c(t(j))), box) <= mul(f(j, t(a)), P), mul(f(j, t(a)), P) < mul(z3.ToReal(c(t(j))) + 1, box)) for a, c in enumerate(C)])
        ctx.fact(implies(in_range(g, j), defs(j)), [j], [f(j, t(0))])
        g.defs = defs
        g.result = lambda j: [g.S.KEY(bits, *[c(t(j)) for c in C])]
        x, y, c, p = ctx.const("x", Real), ctx.const("y", Real), ctx.const("c"), ctx.const("p")
        ctx.where = "arithmetic"
        q = tdiv(x, tdiv(box, z3.ToReal(p)))
        one = implies(ge(p, 1), eq(mul(q, box), mul(x, z3.ToReal(p)))); ctx.prove(one, "lemma the coordinate in units of the cell size", hints=real_meaning(one))
        near = land(mul(z3.ToReal(c), box) <= mul(x, z3.ToReal(p)), mul(x, z3.ToReal(p)) < mul(z3.ToReal(c) + 1, box))
        two = implies(land(near, eq(mul(y, box), mul(x, z3.ToReal(p)))), eq(z3.ToInt(y), c)); ctx.prove(two, "lemma the cell of a coordinate", hints=real_meaning(two))
        three = implies(land(near, ge(p, 1), le(0, x), lt(x, box)), land(le(0, c), lt(c, p))); ctx.prove(three, "lemma the cell is inside the grid", hints=real_meaning(three))
        ctx.lemmas = REAL_MEANING + [forall([x, p], one), forall([x, y, c, p], two), forall([x, c, p], three)]
        def at(j):
            out = [implies(in_range(g, j), defs(j)), eq(g.pow2(0), 1), ge(g.pow2(bits), 1)]
            for a, cc in enumerate(C):
                xx, pp = t(f(j, t(a))), g.pow2(bits); qq = t(tdiv(xx, tdiv(box, z3.ToReal(pp))))
                out += [subst(h, (x, xx), (p, pp), (c, cc(t(j))), (y, qq)) for h in (one, two, three)] + [implies(in_range(g, j), land(le(0, xx), lt(xx, box)))]
            return out
        ctx.element_hints = lambda j: [z for k in [j] + [add(mul(g.block, r.k), j) for r in ctx.rounds] for z in at(k)]
        ctx.rounds = []
        g.at = at
        r = [v.call(MOD, "peano_hilbert_keys_from_coords", args[0], box, bits)]
    for x, y in zip(r, g.result(j) if r else []):
        v.ensure(land(eq(len(x.shape), 1), eq(x.shape[0], n)), "one result for each element")
        v.ensure_all([j], in_range(g, j), eq(x.get(j), y), "each element has the result of the block function")
    for a, f in zip(args, before): v.unchanged(a, f, "arguments not modified")


PROPERTY = "C16"
def tasks():
    yield dict(label="the curve", fn=curve, cfg={}, cfgname="definition")
    B = MOD + ".peano_hilbert_keys_block"
    for dtype in ("int32", "int64"):
        yield dict(label="peano_hilbert_keys_block", fn=block_contract, cfg=dict(dtype=dtype), cfgname=dtype,
                   loopspecs={(B, 0): LoopSpec([key_mask, key_state], hints=mask_hints), (B, 1): LoopSpec([turning("x")]), (B, 2): LoopSpec([turning("y")])})
    I_ = MOD + ".peano_hilbert_key_inverses_block"
    for dtype in ("int64",):
        yield dict(label="peano_hilbert_key_inverses_block", fn=inverses_contract, cfg=dict(dtype=dtype), cfgname=dtype,
                   loopspecs={(I_, 0): LoopSpec([inv_mask, inv_lengths, inv_state], hints=inv_mask_hints), (I_, 1): LoopSpec([turning("x")]), (I_, 2): LoopSpec([turning("y")])})
    for dtype in ("int32", "int64"):
        yield dict(label="peano_hilbert_keys", fn=wrapper_contract, cfg=dict(what="keys", dtype=dtype), cfgname=dtype, contracts={B: keys_handler}, loopspecs={(MOD + ".peano_hilbert_keys", 0): LoopSpec([done(["key"])])})
    yield dict(label="peano_hilbert_key_inverses", fn=wrapper_contract, cfg=dict(what="inverses", dtype="int64"), cfgname="int64", contracts={I_: inverses_handler}, loopspecs={(MOD + ".peano_hilbert_key_inverses", 0): LoopSpec([done(["x", "y", "z"])])})
    yield dict(label="peano_hilbert_keys_from_coords", fn=wrapper_contract, cfg=dict(what="coords", dtype="float64"), cfgname="float64", contracts={B: keys_handler}, loopspecs={(MOD + ".peano_hilbert_keys_from_coords", 0): LoopSpec([done(["key"])])})
