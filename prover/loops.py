"""
Loops with an unknown number of iterations.

The state at the head of iteration k is given by functions of k which are
defined by what one execution of the body does to it: an exact recurrence.
Sums and element-by-element assignments are put into closed form; anything
else needs an invariant from the sidecar specification, which is proved at
entry and preserved by the body before it is used.
"""
import ast, os, z3
from terms import *
from arr import *
from interp import *


def assigned_names(stmts):
    out = []
    for s in stmts:
        for n in preorder(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out: out.append(n.id)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)): raise Unsupported("definition in a loop")
    return out


def has_break(stmts):
    for s in stmts:
        if isinstance(s, ast.Break): return True
        if isinstance(s, (ast.For, ast.While)): continue
        for fld in ("body", "orelse", "finalbody", "handlers"):
            sub = getattr(s, fld, None)
            if sub and has_break([x for x in sub if isinstance(x, ast.stmt)] + [y for x in sub if isinstance(x, ast.ExceptHandler) for y in x.body]): return True
    return False


def reduces(test):
    """The condition of a loop uses the result of a collective reduction"""
    return any(isinstance(x, ast.Attribute) and x.attr in ("allreduce", "bcast", "allgather") for x in ast.walk(test))


class State:
    """Values at the head of iteration k, for invariants"""
    def __init__(self, I, f, k, n, env): self.I, self.f, self.k, self.n, self.env = I, f, k, n, env
    def __getitem__(self, name):
        if name not in self.env: raise Unsupported("invariant refers to %s, which is not there" % name)
        return self.I.resolve(self.env[name])
    def entry(self, name): return self.f.entry[name]
    def before(self, name): return self.f.before[name]


def run_for(I, node, f, n, item):
    return run(I, node, f, n, item)


def run_while(I, node, f):
    return run(I, node, f, None, None)


def run(I, node, f, n, item):
    """Contents of the variables before the loop are kept for the invariants"""
    old = getattr(f, "before", None)
    f.before = {x: v.freeze() if isinstance(v, SArr) else v for x, v in f.l.items()}
    try: return run_loop(I, node, f, n, item)
    finally: f.before = old


def run_loop(I, node, f, n, item):
    ctx = I.ctx
    where = ctx.where
    is_for = n is not None
    if has_break(node.body): raise Unsupported("break in a loop of unknown length")
    num = I.loop_number(f, node)
    key = (f.key, num) if hasattr(f, "key") else None
    spec = I.loopspecs.get(key)
    if spec: I.bound_loops.add(key)
    targets = []
    if is_for:
        targets = [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)]
    body_names = [x for x in assigned_names(node.body) if x not in targets]
    test_names = assigned_names([ast.Expr(node.test)]) if not is_for else []
    carried = [x for x in body_names + test_names if x in f.l]
    fresh_locals = [x for x in body_names + targets + test_names if x not in f.l]

    k = fresh_int("k"); ctx._keep = getattr(ctx, "_keep", []) + [k]
    if is_for:
        rng = z3.And(0 <= k, k < t(n)); last = t(n)
    elif spec and getattr(spec, "count", None):
        # the number of iterations is given: proved to be right, which also shows termination
        n = spec.count(State(I, f, 0, None, f.l))
        ctx.prove(ge(n, 0), "loop %s: number of iterations" % num, hints=spec_hints(spec, I, f, 0, n))
        rng = z3.And(0 <= k, k < t(n)); last = t(n)
    else:
        # with a condition which is the same on all ranks (shown below), so is the number of iterations
        same = ctx.world is not None and (reduces(node.test) or bool(spec and spec.same))
        K = ctx.const("iterations") if same else ctx.fresh_fn("iterations", 0)()
        ctx.fact(K >= 0)
        rng = z3.And(0 <= k, k < K); last = K
        n = K
    counted = not is_for and bool(spec and getattr(spec, "count", None))

    # with an invariant, what is learnt in the body holds for the iterations up to kcur: induction over kcur
    kcur = None
    if spec and spec.inv:
        kcur = ctx.const("kcur")
        rng = z3.And(rng, k <= kcur)
    outer_env = dict(f.l)
    # state functions
    state = {}           # name -> function of k
    cells = {}           # id -> (cell, S)

    def scalar_sort(v):
        if is_boolish(v): return Bool
        if is_int(v): return Int
        if is_num(v): return Real
        if is_sym(v): return v.sort()
        return None

    def make_cell_state(cell, nidx):
        S = ctx.fresh_fn("S_" + cell.name, 1 + nidx, cell.sort)
        return S

    def nidx_of(cell):
        return getattr(cell, "nidx", None)

    def execute(havoc_names, havoc_cells, quiet, invs):
        """One iteration from the generic state; returns environment after it and the journal"""
        nfacts, nobl = len(ctx.facts), len(ctx.obligations)
        sums = dict(ctx.sums) if quiet and getattr(ctx, "fresh_sums", False) else None
        j = {}
        ctx.journals.append(j)
        ctx.binders.append((k, rng))
        if quiet: ctx.quiet += 1
        head = None
        old_hints, old_heads = ctx.hints, ctx.heads
        try:
            f.l.clear(); f.l.update(outer_env)
            for x, fn in havoc_names.items(): f.l[x] = fn(k)
            for cell, S in havoc_cells.values():
                ctx.touch(cell, lambda c=cell: c.fn)
                cell.fn = (lambda *i, S=S: S(k, *i))
            head = dict(f.l)
            head_cells = {cid: cell.fn for cid, (cell, S) in havoc_cells.items()}
            heads = [inv(State(I, f, k, n, f.l)) for inv in invs]
            for g in heads: assume(ctx, g)
            head_ranks = spec.ranks(State(I, f, k, n, f.l)) if spec and getattr(spec, "ranks", None) else []
            here = land(*[r for b, r in ctx.binders])
            if not quiet:
                ctx.hints = ctx.hints + [t(implies(here, h)) for h in heads if not isinstance(h, All) and is_sym(h)]
                ctx.heads = old_heads + [(h.vs, [t(implies(here, h.body))] + hints_of(h)) for h in heads if isinstance(h, All) and h.vs]
            if not is_for:
                c = lit(I.truth(I.ev(node.test, f)))
                if not counted and same and is_sym(c) and contains(c, ctx.world.me):
                    q = fresh_int("q")
                    ctx.prove(z3.Implies(z3.And(0 <= q, q < ctx.world.P), c == ctx.world.on(c, q)), "loop %s: the condition is the same on all ranks" % num)
                if counted: ctx.prove(c, "loop %s: the condition is true until then" % num, hints=spec_hints(spec, I, f, k, n))
                ctx.fact(c)
                cond = c
            else:
                cond = None
                I.assign(node.target, item(k), f)
            st = I.block(node.body, f, True)
            if isinstance(st, tuple): raise Unsupported("return inside a loop of unknown length")
            env = dict(f.l)
            news = {}
            for oid, (obj, old) in j.items(): news[oid] = (obj, old, snapshot(obj))
            # the invariants at the head of the next iteration
            if not quiet:
                for i, inv in enumerate(invs):
                    g = inv(State(I, f, add(k, 1), n, f.l))
                    ctx.prove(implies(eq(k, kcur), goal_of(g)), "loop %s invariant %d is preserved" % (num, i + 1), hints=spec_hints(spec, I, f, k, n) + hints_of(g) + hypotheses(ctx, heads, g, here, head_ranks))
        finally:
            ctx.binders.pop(); ctx.journals.pop()
            ctx.hints, ctx.heads = old_hints, old_heads
            if quiet: ctx.quiet -= 1
            for oid, (obj, old) in j.items(): restore(obj, old)
            f.l.clear(); f.l.update(outer_env)
            if quiet:
                del ctx.facts[nfacts:]; del ctx.obligations[nobl:]
                if sums is not None: ctx.sums = sums        # their definitions are gone with the facts
        return env, news, cond, head

    # --- find out what the body changes
    invs = []
    if spec and spec.inv: invs = [lambda st, g=g: g(st) for g in (spec.inv if isinstance(spec.inv, (list, tuple)) else [spec.inv])]
    born = Cell.count[0]
    for attempt in range(6):
        env, news, cond, head = execute(state, cells, True, [])
        again = False
        for x in carried:
            if x in state: continue
            v0, v1 = outer_env.get(x), env.get(x, Poison("deleted"))
            if v1 is v0: continue
            if conc(v0) and conc(v1) and type(v0) == type(v1) and not has_sym(v0) and not has_sym(v1) and not isinstance(v0, (list, dict)):
                try:
                    if bool(v0 == v1): continue
                except Exception: pass
            if is_sym(v0) and is_sym(v1) and v0.eq(v1): continue
            v0r = v0
            so = scalar_sort(v0r) if not isinstance(v0r, (SArr, Choice, Poison)) else None
            so1 = scalar_sort(v1) if not isinstance(v1, (SArr, Choice, Poison)) else None
            if so == Int and so1 == Real: so = Real
            if so is None or so1 is None:
                if isinstance(v0, SArr) and isinstance(v1, SArr) and v0.ndim == 1 and v0.sort == v1.sort:
                    fs = ctx.fresh_fn("A_" + x, 2, v0.sort); fl = ctx.fresh_fn("L_" + x, 1)
                    proto = v0
                    state[x] = (lambda kk, fs=fs, fl=fl, p=proto: SArr(lambda i: fs(kk, i), [fl(kk)], p.dtype, pylist=p.pylist, name="loopvar"))
                    state[x].array = (fs, fl); state[x].dtype = v0.dtype; again = True; continue
                if isinstance(v0, Choice) or isinstance(v1, Choice) or v0 is None or v1 is None:
                    try:
                        (c0, f0), (c1, f1) = opt_split(v0), opt_split(v1)
                        form = f1 if f0 is None else f0
                        if form is not None and (f0 is None or f1 is None or same_form(f0, f1)):
                            state[x] = Opt(I, x, form); again = True; continue
                    except Unsupported: pass
                # a value which is not used from one iteration to the next
                state[x] = (lambda kk, x=x: Poison("%s is carried through the loop" % x)); state[x].dead = True
                again = True; continue
            fn = ctx.fresh_fn("X_" + x, 1, so)
            state[x] = fn if False else Scal(fn, so)
            again = True
        for oid, (obj, old, now) in news.items():
            if oid in cells: continue
            if isinstance(obj, Cell) and obj.id > born: continue          # made in this iteration
            if isinstance(obj, Cell):
                ni = cell_arity(I, obj, outer_env, env)
                cells[oid] = (obj, ctx.fresh_fn("S_" + obj.name, 1 + ni, obj.sort)); obj.nidx = ni
                again = True
            elif isinstance(obj, list) and list_append_only(obj, old, now):
                pass
            elif getattr(obj, "loop_ok", False): pass
            elif old == now if isinstance(obj, (dict, list)) and not has_sym(old) and not has_sym(now) else False: pass
            else: raise Unsupported("%s changed in a loop of unknown length" % type(obj).__name__)
        if os.environ.get('VP_DBG'): print('settle', where, attempt, list(state), [c[0].name for c in cells.values()], flush=True)
        if not again: break
    else: raise Unsupported("loop state does not settle")

    nobl0 = len(ctx.obligations)
    # --- invariants hold at entry
    for i, inv in enumerate(invs):
        g = inv(State(I, f, 0, n, f.l))
        ctx.prove(goal_of(g), "loop %s invariant %d holds at entry" % (num, i + 1), hints=spec_hints(spec, I, f, 0, n) + hints_of(g))

    # --- one generic iteration
    if not is_for:
        ctx.while_cond = None
    env, news, cond, head = execute(state, cells, False, invs)
    ctx.where = where

    nobl1, nfacts1 = len(ctx.obligations), len(ctx.facts)
    # --- definitions of the state functions
    syms = [s for s in state.values()]
    ctx.binders.append((k, rng))
    defs = []
    closed_names = {}
    try:
        for x, X in state.items():
            if getattr(X, "dead", False): continue
            v1 = env.get(x, Poison("deleted"))
            if isinstance(X, Opt): continue
            if getattr(X, "array", None):
                if not isinstance(v1, SArr) or v1.dtype != X.dtype: raise Unsupported("%s changes type in a loop" % x)
                continue
            v1 = I.resolve(v1) if isinstance(v1, (Choice, Poison)) else v1
            if isinstance(v1, (Choice, Poison, SArr)) or not (is_num(v1) or is_boolish(v1) or is_sym(v1)): raise Unsupported("%s changes type in a loop" % x)
            cur = X(k)
            v1t = t(v1, X.sort)
            if X.sort in (Int, Real):
                inc = z3.simplify(v1t - cur)
                if not mentions_state(inc, state, cells):
                    closed_names[x] = ("sum", inc)
                    continue
            if not mentions_state(v1t, state, cells):
                closed_names[x] = ("last", v1t); continue
            closed_names[x] = ("rec", v1t)
    finally: ctx.binders.pop()

    def closed_scalar(x, X, kind, term):
        init = outer_env[x]
        if kind == "sum":
            def val(kk):
                s = ctx.psum(lambda d: z3.substitute(term, (k, t(d))), kk, n)
                return add(init, s)
            return val
        if kind == "last":
            return lambda kk: ite(gt(kk, 0), z3.substitute(term, (k, t(sub(kk, 1)))), t(init, X.sort))
        return None

    final = {}
    for x, X in state.items():
        if getattr(X, "dead", False): continue
        if isinstance(X, Opt):
            final[x] = X(last)
            for at, v, mark in ((t(0), outer_env[x], True), (k + 1, env[x], ctx_marker(ctx, k))):
                c, val = opt_split(v)
                if mark is not True: ctx.binders.append((k, rng))
                try:
                    ctx.fact(implies(mark, eq(X.there(at), t(c))), (), [] if mark is True else [mark])
                    if val is not None:
                        for fn, y in zip(X.leaves, opt_leaves(val)): ctx.fact(implies(land(mark, c), eq(fn(at), y)), (), [] if mark is True else [mark])
                finally:
                    if mark is not True: ctx.binders.pop()
            continue
        if getattr(X, "array", None):
            fs, fl = X.array
            v0 = I.resolve(outer_env[x])
            j = fresh_int("j")
            ctx.fact(eq(fl(t(0)), v0.shape[0])); ctx.fact(eq(fs(t(0), j), v0.get(j)), [j], [fs(t(0), j)])
            v1 = env[x]
            ctx.binders.append((k, rng))
            try:
                mark = ctx_marker(ctx, k)
                ctx.fact(implies(mark, eq(fl(k + 1), v1.shape[0])), (), ())
                ctx.fact(implies(mark, eq(fs(k + 1, j), v1.get(j))), [j], [z3.MultiPattern(mark, fs(k + 1, j))] if False else ())
            finally: ctx.binders.pop()
            final[x] = X(last)
            continue
        kind, term = closed_names[x]
        cf = closed_scalar(x, X, kind, term)
        if cf is not None:
            # replace the state function by its closed form wherever it was used
            kk = fresh_int("k")
            ctx.fact(implies(land(le(0, kk), le(kk, n)), eq(X(kk), t(cf(kk), X.sort))), [kk], [X(kk)])
            final[x] = cf(last)
            # also as a plain value if the result is concrete
        else:
            ctx.fact(eq(X(t(0)), t(outer_env[x], X.sort)))
            ctx.binders.append((k, rng))
            try: ctx.fact(eq(X(k + 1), term), (), [X(k + 1)] if False else [X(k)] if spec is None else [ctx_marker(ctx, k)])
            finally: ctx.binders.pop()
            final[x] = X(last)

    newfn = {}
    for oid, (cell, S) in cells.items():
        ni = cell.nidx
        init = cell.fn
        d = [fresh_int("d") for _ in range(ni)]
        now = news[oid][2](*d) if oid in news else S(k, *d)
        now = t(now, cell.sort)
        at_k = None
        ctx.binders.append((k, rng))
        try:
            # only the element with index k changes in iteration k
            for axis in range(ni):
                g = z3.simplify(z3.Implies(d[axis] != k, now == S(k, *d)))
                if z3.is_true(g) or ctx.qf_quick(g) or ctx.quick(g):
                    at_k = axis; break
            if at_k is None:
                # nothing but rows of iteration k (general case): same for all iterations
                g = z3.Implies(z3.And(*[x == y for x, y in zip(d, d)]), now == S(k, *d))
        finally: ctx.binders.pop()
        if at_k is not None:
            # proof obligation for what was just used
            ctx.binders.append((k, rng))
            ctx.prove(z3.Implies(d[at_k] != k, now == S(k, *d)), "loop %s changes only element k of %s in iteration k" % (num, cell.name))
            ctx.binders.pop()
            e = [k if i == at_k else x for i, x in enumerate(d)]
            val = z3.substitute(now, (d[at_k], k))
            val = z3.simplify(val)
            init_k = t(init(*e), cell.sort)
            val = replace_app(val, S, k, e, init_k)
            # the content seen inside iteration k at index i>=k is the initial content
            kk = fresh_int("k")
            ii = [fresh_int("i") for _ in range(ni)]
            if not mentions(val, S) and not mentions_state(val, {a: b for a, b in state.items() if a not in ()}, {c: v for c, v in cells.items() if c != oid}, closed_names):
                fin = cached(lambda *i, val=val, init=init, a=at_k, d=d: ite(land(le(0, i[a]), lt(i[a], n)),
                             z3.substitute(val, (k, t(i[a])), *[(x, t(y)) for b, (x, y) in enumerate(zip(d, i)) if b != a]), init(*i)))
                part = lambda kk, *i: ite(land(le(0, i[at_k]), lt(i[at_k], kk)),
                             z3.substitute(val, (k, t(i[at_k])), *[(x, t(y)) for b, (x, y) in enumerate(zip(d, i)) if b != at_k]), init(*i))
            else:
                V = ctx.fresh_fn("V_" + cell.name, ni, cell.sort)
                ctx.binders.append((k, rng))
                try: ctx.fact(eq(V(*e), val), [x for b, x in enumerate(d) if b != at_k], [V(*e)])
                finally: ctx.binders.pop()
                fin = lambda *i, V=V, init=init, a=at_k: ite(land(le(0, i[a]), lt(i[a], n)), V(*i), init(*i))
                part = lambda kk, *i, V=V: ite(land(le(0, i[at_k]), lt(i[at_k], kk)), V(*i), init(*i))
            # state function in terms of the final values, where it was used
            if any(mentions(fct, S) for fct in ctx.facts) or any(mentions(o.goal, S) for o in ctx.obligations):
                ctx.fact(implies(land(le(0, kk), le(kk, n)), eq(S(kk, *ii), part(kk, *ii))), [kk] + ii, [S(kk, *ii)])
            newfn[oid] = (cell, fin)
        else:
            j = d
            ctx.fact(eq(S(t(0), *j), init(*j)), j, [S(t(0), *j)])
            ctx.binders.append((k, rng))
            try: ctx.fact(eq(S(k + 1, *j), now), j, [S(k + 1, *j)] if False else [z3.MultiPattern(ctx_marker(ctx, k), S(k, *j))])
            finally: ctx.binders.pop()
            newfn[oid] = (cell, lambda *i, S=S: S(last, *i))
    # what the iterations do is determined by the ones before: the definitions may be used inside the body
    for o in ctx.obligations[nobl0:nobl1]: o.extra = o.extra + ctx.facts[nfacts1:]
    if kcur is not None: ctx.fact(ge(kcur, sub(n, 1)))
    for cell, fn in newfn.values(): ctx.write(cell, fn)

    # --- after the loop
    for x in fresh_locals: f.l[x] = Poison("%s after a loop which may not have been executed" % x)
    for x, X in state.items():
        f.l[x] = Poison("%s is carried through the loop" % x) if getattr(X, "dead", False) else final[x]
    for oid, (obj, old, now) in news.items():
        if isinstance(obj, list): finish_list(I, obj, old, now, k, n, f)
    if invs:
        kk = fresh_int("k")
        # invariants hold at the head of every iteration and at the end
        fin_env = dict(f.l)
        for inv in invs:
            g = inv(State(I, f, n, n, f.l))
            assume(ctx, g)
            if isinstance(g, All) and not ctx.quiet: ctx.loop_ends = getattr(ctx, "loop_ends", []) + [(g.vs, t(implies(land(*ctx.local()), g.body)))]
    if not is_for:
        c = lit(I.truth(I.ev(node.test, f)))
        if counted: ctx.prove(lnot(c), "loop %s: the condition is false then" % num, hints=spec_hints(spec, I, f, n, n))
        ctx.fact(lnot(c))
        if not ctx.quiet and is_sym(c): ctx.loop_exits = getattr(ctx, "loop_exits", []) + [t(implies(land(*ctx.local()), lnot(c)))]
        if not counted: ctx.notes.add("termination of the while loop at %s is not proved" % where)
    if spec and getattr(spec, "after", None): spec.after(State(I, f, n, n, f.l))
    return NORMAL


class Opt:
    """State of a variable which may be None, or else has a value of one form: a number, a type, or a tuple of these"""
    def __init__(self, I, name, form):
        self.I, self.form = I, form
        self.there = I.ctx.fresh_fn("there_" + name, 1, Bool)
        self.leaves = [I.ctx.fresh_fn("X_%s_%d" % (name, i), 1, x.sort()) for i, x in enumerate(opt_leaves(form))]
    def __call__(self, k):
        k = t(k)
        return Choice(self.there(k), opt_build(self.form, [x(k) for x in self.leaves]), None)


def opt_split(v):
    """(condition that it is there, value), for values which are None under some condition"""
    if v is None: return False, None
    if isinstance(v, Choice):
        (ca, va), (cb, vb) = opt_split(v.a), opt_split(v.b)
        c = ite(v.c, t(ca), t(cb)) if not (conc(ca) and conc(cb)) else lor(land(v.c, ca), land(lnot(v.c), cb))
        if va is None: return c, vb
        if vb is None: return c, va
        if not same_form(va, vb): raise Unsupported("a variable with values of different kinds")
        return c, opt_build(va, [ite(v.c, x, y) for x, y in zip(opt_leaves(va), opt_leaves(vb))])
    opt_leaves(v)
    return True, v


def opt_leaves(v):
    if isinstance(v, (tuple, list)): return [x for y in v for x in opt_leaves(y)]
    if isinstance(v, SDtype): return [t(v.term)] if getattr(v, "term", None) is not None else []
    if is_num(v) or is_boolish(v) or is_sym(v): return [t(v)]
    raise Unsupported("value of type %s in a loop" % type(v).__name__)


def same_form(a, b):
    if isinstance(a, (tuple, list)): return type(a) == type(b) and len(a) == len(b) and all(same_form(x, y) for x, y in zip(a, b))
    if isinstance(a, SDtype): return isinstance(b, SDtype) and (getattr(a, "term", None) is None) == (getattr(b, "term", None) is None) and (getattr(a, "term", None) is not None or a is b)
    return not isinstance(b, (tuple, list, SDtype)) and t(a).sort() == t(b).sort()


def opt_build(form, leaves):
    it = iter(leaves)
    def go(v):
        if isinstance(v, (tuple, list)): return type(v)(go(x) for x in v)
        if isinstance(v, SDtype):
            if getattr(v, "term", None) is None: return v
            import mpimodel
            return mpimodel.SDtypeAt(v, next(it))
        return next(it)
    return go(form)


class LoopSpec:
    """Invariants of a loop, by function and number; count: number of iterations of a while loop; hints: facts which may help; same: the condition of a while loop is the same on all ranks (to be shown)"""
    def __init__(self, inv=(), count=None, hints=None, after=None, ranks=None, same=False): self.inv, self.count, self.hints, self.after, self.ranks, self.same = list(inv), count, hints, after, ranks, same


class All:
    """For all vs: body; an invariant with instances of facts which help to prove it"""
    def __init__(self, vs, body, pats=(), hints=()): self.vs, self.body, self.pats, self.hints = vs, body, pats, hints


def goal_of(g): return g.body if isinstance(g, All) else g
def hints_of(g): return [t(x) for x in g.hints if not conc(lit(x))] if isinstance(g, All) else []
def assume(ctx, g):
    if isinstance(g, All): ctx.fact(g.body, g.vs, g.pats)
    else: ctx.fact(g)


def hypotheses(ctx, heads, g, here, ranks):
    """Instances of the induction hypothesis: at the constants of the goal, and on other ranks"""
    out = []
    for h in heads:
        if isinstance(h, All):
            if isinstance(g, All) and len(g.vs) == len(h.vs):
                b = z3.substitute(t(h.body), *[(x, t(y)) for x, y in zip(h.vs, g.vs)])
                out += [z3.substitute(x, *[(a, t(y)) for a, y in zip(h.vs, g.vs)]) for x in hints_of(h)] if h.vs else []
            else: continue
        else: b = t(h)
        b = t(implies(here, b))
        out += [b] + [ctx.world.on(b, q) for q in ranks]
    return [x for x in out if not conc(lit(x))]


def spec_hints(spec, I, f, k, n):
    h = spec.hints(State(I, f, k, n, f.l)) if spec and getattr(spec, "hints", None) else []
    return [t(x) for x in h if not conc(lit(x))]


class Scal:
    def __init__(self, fn, sort): self.fn, self.sort = fn, sort
    def __call__(self, k): return self.fn(t(k))


def app_decl(X):
    """Function symbol behind a state function"""
    if isinstance(X, Scal): return X.fn(z3.Int("__probe")).decl()
    return None


def mentions_decl(e, decls):
    if not is_sym(e): return False
    seen = set(); stack = [e]
    names = {d.name() for d in decls}
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x) and x.decl().name() in names: return True
        stack.extend(x.children())
    return False


def s_decl(S, nidx):
    return S(*([z3.Int("__probe")] * (1 + nidx))).decl()


def mentions(e, S):
    for n in range(0, 6):
        try: d = S(*([z3.Int("__probe")] * (1 + n))).decl(); break
        except Exception: continue
    return mentions_decl(e, [d])


def mentions_state(e, state, cells, closed=None):
    ds = []
    for x, X in state.items():
        if closed and closed.get(x, ("",))[0] in ("sum", "last"): continue
        if isinstance(X, Scal): ds.append(app_decl(X))
        elif isinstance(X, Opt): ds += [f(z3.Int("__probe")).decl() for f in [X.there] + X.leaves]
        elif getattr(X, "array", None): ds += [X.array[1](z3.Int("__probe")).decl(), X.array[0](z3.Int("__probe"), z3.Int("__probe")).decl()]
    for cell, S in cells.values(): ds.append(s_decl(S, cell.nidx))
    return mentions_decl(e, ds)


def replace_app(e, S, k, idx, val):
    """S(k, idx) -> val"""
    app = S(k, *idx)
    return z3.simplify(z3.substitute(e, (app, val))) if is_sym(e) else e


def ctx_marker(ctx, k):
    """Uninterpreted marker which controls where a recurrence is unfolded"""
    M = z3.Function("unfold", Int, Bool)
    return M(k)


def cell_arity(I, cell, *envs):
    if getattr(cell, "ndim", None) is not None: return cell.ndim
    raise Unsupported("array of unknown rank changed in a loop")


def list_append_only(obj, old, now):
    return len(now) >= len(old) and all(a is b for a, b in zip(old, now))


def finish_list(I, obj, old, now, k, n, f):
    m = len(now) - len(old)
    if m == 0: return
    import mpimodel
    if all(isinstance(x, (mpimodel.Request, mpimodel.RequestGroup)) for x in now[len(old):]):
        I.ctx.touch(obj, lambda: list(obj))
        obj[:] = list(old) + [mpimodel.RequestGroup(list(now[len(old):]))]
        return
    if len(old) == 0 and m == 1 and not isinstance(now[0], (SArr, list, tuple, dict)) and (is_num(now[0]) or is_boolish(now[0])):
        v = now[0]
        body = t(v)
        new = I.np.list_from(n, lambda i: z3.substitute(body, (k, t(i))) if is_sym(body) else body, body.sort())
        hit = [x for x, y in f.l.items() if y is obj]
        if not hit: raise Unsupported("list built in a loop of unknown length")
        for x in hit: f.l[x] = new
        return
    raise Unsupported("list built in a loop of unknown length")
