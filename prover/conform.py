"""The library contracts against the real numpy (bounded, random arguments).

A library contract is a set of axioms about the result of a call.  Here the call
is made symbolically, exactly as the prover makes it, and on real numpy with
random small arguments; the axioms, instantiated at all small indexes, must be
satisfiable together with the values numpy returned.  A contract which says
something numpy does not do is refuted.  With --exact it is also reported which
contracts do not determine the result (incompleteness is no error)."""
import sys, itertools, random, time
sys.setrecursionlimit(20000)
import numpy as np, z3
import verify
from verify import *
from arr import SArr


def expand(f, win):
    """Quantifiers over integers replaced by all values of a window"""
    if z3.is_quantifier(f):
        if f.is_lambda(): return f
        n = f.num_vars()
        sorts = [f.var_sort(i) for i in range(n)]
        if any(s != z3.IntSort() for s in sorts): return z3.BoolVal(True)
        parts = [expand(z3.substitute_vars(f.body(), *reversed([z3.IntVal(v) for v in vs])), win) for vs in itertools.product(win, repeat=n)]
        return z3.And(*parts) if f.is_forall() else z3.Or(*parts)
    if z3.is_app(f) and f.num_args() and z3.is_bool(f):
        return f.decl()(*[expand(c, win) for c in f.children()])
    return f


def symbolic(np_, call, args):
    """(facts, result) of the call with symbolic arguments tied to the values"""
    terms_reset()
    ctx, I = verify.build(False)
    v = V(ctx, I, False); v.label = "conform"
    ties = []; sargs = []
    for a in args:
        if isinstance(a, np.ndarray):
            shape = [v.int("n", lo=0) for _ in a.shape]
            s = v.array("a", shape, a.dtype if a.dtype.kind != "f" else np.dtype(float))
            ties += [t(p) == q for p, q in zip(shape, a.shape)]
            for i in np.ndindex(*a.shape):
                x = a[i].item()
                ties.append(t(s.get(*[z3.IntVal(j) for j in i])) == (z3.RealVal(x) if a.dtype.kind == "f" else x))
            sargs.append(s)
        else: sargs.append(a)
    if ties: ctx.facts += ties
    r = call(I.np, *sargs)
    return ctx, r


def check(name, sym, real, args, exact=False):
    want = real(*args)
    want = want if isinstance(want, tuple) else (want,)
    ctx, got = symbolic(name, sym, args)
    got = got if isinstance(got, tuple) else (got,)
    n = max([max(a.shape or (1,)) for a in args if isinstance(a, np.ndarray)] + [max(np.shape(w) or (1,)) for w in want])
    win = range(-1, n + 2)
    s = z3.Solver(); s.set("timeout", 20000)
    eqs = []
    def val(x): return z3.RealVal(float(x)) if isinstance(x, (float, np.floating)) else z3.BoolVal(bool(x)) if isinstance(x, (bool, np.bool_)) else z3.IntVal(int(x))
    for g, w in zip(got, want):
        w = np.asarray(w)
        if isinstance(g, SArr):
            assert len(g.shape) == w.ndim, (name, g.shape, w.shape)
            eqs += [t(p) == q for p, q in zip(g.shape, w.shape)]
            for i in np.ndindex(*w.shape): eqs.append(t(g.get(*[z3.IntVal(j) for j in i])) == val(w[i]))
        else: eqs.append(t(g) == val(w[()]))
    # the contracts of sums are applied where the prover asks for them
    for F in ctx.facts: s.add(expand(F, win))
    r0 = s.check()
    s.push(); s.add(*eqs); r1 = s.check(); s.pop()
    if r0 == z3.unsat or r1 == z3.unsat: return "REFUTED" if r0 != z3.unsat else "INCONSISTENT"
    if exact:
        s.add(z3.Not(z3.And(*eqs))); return "exact" if s.check() == z3.unsat else "loose"
    return "ok"


def cases(rng):
    def ints(n, lo=-3, hi=4): return rng.integers(lo, hi, size=n)
    def bools(n): return rng.integers(0, 2, size=n).astype(bool)
    n = int(rng.integers(0, 5)); m = int(rng.integers(0, 4)); k = n + 1
    a, b = ints(n), ints(m)
    asc = np.sort(ints(n)); mask = bools(n)
    yield "argsort stable", lambda N, x: N.f_argsort(x, kind="stable"), lambda x: np.argsort(x, kind="stable"), [a]
    yield "argsort", lambda N, x: N.f_argsort(x), lambda x: np.argsort(x), [a]
    yield "lexsort", lambda N, x, y: N.f_lexsort((x, y)), lambda x, y: np.lexsort((x, y)), [a, ints(n)]
    yield "sort", lambda N, x: N.f_sort(x), np.sort, [a]
    for side in ("left", "right"):
        yield "searchsorted " + side, lambda N, x, y, s=side: N.f_searchsorted(x, y, side=s), lambda x, y, s=side: np.searchsorted(x, y, side=s), [asc, b]
    yield "boolean indexing", lambda N, x, y: N.getitem(x, y), lambda x, y: x[y], [a, mask]
    yield "nonzero", lambda N, y: N.f_nonzero(y), np.nonzero, [mask]
    yield "flatnonzero", lambda N, y: N.f_flatnonzero(y), np.flatnonzero, [mask]
    yield "repeat", lambda N, x, r: N.f_repeat(x, r), np.repeat, [a, ints(n, 0, 3)]
    yield "repeat scalar", lambda N, x: N.f_repeat(x, 2), lambda x: np.repeat(x, 2), [a]
    yield "unique", lambda N, x: N.f_unique(x), np.unique, [a]
    yield "unique inverse", lambda N, x: N.f_unique(x, return_index=True, return_inverse=True), lambda x: np.unique(x, return_index=True, return_inverse=True), [a]
    yield "concatenate", lambda N, x, y: N.f_concatenate((x, y)), lambda x, y: np.concatenate((x, y)), [a, b]
    yield "where", lambda N, c, x, y: N.f_where(c, x, y), np.where, [mask, a, ints(n)]
    yield "clip", lambda N, x: N.f_clip(x, 0, 2), lambda x: np.clip(x, 0, 2), [a]
    yield "cumsum", lambda N, x: N.f_cumsum(x), np.cumsum, [a]
    yield "sum", lambda N, x: N.f_sum(x), np.sum, [a]
    yield "diff", lambda N, x: N.f_diff(x), np.diff, [ints(n + 1)]
    yield "any", lambda N, x: N.f_any(x), np.any, [mask]
    yield "all", lambda N, x: N.f_all(x), np.all, [mask]
    yield "count_nonzero", lambda N, x: N.f_count_nonzero(x), np.count_nonzero, [mask]
    yield "amin", lambda N, x: N.f_amin(x), np.amin, [ints(n + 1)]
    yield "amax", lambda N, x: N.f_amax(x), np.amax, [ints(n + 1)]
    yield "array_equal", lambda N, x, y: N.f_array_equal(x, y), np.array_equal, [a, ints(n, 0, 2)]
    if n: yield "integer indexing", lambda N, x, y: N.getitem(x, y), lambda x, y: x[y], [a, ints(m, 0, n)]
    yield "slicing", lambda N, x: N.getitem(x, slice(1, -1)), lambda x: x[1:-1], [a]
    yield "reversed", lambda N, x: N.getitem(x, slice(None, None, -1)), lambda x: x[::-1], [a]
    yield "floor division", lambda N, x: N.binary("FloorDiv", x, 3), lambda x: x // 3, [a]
    yield "modulo", lambda N, x: N.binary("Mod", x, 3), lambda x: x % 3, [a]
    A = rng.integers(0, 5, size=(n, 2))
    yield "ravel", lambda N, x: N.reshape(N.getitem(x, (slice(None), slice(0, 2))), ((-1,),)) , lambda x: x.reshape(-1), [A]
    yield "transpose", lambda N, x: N.copy(N.transpose(x)), lambda x: x.T.copy(), [A]
    yield "rows", lambda N, x, y: N.getitem(x, y), lambda x, y: x[y], [A, mask]
    if n:
        idx = ints(m + 1, 0, n)
        yield "add.reduceat", lambda N, x, i: N.reduceat("add", x, i), lambda x, i: np.add.reduceat(x, i), [a, idx]
        d = np.unique(idx)
        def assign(N, x, i, y): x = N.copy(x); N.setitem(x, i, y); return x
        def rassign(x, i, y): x = x.copy(); x[i] = y; return x
        yield "indexed assignment", assign, rassign, [a, d, ints(len(d))]
    def massign(N, x, i): x = N.copy(x); N.setitem(x, i, 7); return x
    def rmassign(x, i): x = x.copy(); x[i] = 7; return x
    yield "masked assignment", massign, rmassign, [a, mask]
    def sassign(N, x, y): x = N.copy(x); N.setitem(x, slice(1, 3), y); return x
    def rsassign(x, y): x = x.copy(); x[1:3] = y; return x
    yield "slice assignment", sassign, rsassign, [a, 9]


if __name__ == "__main__":
    rng = np.random.default_rng(int(sys.argv[1]) if len(sys.argv) > 1 and sys.argv[1].isdigit() else 1)
    t0 = time.time(); count = {}; bad = 0; skipped = {}
    for rnd in range(6):
        for name, sym, real, args in cases(rng):
            try: r = check(name, sym, real, args, "--exact" in sys.argv)
            except (Unsupported, PyRaise, PathEnd) as e: skipped[name] = str(e); continue
            count[name] = count.get(name, []) + [r]
            if r in ("REFUTED", "INCONSISTENT"): print(r, name, args); bad += 1
    for name in sorted(count): print("%-24s %s" % (name, {x: count[name].count(x) for x in sorted(set(count[name]))}))
    for name in skipped: print("skipped", name, skipped[name][:100])
    print("contracts", len(count), "refuted", bad, "%.0f s" % (time.time() - t0))
    sys.exit(1 if bad else 0)
