"""Verification context: assumptions, obligations, paths, journals of changed storage"""
import z3, time, os
from terms import *


class PathEnd(Exception):
    """This path is infeasible, or ends here on purpose"""


def term_size(e, limit=200):
    n = 0; st = [e]
    while st and n < limit:
        x = st.pop(); n += 1
        if z3.is_quantifier(x): return limit
        st.extend(x.children())
    return n


_multi = z3.MultiPattern
def MultiPattern(*terms):
    """A pattern which remembers its terms"""
    p = _multi(*terms); p.terms = list(terms)
    return p
z3.MultiPattern = MultiPattern


def pattern_terms(ps):
    """The terms which have to be present for an instance (of the first pattern)"""
    p = ps[0]
    return p.terms if isinstance(p, z3.PatternRef) else [p]


class Obligation:
    __slots__ = ("name", "where", "nfacts", "local", "goal", "kind", "status", "reason", "model", "secs", "func", "cfg", "facts", "hints", "extra", "ctx")
    def __init__(self, **k):
        for a in self.__slots__: setattr(self, a, k.get(a))


class Ctx:
    QUICK = 60000           # resource limit of the checks made while exploring paths
    def __init__(self):
        self.facts = [TIMES_AXIOM]           # closed formulas
        self.binders = []         # [(constant, range)]
        self.guards = []
        self.obligations = []
        self.decisions = []; self.pos = 0; self.pending = []
        self.globals = set()
        self.journals = []
        self.reads = None         # list of (cell, idx) while a loop body is being summarised
        self.sums = {}
        self.defs = {}            # name -> (variables, body): symbols which abbreviate a term
        self.where = ""
        self.func = ""
        self.cfg = ""
        self.notes = set()
        self.used = set()         # names of trusted contracts used
        self.solver_s = 0.0
        self.sum_candidates = []
        self.covers = []
        self.counter = 0
        self.world = None
        self.merge_depth = 0
        self.local_fork = False
        self.heads = []; self.element_hints = None; self.hints = []
        self.path = []; self.path_terms = []
        self.allow_errors = False; self.on_guarded_error = None
        self.quiet = 0            # >0 while a loop body is only being explored

    # --- symbols
    def name(self, base):
        self.counter += 1
        return "%s.%d" % (base, self.counter)

    def const(self, base, sort=Int):
        """A constant which has the same value on all ranks and in all iterations"""
        c = z3.Const(self.name(base), sort)
        self.globals.add(c.get_id()); self._keep = getattr(self, "_keep", []); self._keep.append(c)
        return c

    def fresh_fn(self, base, nargs, sort=Int, argsort=Int):
        """Unknown function of nargs arguments and of the ranks/iterations in scope"""
        bs = [b for b, _ in self.binders]
        if nargs + len(bs) == 0:
            c = self.const(base, sort)
            return lambda: c
        f = z3.Function(self.name(base), *([Int] * len(bs) + [argsort] * nargs + [sort]))
        return lambda *a: f(*(bs + [t(x) for x in a]))

    def fresh(self, base, sort=Int):
        return self.fresh_fn(base, 0, sort)()

    # --- assumptions
    def closed(self, body, vs=(), patterns=()):
        body = implies(land(*self.guards), body) if self.guards else body
        rng = []; vv = []
        for b, r in self.binders:
            if is_sym(body) and contains(body, b) or any(contains(x, b) for x in vv):
                vv.append(b); rng.append(r)
        # drop the binders which do not occur, unless their range could be empty
        rest = [exists([b], r) for b, r in self.binders if not any(b.eq(x) for x in vv) and not getattr(b, "_nonempty", False) and self.maybe_empty(b)]
        body = implies(land(*(rng + rest)), body)
        vs = vv + list(vs)
        if patterns and not all(any(contains(e, x) for e in pattern_terms(patterns)) for x in vs): patterns = ()
        return forall(vs, body, patterns)

    def maybe_empty(self, b):
        return self.world is None or not b.eq(self.world.me)

    def fact(self, body, vs=(), patterns=()):
        f = self.closed(body, vs, patterns)
        f = lit(f)
        if conc(f):
            if not f: raise PathEnd()
            return
        self.facts.append(f)

    def local(self):
        return [r for _, r in self.binders] + [g for g in self.guards if is_sym(g)]

    # --- obligations
    def prove(self, goal, name, hints=()):
        if self.quiet: return
        goal = lit(goal)
        if conc(goal) and goal:
            goal = z3.BoolVal(True)
        self.obligations.append(Obligation(name="%s: %s" % (self.func, name), where=self.where, nfacts=len(self.facts), local=list(self.local()),
                                           goal=t(goal), func=self.func, cfg=self.cfg, facts=self.facts, hints=[t(h) for h in list(hints) + list(self.hints) if not conc(lit(h))], extra=[], ctx=self))

    def require(self, goal, name, hints=()):
        """Prove, then use"""
        goal = lit(goal)
        if conc(goal) and goal: return
        self.prove(goal, name, hints)
        self.fact(goal)

    def quick(self, goal, limit=None):
        """True if the solver can show the goal at once"""
        goal = lit(goal)
        if conc(goal): return bool(goal)
        s = z3.SimplifySolver() if False else z3.Solver()
        s.set("rlimit", limit or self.QUICK); s.set("smt.mbqi", False)          # no timeout: timer threads do not survive a fork
        s.add(*self.facts); s.add(*self.local()); s.add(z3.Not(goal))
        t0 = time.time(); r = s.check(); self.solver_s += time.time() - t0
        return r == z3.unsat

    def qf_quick(self, goal):
        """As quick, but without the quantified assumptions"""
        goal = lit(goal)
        if conc(goal): return bool(goal)
        s = z3.Solver(); s.set("rlimit", 200000)
        s.add(*[f for f in self.facts if not z3.is_quantifier(f)]); s.add(*self.local()); s.add(z3.Not(goal))
        t0 = time.time(); r = s.check(); self.solver_s += time.time() - t0
        return r == z3.unsat

    def decide(self, c):
        """True/False if the condition is known here, otherwise None"""
        c = lit(c)
        if conc(c): return bool(c)
        c2 = z3.simplify(c)
        if z3.is_true(c2): return True
        if z3.is_false(c2): return False
        if self.qf_quick(c): return True
        if self.qf_quick(z3.Not(c)): return False
        if self.quick(c): return True
        if self.quick(z3.Not(c)): return False
        return None

    def choose(self, c=None, n=2):
        """Fork: which alternative this path takes"""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = 0
            self.decisions.append(0)
            for k in range(1, n): self.pending.append(self.decisions[:-1] + [k])
        self.pos += 1
        if c is not None:
            self.guards.append(c if d == 0 else lnot(c))
        return d

    def fork(self, c):
        """Follow both outcomes of a condition which is the same everywhere, as separate paths"""
        key = c.sexpr()
        neg_key = lnot(c).sexpr() if is_sym(lnot(c)) else ""
        for k, v in self.path:
            if k == key: return v
            if k == neg_key: return not v
        if self.pos < len(self.decisions): d = self.decisions[self.pos]
        else:
            d = 0
            self.decisions.append(0); self.pending.append(self.decisions[:-1] + [1])
        self.pos += 1
        self.path.append((key, d == 0))
        g, self.guards = self.guards, []
        try: self.fact(c if d == 0 else lnot(c))
        finally: self.guards = g
        self.path_terms.append(c if d == 0 else lnot(c))
        return d == 0

    def induct(self, name, P, lo, hi, pats=None, vs=(), cond=True, hints=None):
        """For all lo <= k <= hi: P(k), by induction.  vs: further constants (subject to cond) it is generalised over.
        hints(k): instances of facts already established.  Returns a function giving instances of the result."""
        k = fresh_int("k")
        some, below, upto = (True, True, True) if hi is None else (le(lo, hi), lt(k, hi), le(k, hi))
        self.prove(implies(land(cond, some), P(lo)), "lemma %s: base" % name, hints=[t(h) for h in (hints(lo) if hints else ()) if not conc(h)])
        self.prove(implies(land(cond, le(lo, k), below, P(k)), P(add_(k, 1))), "lemma %s: step" % name, hints=[t(h) for h in (hints(k) if hints else ()) if not conc(h)])
        body = implies(land(cond, le(lo, k), upto), P(k))
        self.fact(body, list(vs) + [k], pats(k) if pats else ())
        def inst(kk, *vals): return subst(t(body), (k, kk), *zip(vs, vals))
        return inst

    def lemma(self, goal, name, vs=(), pats=(), hints=()):
        self.prove(goal, "lemma " + name, hints=[t(h) for h in hints if not conc(h)]); self.fact(goal, vs, pats)

    def step(self, f, k, n):
        """The partial sum up to k+1 is the one up to k, plus f(k)"""
        return implies(ge(k, 0), eq(self.psum(f, add_(k, 1), n), add_(self.psum(f, k, n), f(k))))

    def nonneg(self, f, k, n):
        """Partial sums of summands which are not negative are not negative (instance of a lemma already proved; nothing if it was not)"""
        S = self.psum(f, k, n)
        if not (is_sym(S) and z3.is_app(S) and getattr(self, "sum_info", {}).get(S.decl().name())): return True
        return implies(land(le(0, k), le(k, n)), ge(S, 0))

    def mono(self, f, j, k, n):
        """Partial sums of such summands do not decrease (instance of the same lemma)"""
        a, b = self.psum(f, j, n), self.psum(f, k, n)
        if not (is_sym(b) and z3.is_app(b) and getattr(self, "sum_info", {}).get(b.decl().name())): return True
        return implies(land(le(0, j), lt(j, k), le(k, n)), le(add_(a, f(j)), b))

    # --- storage
    def touch(self, obj, snapshot):
        for j in self.journals:
            if id(obj) not in j: j[id(obj)] = (obj, snapshot())

    def write(self, cell, fn):
        self.touch(cell, lambda: cell.fn)
        cell.fn = fn

    def unfold(self, fs, limit=400):
        """Instances of the definitions of the abbreviations which occur in the formulas"""
        out, seen, todo = [], set(), [f for f in fs if is_sym(f)]
        while todo and len(out) < limit:
            st = [todo.pop()]
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_quantifier(x): continue
                if z3.is_app(x):
                    d = self.defs.get(x.decl().name()) if x.num_args() else None
                    if d is not None:
                        body = z3.substitute(d[1], *[(v, a) for v, a in zip(d[0], x.children())])
                        out.append(x == body); todo.append(body)
                    st.extend(x.children())
        return out

    def ground_proves(self, goal, hints=()):
        """The goal follows from the assumptions without quantifiers, the hints and the definitions"""
        goal = lit(goal)
        if conc(goal): return bool(goal)
        s = z3.Solver(); s.set("rlimit", 400000)
        fs = self.local() + [t(h) for h in hints if not conc(lit(h))] + [z3.Not(goal)]
        s.add(*[f for f in self.facts if not z3.is_quantifier(f)]); s.add(*fs); s.add(*self.unfold(fs))
        t0 = time.time(); r = s.check(); self.solver_s += time.time() - t0
        return r == z3.unsat

    # --- names for large terms
    def named(self, f, nargs=1, base="def", limit=12):
        """f, or a function symbol defined to be equal to it if its terms are large"""
        ds = [z3.Int("_e%d" % i) for i in range(nargs)]
        body = f(*ds)
        if not is_sym(body): return f
        body = z3.simplify(body)
        if term_size(body) <= limit: return f
        params = [c for c in consts_in(body) if not any(c.eq(d) for d in ds) and c.get_id() not in self.globals and c.sort() == Int]
        body = canonical(body, params, ds)
        params = [c for c in consts_in(body) if not any(c.eq(d) for d in ds) and c.get_id() not in self.globals and c.sort() == Int]
        if any(c.get_id() not in self.globals and c.sort() != Int for c in consts_in(body)): return f
        canon = [z3.Int("_p%d" % i) for i in range(len(params))]
        key = z3.substitute(body, *[(p, q) for p, q in zip(params, canon)]) if params else body
        sig = key.sexpr()
        names = self.names_ = getattr(self, "names_", {})
        if sig not in names:
            D = z3.Function(self.name(base), *([Int] * (len(params) + nargs) + [body.sort()]))
            names[sig] = D
            self.facts.append(z3.ForAll(canon + ds, D(*(canon + ds)) == key, patterns=[D(*(canon + ds))]))
            self.defs[D.name()] = (canon + ds, key)
        D = names[sig]
        return lambda *i: D(*(list(params) + [t(x) for x in i]))

    # --- sums
    def psum(self, f, upto, n=None):
        """Sum of f(j) over 0 <= j < upto, for summands with 0 <= j < n"""
        d = fresh_int("d")
        body = f(d)
        body = t(body, Int) if is_int(body) or is_boolish(body) else t(body)
        body = z3.simplify(body)
        if not contains(body, d):
            return mul(upto, body)
        if term_size(body) > 12:
            g = self.named(lambda x: z3.substitute(body, (d, t(x))), 1, "summand")
            body = g(d)
        params = [c for c in consts_in(body) if not c.eq(d) and c.get_id() not in self.globals and c.sort() == Int]
        body = canonical(body, params, [d])
        params = [c for c in consts_in(body) if not c.eq(d) and c.get_id() not in self.globals and c.sort() == Int]
        canon = [z3.Int("_p%d" % i) for i in range(len(params))]
        cd = z3.Int("_d")
        key = z3.substitute(body, *([(p, q) for p, q in zip(params, canon)] + [(d, cd)]))
        sig = key.sexpr()
        if sig not in self.sums:
            F = z3.Function(self.name("SUM"), *([Int] * (len(params) + 1) + [body.sort()]))
            self.sums[sig] = (F, key, canon, cd)
            base = F(*canon, t(0)) == 0
            self.facts.append(z3.ForAll(canon, base) if canon else base)
            if n is not None:
                cd1 = z3.Int("_d1")
                self.facts.append(z3.ForAll(canon + [cd], z3.Implies(cd >= 0, F(*canon, cd + 1) == F(*canon, cd) + key), patterns=[F(*canon, cd + 1)]))
                self.sum_lemmas(F, key, canon, cd, n, params)
        F = self.sums[sig][0]
        if getattr(self, "close_at_use", False) and F.name() in getattr(self, "closed_at", {}):
            # the proved closed form at this place, where the quantified one has no usable trigger
            h = self.closed_at.pop(F.name()); self.instances = getattr(self, "instances", []); self.instances.append(h)
            self.fact(h(t(upto)), [], [])
        return F(*params, t(upto))

    def sum_lemmas(self, F, key, canon, cd, n, params):
        """Facts about a sum, each proved by induction before it is used"""
        sub = [(q, p) for p, q in zip(params, canon)]
        fd = lambda j: z3.substitute(key, *(sub + [(cd, t(j))]))
        S = lambda k: F(*params, t(k))
        ranges = [r for b, r in self.binders]
        n = t(n)
        j = fresh_int("j"); k = fresh_int("k")
        pr = [b for b, _ in self.binders]
        # parameters which are not ranks or loop counters in scope stay arbitrary: quantify over them
        free = [p for p in params if not any(p.eq(b) for b in pr)]
        def add(body, vs, pats=()):
            f = self.closed(body, list(free) + list(vs), pats) if free else self.closed(body, vs, pats)
            if is_sym(f): self.facts.append(f)
        self.sum_info = getattr(self, "sum_info", {})
        hs = [t(x) for x in getattr(self, "summand_hints", lambda j: [])(j) if not conc(lit(x))]
        positive = z3.Implies(z3.And(0 <= j, j < n), fd(j) >= 0)
        nonneg = bool(hs) and self.ground_proves(positive, hs) or self.quick(positive)
        if nonneg and body_sort_num(key):
            self.prove(positive, "summands are not negative (monotone partial sums)", hints=hs)
            add(z3.Implies(z3.And(0 <= j, j <= n), S(j) >= 0), [j], [S(j)])
            add(z3.Implies(z3.And(0 <= j, j < k, k <= n), S(j) + fd(j) <= S(k)), [j, k], [z3.MultiPattern(S(j), S(k))])
            self.sum_info[F.name()] = True
        self.this_sum = S
        for cand in self.sum_candidates:
            try: c = cand(self, params, fd, n)
            except Exception as e:
                c = None
                if os.environ.get("VP_DBG"): print("CAND", F.name(), "ERR", type(e).__name__, e)
            if c is None: continue
            g0 = eq(c(z3.IntVal(0)), 0)
            g1 = z3.Implies(z3.And(0 <= j, j < n), t(eq(c(j + 1), add_(c(j), fd(j)))))
            h0 = getattr(c, "hints", lambda j: [])
            h = [t(x) for x in h0(j) if not conc(lit(x))] + [t(x) for x in h0(z3.IntVal(0)) if not conc(lit(x))]
            if os.environ.get("VP_DBG"): print("CAND", F.name(), str(key)[:80].replace("\n", " "), self.ground_proves(g0, h), self.ground_proves(g1, h), self.quick(g0), self.quick(g1, 400000))
            if (self.ground_proves(g0, h) or self.quick(g0)) and (self.ground_proves(g1, h) or self.quick(g1, 400000)):
                self.prove(g0, "closed form of a sum: base", hints=h); self.prove(g1, "closed form of a sum: step", hints=h)
                add(z3.Implies(z3.And(0 <= j, j <= n), S(j) == t(c(j))), [j], [S(j)])
                self.closed_forms = getattr(self, "closed_forms", 0) + 1
                self.closed_at = getattr(self, "closed_at", {}); self.closed_at[F.name()] = lambda k, S=S, c=c, n=n, here=list(self.local()): implies(land(le(0, k), le(k, n), *here), S(k) == t(c(k)))


def add_(a, b):
    from terms import add as _a
    return _a(a, b)


def body_sort_num(key):
    return key.sort() in (Int, Real)
