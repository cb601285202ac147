"""Set-up of a verification: one function, one configuration, all paths"""
import time, sys, os, z3, traceback
from terms import *
from arr import *
from ctx import *
from interp import *
from npmodel import *
import mpimodel, interp


class Result:
    def __init__(self):
        self.obligations = []; self.undecided = []; self.functions = set(); self.assumed = set(); self.used = set(); self.notes = set(); self.paths = 0; self.loops = set()
        self.probes = []


class V:
    """What a contract uses to state assumptions and goals on one path"""
    def __init__(self, ctx, I, spmd):
        self.ctx, self.I, self.np = ctx, I, I.np
        self.comm = I.comm if spmd else None
        if spmd: self.me, self.P = ctx.world.me, ctx.world.P

    def int(self, name, local=True, lo=None):
        """Unknown integer; local=True: may differ between ranks"""
        x = self.ctx.fresh(name) if local else self.uniform(name)
        if lo is not None: self.ctx.fact(ge(x, lo))
        return x
    def uniform(self, name, sort=Int):
        return self.ctx.const(name, sort)
    def bool(self, name, local=False):
        return self.ctx.fresh(name, Bool) if local else self.uniform(name, Bool)
    def real(self, name): return self.ctx.const(name, Real)
    def array(self, name, shape, dtype, local=True, contig=True):
        bs = self.ctx.binders
        if not local: self.ctx.binders = []
        try: a = self.np.fresh_array(name, shape, dtype)
        finally: self.ctx.binders = bs
        a.contig = contig
        return a
    def assume(self, f, vs=(), pats=()): self.ctx.fact(f, vs, pats)
    def fresh(self, name="i"): return fresh_int(name)
    def on(self, x, q): return self.ctx.world.on(x, q)
    def arr_on(self, a, q): return mpimodel.other_array(self.comm, a, q)
    def call(self, mod, qual, *a, **k):
        """Call the function under verification"""
        fn = self.I.get_function(mod, qual)
        self.ctx.allow_errors = self.expect_errors
        try: return self.I.call_func(fn, list(a), k, top=True)
        finally: pass
    def ensure(self, goal, name, hints=()):
        self.ctx.where = "postcondition"
        self.ctx.func = self.label
        self.ctx.prove(goal, name, hints)
    def ensure_all(self, vs, cond, goal, name, hints=()):
        """Goal for arbitrary vs (already fresh constants)"""
        self.ensure(implies(cond, goal), name, hints)
    def lemma(self, goal, name, vs=(), pats=()):
        """Prove a fact and use it.  vs: constants it is generalised over"""
        self.ctx.where = "lemma"; self.ctx.func = self.label
        self.ctx.prove(goal, "lemma: " + name)
        self.ctx.fact(goal, vs, pats)
    def unchanged(self, a, before, name):
        """The array still has the contents it had"""
        if a.cell.fn is before: 
            self.ensure(True, name); return
        idx = [fresh_int("i") for _ in range(a.cell.ndim)]
        self.ensure(eq(a.cell.fn(*idx), before(*idx)), name)


def build(spmd):
    ctx = Ctx()
    I = Interp(ctx, {})
    npm = NP(I)
    models = I.models
    models["builtins"] = builtins_model(I)
    models["numpy"] = npm.ns
    import native_models
    native_models.install(I, models)
    if spmd:
        w = mpimodel.World(ctx)
        I.comm, m4, mpi = mpimodel.mpi_module(I, w)
        models["mpi4py"] = m4; models["mpi4py.MPI"] = mpi
    else:
        I.comm = None
        models["mpi4py"] = Namespace("mpi4py", MPI=Namespace("mpi4py.MPI"))
    return ctx, I


def run_contract(label, fn, cfg, spmd=False, contracts=(), loopspecs=None, expect_errors=False, max_paths=200, on_error=None, cfgname=None):
    """Explore all paths of fn(V, cfg); returns a Result"""
    res = Result()
    pending = [[]]
    while pending:
        dec = pending.pop()
        terms_reset()
        ctx, I = build(spmd)
        ctx.cfg = cfgname or str(cfg)
        ctx.decisions = list(dec)
        for name, h in dict(contracts).items(): I.contracts[name] = h
        I.loopspecs = dict(loopspecs or {})
        v = V(ctx, I, spmd); v.label = label; v.expect_errors = expect_errors
        res.paths += 1
        if res.paths > max_paths:
            res.undecided.append("%s %s: too many paths" % (label, cfgname)); break
        try:
            fn(v, cfg)
            ctx.probe_facts = len(ctx.facts)
            res.probes.append(dict(ctx=ctx, label=label, cfg=ctx.cfg, path=list(ctx.path), decisions=list(ctx.decisions)))
        except PathEnd: pass
        except GuardedEnd: pass
        except PyRaise as e:
            if expect_errors and on_error is not None: on_error(v, e)
            else:
                ctx.func = label
                ctx.prove(False, "no exception is raised (%s)" % e)
        except Unsupported as e:
            res.undecided.append("%s [%s]: %s" % (label, ctx.cfg, e))
        except RecursionError as e:
            res.undecided.append("%s [%s]: recursion limit" % (label, ctx.cfg))
        pending.extend(ctx.pending)
        tag = "".join("TF"[d] if d < 2 else str(d) for d in ctx.decisions)
        for o in ctx.obligations:
            o.cfg = ctx.cfg + ("/" + tag if tag else "")
        res.obligations += ctx.obligations
        res.functions |= I.calls; res.assumed |= I.assumed_calls; res.used |= ctx.used; res.notes |= ctx.notes
        for key in I.loopspecs:
            if key in I.bound_loops: res.loops.add(key)
    for key in (loopspecs or {}):
        if key not in res.loops: res.undecided.append("%s [%s]: no loop for the invariant of %s" % (label, cfgname, key))
    return res


def terms_reset():
    import terms
    terms._n[0] = 0


FAST = os.environ.get('VP_FAST')
SHALLOW = [("shallow e-matching %d" % d, {"smt.mbqi": False, "smt.qi.eager_threshold": float(d), "smt.qi.lazy_threshold": float(d)}) for d in (2, 4, 6)]
CONFIGS = [("e-matching", {"smt.mbqi": False}), ("e-matching, simplex", {"smt.mbqi": False, "smt.arith.solver": 2, "smt.random_seed": 7}),
           ("model based instantiation", {"smt.mbqi": True}), ("e-matching, relevancy 0", {"smt.mbqi": False, "smt.relevancy": 0, "smt.random_seed": 3}),
           ("e-matching, simplex, second seed", {"smt.mbqi": False, "smt.arith.solver": 2, "smt.random_seed": 11})]


def has_quant(f, _memo={}):
    st = [f]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False


def solve(o, rounds=((1000000, 5000), (6000000, 20000), (30000000, 60000)), budget=float(os.environ.get("VP_OBL", "45"))):
    """Status of one obligation: the same query in several solver configurations, with increasing limits"""
    t0 = time.time()
    if FAST: rounds = rounds[:int(FAST)]
    goal = z3.simplify(o.goal)
    if z3.is_true(goal): return "proved", "simplification", time.time() - t0, None
    facts = o.facts[:o.nfacts] + o.extra
    neg = z3.Not(goal)
    reasons = {}
    definite = set()
    s = z3.Solver(); s.set("rlimit", 2000000); s.set("timeout", 5000)
    g = list(o.local) + list(o.hints) + [neg]
    s.add(*[f for f in facts if not has_quant(f)]); s.add(*g); s.add(*o.ctx.unfold(g))
    if s.check() == z3.unsat: return "proved", "z3 ground", time.time() - t0, None
    for name, opts in SHALLOW:
        s = z3.Solver(); s.set("rlimit", 2000000); s.set("timeout", 6000)
        for a, b in opts.items(): s.set(a, b)
        s.add(*facts); s.add(*o.local); s.add(*o.hints); s.add(neg)
        if s.check() == z3.unsat: return "proved", "z3 " + name, time.time() - t0, None
    for rlimit, timeout in rounds:
        for name, opts in CONFIGS:
            if name in definite or time.time() - t0 > budget: continue
            s = z3.Solver()
            s.set("rlimit", rlimit); s.set("timeout", timeout)
            for a, b in opts.items(): s.set(a, b)
            s.add(*facts); s.add(*o.local); s.add(*o.hints); s.add(neg)
            try: r = s.check()
            except z3.Z3Exception as e: reasons[name] = str(e); continue
            if r == z3.unsat: return "proved", "z3 " + name, time.time() - t0, None
            if r == z3.sat: return "failed", "countermodel", time.time() - t0, str(s.model())[:2000]
            reasons[name] = s.reason_unknown()
            if "incomplete" in reasons[name]: definite.add(name)
    first = reasons.get("e-matching", "")
    # saturation without a contradiction: the obligation does not follow from what is known
    return ("failed" if "e-matching" in definite and "e-matching, simplex" in definite else "timeout"), first, time.time() - t0, None
