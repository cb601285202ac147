"""Verify the contracts of one property: python3-vt run.py C14 [--out FILE] [--tier quick] [--only TEXT] [-v]"""
import pickle, sys, os, json, time, importlib, argparse, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
import verify, interp


SEM = mp.get_context("fork").Semaphore(int(os.environ.get("VP_JOBS", "8")))
BUDGET = float(os.environ.get("VP_BUDGET", "120"))     # seconds after which what is left is only tried briefly
START = time.time()
CHECK_HINTS = "--check-hints" in sys.argv


def forked(fn, *args):
    """Run fn in a forked process; returns a function which waits for its result"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try: out = fn(*args)
            except BaseException as e:
                import traceback
                out = ("error", "%s: %s" % (type(e).__name__, e), traceback.format_exc())
            with os.fdopen(w, "wb") as f: pickle.dump(out, f)
            code = 0
        finally: os._exit(code)
    os.close(w)
    def wait():
        with os.fdopen(r, "rb") as f: data = f.read()
        os.waitpid(pid, 0)
        return pickle.loads(data) if data else ("error", "process ended", "")
    return wait


def solve_some(obls, label, verbose, bad):
    out = []
    for i, o in obls:
        with SEM:
            late = time.time() - START
            kw = {}
            if late > BUDGET: kw = dict(rounds=((1000000, 3000),), budget=4)
            elif bad.value > 6: kw = dict(rounds=((1000000, 5000), (6000000, 15000)), budget=20)
            st, why, secs, model = verify.solve(o, **kw)
        if st != "proved":
            bad.value += 1
        d = dict(name=o.name, where=o.where, cfg=o.cfg, label=label, status=st, reason=why, secs=round(secs, 3))
        if model: d["model"] = model
        if st != "proved" and verbose: d["goal"] = str(o.goal)[:1500]
        out.append((i, d))
    return out


def follows(o, goal, budget=25):
    """The goal follows from what is known at the obligation, without its hints"""
    facts = o.facts[:o.nfacts] + o.extra
    goal = z3.simplify(goal)
    if z3.is_true(goal): return True
    t0 = time.time()
    for name, opts in verify.SHALLOW[1:] + verify.CONFIGS:
        if time.time() - t0 > budget: break
        s = z3.Solver(); s.set("rlimit", 6000000); s.set("timeout", 8000)
        for a, b in opts.items(): s.set(a, b)
        s.add(*facts); s.add(*o.local); s.add(z3.Not(goal))
        if s.check() == z3.unsat: return True
    return False


def match(pat, e, env):
    """e is an instance of the pattern (with de Bruijn variables)"""
    if z3.is_var(pat):
        i = z3.get_var_index(pat)
        if i in env: return env[i].eq(e)
        if pat.sort() != e.sort(): return False
        env[i] = e; return True
    if z3.is_quantifier(pat) or z3.is_quantifier(e): return pat.eq(e)
    return pat.decl().eq(e.decl()) and pat.num_args() == e.num_args() and all(match(a, b, env) for a, b in zip(pat.children(), e.children()))


def instance(o, h):
    """The hint is an instance of a fact or lemma (whose condition holds here)"""
    for f in o.facts[:o.nfacts] + getattr(o.ctx, "lemmas", []):
        if not z3.is_quantifier(f):
            if f.eq(h): return True
            continue
        n = f.num_vars(); b = f.body()
        for cond, con in [(None, b)] + ([(b.arg(0), b.arg(1))] if z3.is_implies(b) else []):
            env = {}
            if not match(con, h, env): continue
            if cond is None: return True
            if len(env) < n:
                # what is left of the condition's variables: only ranks of this one
                continue
            c = z3.substitute_vars(cond, *[env[i] for i in range(n)])
            s = z3.Solver(); s.set("rlimit", 500000); s.set("timeout", 5000); s.add(*o.local); s.add(z3.Not(c))
            if s.check() == z3.unsat: return True
    return False


def check_hints(obls, label):
    """Instances of facts which the contracts add to help the solver: they have to follow from the facts"""
    out, done = [], {}
    for i, o in obls:
        new = [h for h in o.hints if z3.simplify(z3.Implies(z3.And(*o.local), h)).sexpr() not in done] if len(o.hints) else []
        with SEM:
            ok = not new or follows(o, z3.And(*new), 10)
            for h in new:
                r = ok or instance(o, h) or follows(o, h)
                done[z3.simplify(z3.Implies(z3.And(*o.local), h)).sexpr()] = r
                if not r: out.append((i, dict(name=o.name, where=o.where, cfg=o.cfg, label=label, status="timeout", reason="hint", secs=0, goal=str(h)[:1500])))
                else: out.append((i, dict(name=o.name, where=o.where, cfg=o.cfg, label=label, status="proved", reason="hint", secs=0)))
    return out


def probe(p):
    """Vacuity: with all assumptions of a path, False must not be provable"""
    ctx = p["ctx"]
    with SEM:
        s = z3.Solver(); s.set("rlimit", 2000000); s.set("timeout", 10000); s.set("smt.mbqi", False)
        s.add(*ctx.facts); s.add(*ctx.local())
        return dict(cfg=p["cfg"], path=[x for x, _ in p["path"]][:3], consistent=s.check() != z3.unsat)


def explore(task):
    """All paths of one task"""
    name, i, tier, verbose = task
    t0 = time.time()
    with SEM:
        mod = importlib.import_module("contracts." + name)
        tk = list(mod.tasks())[i]
        out = dict(label=tk["label"], cfg=tk.get("cfgname") or str(tk["cfg"]), obligations=[], undecided=[], functions=[], assumed=[], used=[], notes=[], paths=0, probes=[])
        tk.pop("thorough", None)
        try:
            r = verify.run_contract(**tk)
        except Exception as e:
            import traceback
            out["undecided"].append("%s [%s]: internal error %s: %s" % (out["label"], out["cfg"], type(e).__name__, e))
            out["trace"] = traceback.format_exc()
            return out
    out["undecided"] += r.undecided; out["functions"] = sorted(r.functions); out["assumed"] = sorted(r.assumed); out["used"] = sorted(r.used); out["notes"] = sorted(r.notes); out["paths"] = r.paths
    out["explore_s"] = time.time() - t0; out["sources"] = dict(interp.SOURCES)
    bad = mp.get_context("fork").Value("i", 0)
    todo = list(enumerate(r.obligations)); k = min(6, max(1, len(todo) // 12))
    if CHECK_HINTS: waits = [forked(check_hints, todo[x::k], out["label"]) for x in range(k)]
    else: waits = [forked(solve_some, todo[x::k], out["label"], verbose, bad) for x in range(k)]
    pw = [forked(probe, p) for p in r.probes[:12]]
    res = []
    for w in waits:
        x = w()
        if isinstance(x, tuple): out["undecided"].append("%s: %s" % (out["label"], x[1])); out["trace"] = x[2]
        else: res += x
    out["obligations"] = [d for _, d in sorted(res, key=lambda x: x[0])]
    out["probes"] = [x for x in (w() for w in pw) if isinstance(x, dict)]
    out["wall"] = time.time() - t0
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--out"); ap.add_argument("--tier", default="quick"); ap.add_argument("--only"); ap.add_argument("--record", action="store_true"); ap.add_argument("--check-hints", action="store_true"); ap.add_argument("-v", action="count", default=0); ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    name = a.prop.lower()
    mod = importlib.import_module("contracts." + name)
    tasks = [(name, i, a.tier, a.v) for i, tk in enumerate(mod.tasks()) if (a.tier == "thorough" or not tk.get("thorough")) and (not a.only or a.only in "%s %s" % (tk["label"], tk.get("cfgname")))]
    importlib.import_module("contracts." + name)
    results = []
    for w in [forked(explore, x) for x in tasks]:
        r = w()
        if isinstance(r, tuple): r = dict(label="task", cfg="", obligations=[], undecided=["internal error: " + r[1]], functions=[], assumed=[], used=[], notes=[], paths=0, probes=[], trace=r[2])
        results.append(r)
    results.sort(key=lambda r: (r["label"], r["cfg"]))
    obl = [o for r in results for o in r["obligations"]]
    out = dict(property=a.prop, obligations=obl, undecided=[u for r in results for u in r["undecided"]],
               functions=sorted(set(f for r in results for f in r["functions"])), assumed=sorted(set(f for r in results for f in r["assumed"])),
               used=sorted(set(f for r in results for f in r["used"])), notes=sorted(set(f for r in results for f in r["notes"])),
               paths=sum(r["paths"] for r in results), probes=[p for r in results for p in r["probes"]], tasks=len(results),
               wall=time.time() - t0, solver_s=sum(o["secs"] for o in obl), z3=z3.get_version_string(), assumptions=list(getattr(mod, "ASSUMPTIONS", [])))
    out["sources"] = {k: h for r in results for k, h in r.get("sources", {}).items()}
    rec = os.path.join(os.path.dirname(os.path.abspath(__file__)), "recorded.json")
    recorded = json.load(open(rec)) if os.path.exists(rec) else {}
    if a.record and not a.only and not out["undecided"] and all(o["status"] == "proved" for o in obl):
        recorded[a.prop] = out["sources"]; json.dump(recorded, open(rec, "w"), indent=1, sort_keys=True)
    out["same_source"] = recorded.get(a.prop) == out["sources"]
    if a.out: json.dump(out, open(a.out, "w"), indent=1)
    n = {}
    for o in obl: n[o["status"]] = n.get(o["status"], 0) + 1
    if a.v:
        for o in obl:
            if o["status"] != "proved": print("%-8s %s | %s | %s | %s | %.1fs" % (o["status"], o["name"], o["where"], o["cfg"], o["reason"], o["secs"])); print("      goal", o.get("goal", "")[:220 if a.v < 3 else 3000].replace("\n", " "))
        for o in sorted(obl, key=lambda o: -o["secs"])[:12]:
            if o["secs"] > 1.5: print("slow %.1fs %s | %s | %s | %s | %s" % (o["secs"], o["name"], o["where"], o["cfg"], o["status"], o["reason"]))
        for r in results:
            if "trace" in r: print(r["trace"])
            if a.v > 1: print(r["label"], r["cfg"], "explore %.1f" % r.get("explore_s", 0), "wall %.1f" % r.get("wall", 0), "obl", len(r["obligations"]), "paths", r["paths"])
        for p in out["probes"]:
            if not p["consistent"]: print("VACUOUS", p)
    for u in out["undecided"]: print("undecided:", u)
    print(a.prop, "tasks", len(results), "paths", out["paths"], "obligations", len(obl), n, "undecided", len(out["undecided"]), "vacuous", sum(not p["consistent"] for p in out["probes"]), "wall %.1f solver %.1f" % (out["wall"], out["solver_s"]))


if __name__ == "__main__": main()
