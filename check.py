#!/usr/bin/env python3
"""
check.py PROPERTY: decides one property of /repo's current working tree.

1. The contracts of the property (prover/contracts/<id>.py) are verified
   against the source of /repo as it is now: every verification condition is
   generated from the syntax tree of the real functions and discharged by an
   SMT solver.
2. The same contracts are evaluated at run time on the real code (bounded/).

Exit 0 or 1; see DESIGN.md for what counts as a violation.
"""
import sys, os, json, time, subprocess, signal, shutil, tempfile, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
PROVER_PY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
NPROC = 8
GENERAL = ["machine integers are mathematical integers", "floating point arithmetic is arithmetic of the reals; products and quotients of unknown values are uninterpreted",
           "library functions behave as their contracts in prover/npmodel.py and prover/mpimodel.py say (trusted_base lists those used)",
           "loops of unknown length and while loops are not proved to terminate", "the prover's translation of the Python syntax tree (prover/interp.py, loops.py) is sound"]
HANG = 60           # no progress of any kind for this many seconds
sys.path.insert(0, os.path.join(HERE, "tools"))


def env():
    e = dict(os.environ)
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_mpi_yield_when_idle="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", HDF5_USE_FILE_LOCKING="FALSE",
             VERIF_REPO=REPO, PYTHONHASHSEED="0")
    e.pop("PYTHONPATH", None)
    return e


class Proc:
    def __init__(self, cmd, log, cwd):
        self.log = open(log, "wb")
        self.p = subprocess.Popen(cmd, stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env(), cwd=cwd, start_new_session=True)
        self.logname = log
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGTERM)
        except ProcessLookupError: pass
        try: self.p.wait(5)
        except subprocess.TimeoutExpired: pass
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.p.wait(); self.log.close()
    def tail(self, n=3000):
        try: return open(self.logname, "rb").read()[-n:].decode(errors="replace")
        except OSError: return ""


def read_json(path):
    try:
        with open(path) as f: return json.load(f)
    except (OSError, ValueError):
        return None


def heartbeat(path):
    try: return json.loads(open(path).readline())
    except (OSError, ValueError): return None


class Bounded:
    """Runs the run time contract checks of one property"""
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        src = open(os.path.join(HERE, "bounded", prop.lower() + ".py")).read()
        self.mpi = "MPI_PROPERTY = True" in src
        self.budget = {"quick": 25, "thorough": 240}[tier]

    def base_cmd(self, out):
        return [PY, os.path.join(HERE, "bounded", "harness.py"), self.prop, out, "--tier", self.tier, "--seed", str(self.seed)]

    def launch(self, tag, only=None):
        """Start; returns list of (process, result files, heartbeat files)"""
        out = os.path.join(self.tmp, tag)
        extra = ["--only", json.dumps(only)] if only is not None else []
        if self.mpi:
            cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(NPROC)] + self.base_cmd(out) + extra
            return [(Proc(cmd, out + ".log", self.tmp), [out + ".%d" % r for r in range(NPROC)], [out + ".hb.%d" % r for r in range(NPROC)])]
        if only is not None:
            return [(Proc(self.base_cmd(out) + extra, out + ".log", self.tmp), [out], [out + ".hb"])]
        return [(Proc(self.base_cmd(out + ".%d" % k) + ["--shard", str(k), "--nshard", str(NPROC)], out + ".%d.log" % k, self.tmp),
                 [out + ".%d" % k], [out + ".%d.hb" % k]) for k in range(NPROC)]

    def wait(self, jobs, limit, hang):
        """Wait for all; returns the jobs that made no progress (killed) and the ones that crashed"""
        t0 = time.time(); last = {}; hung, crashed = [], []
        left = list(jobs)
        while left:
            time.sleep(0.05)
            for job in list(left):
                p, res, hbs = job
                rc = p.p.poll()
                if rc is not None:
                    left.remove(job); p.kill()
                    if rc != 0: crashed.append((job, rc))
                    continue
                sig = tuple(os.path.getmtime(h) if os.path.exists(h) else 0 for h in hbs)
                if last.get(id(job), (None,))[0] != sig: last[id(job)] = (sig, time.time())
                if time.time() - last[id(job)][1] > hang or time.time() - t0 > limit:
                    left.remove(job); hung.append(job); p.kill()
        return hung, crashed

    def run(self):
        r = dict(evaluations=0, distinct=set(), samples=[], fails=[], undecided=[], wall=0)
        t0 = time.time()
        for attempt in (0, 1):
            jobs = self.launch("run%d" % attempt)
            hung, crashed = self.wait(jobs, self.budget + 150, HANG)
            started = any(os.path.exists(h) and heartbeat(h) for _, _, hbs in jobs for h in hbs)
            if started or not (hung or crashed): break
        reports = [read_json(f) for _, res, _ in jobs for f in res]
        for rep in reports:
            if rep is None: continue
            r["evaluations"] += rep["n"]; r["distinct"] |= set(rep["distinct"]); r["fails"] += rep["fails"]
            if len(r["samples"]) < 6: r["samples"] += rep["samples"][:2]
        if not started and (hung or crashed):
            r["undecided"].append("run time checks could not be started: " + jobs[0][0].tail(1500))
        # No failing case reported, but a process ended abnormally or made no progress: find the case and confirm
        if started and not r["fails"] and (hung or crashed):
            job = hung[0] if hung else crashed[0][0]
            what = "makes no progress" if hung else "ended abnormally (status %s)" % crashed[0][1]
            cases = [heartbeat(h) for h in job[2] if os.path.exists(h)]
            cases = [tuple(c[:3]) for c in cases if c]
            # the ranks which are furthest behind are in the case that does not finish
            order = {"fixed": 0, "rand": 1}
            for c in sorted(set(cases), key=lambda c: (order[c[0]], c[1]))[:2]:
                bad = None
                for k in range(2):
                    j2 = self.launch("again%d_%s_%s" % (k, c[0], c[1]), only=list(c[:2]))
                    h2, c2 = self.wait(j2, 120, 45)
                    rep2 = [x for x in (read_json(f) for _, res, _ in j2 for f in res) if x]
                    f2 = [f for x in rep2 for f in x["fails"]]
                    if f2: bad = f2; break
                    if not (h2 or c2): bad = None; break
                    bad = [dict(prop=self.prop, key=list(c), kind="hang" if h2 else "crash", message="the call " + what + " in this case, every time it is run",
                                input={"case": list(c), "seed": self.seed}, trace=j2[0][0].tail())]
                if bad: r["fails"] += bad; break
            else:
                r["undecided"].append("a process %s, not reproduced by running cases %s alone: %s" % (what, cases[:3], job[0].tail(800)))
        r["wall"] = time.time() - t0
        if r["evaluations"] == 0 and not r["fails"] and not r["undecided"]:
            r["undecided"].append("no case was run")
        return r

    def replay(self, key):
        jobs = self.launch("replay", only=list(key)[:2])
        hung, crashed = self.wait(jobs, 120, 45)
        reports = [x for x in (read_json(f) for _, res, _ in jobs for f in res) if x]
        fails = [f for x in reports for f in x["fails"]]
        return fails, hung, crashed, jobs


def run_prover(prop, tier, tmp, limit):
    mod = os.path.join(HERE, "prover", "contracts", prop.lower() + ".py")
    if not os.path.exists(mod): return None
    out = os.path.join(tmp, "proof.json")
    p = Proc([PROVER_PY, os.path.join(HERE, "prover", "run.py"), prop, "--out", out, "--tier", tier], out + ".log", os.path.join(HERE, "prover"))
    try: p.p.wait(limit)
    except subprocess.TimeoutExpired: pass
    p.kill()
    r = read_json(out)
    if r is None:
        r = dict(obligations=[], undecided=["the prover gave no result: " + p.tail(2000)], functions=[], assumptions=[], wall=0, solver_s=0, probes=[])
    return r


def backends(proof):
    n = {}
    for o in proof["obligations"]:
        if o["status"] == "proved": n[o["reason"]] = n.get(o["reason"], 0) + 1
    return n


def selftest():
    """The tools the checks need are there (nothing has to be built)"""
    for cmd in ([PY, "-c", "import numpy, h5py, mpi4py"], [PROVER_PY, "-c", "import z3"], ["mpirun", "--version"]):
        subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, env=env())
    return 0


def main():
    import argparse
    a = argparse.ArgumentParser()
    if "--selftest" in sys.argv: return selftest()
    a.add_argument("property"); a.add_argument("--replay"); a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--no-bounded", action="store_true"); a.add_argument("--no-proof", action="store_true")
    args = a.parse_args()
    prop = args.property; tier = "thorough" if args.tier == "thorough" else "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vcheck_%s_" % prop)
    os.environ["VERIF_SCRATCH"] = tmp
    try:
        if args.replay:
            rp = json.load(open(args.replay))
            if rp.get("kind") == "obligation":
                print(json.dumps(rp, indent=1)); return 0
            fails, hung, crashed, jobs = Bounded(prop, rp.get("tier", tier), rp.get("seed", seed), tmp).replay(rp["case"])
            print(json.dumps(fails, indent=1) if fails else ("hang" if hung else "crash" if crashed else "the case passes"))
            return 1 if fails or hung or crashed else 0
        return check(prop, tier, seed, tmp, t0, args)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_input(rdir, prop, tier, seed, i, f):
    path = os.path.join(rdir, "%s_%d.json" % (prop, i))
    with open(path, "w") as o:
        json.dump(dict(property=prop, kind="input", tier=tier, seed=seed, case=f["key"], failure=f["kind"], message=f["message"], input=f["input"],
                       trace=f["trace"], command="python3 check.py %s --replay %s" % (prop, path)), o, indent=1)
    return (path, f["message"][:300], True)


def undischarged(proof):
    """
    Obligations which the verifier does not accept. All of them are discharged on the unchanged tree. Code outside the verifier's subset gives no verdict
    (and no obligation) and is reported as undecided. When the source is the one of the recorded proof, a time limit says nothing about the code.
    """
    und = " ".join(proof.get("undecided", []))
    bad = [o for o in proof["obligations"] if o["status"] != "proved" and "%s [%s" % (o["label"], o["cfg"].split("/")[0]) not in und]
    if proof.get("same_source"): bad = [o for o in bad if o["status"] == "failed"]
    return sorted(bad, key=lambda o: (o["status"] != "failed", "lemma" in o["name"] or "invariant" in o["name"]))


def check(prop, tier, seed, tmp, t0, args):
    proof = None if args.no_proof else run_prover(prop, tier, tmp, {"quick": 330, "thorough": 420}[tier])
    b = None
    if not args.no_bounded and os.path.exists(os.path.join(HERE, "bounded", prop.lower() + ".py")):
        b = Bounded(prop, tier, seed, tmp).run()
    violations = []; undecided = []
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "_*.json")): os.unlink(f)
    if b:
        undecided += b["undecided"]
        for i, f in enumerate(b["fails"][:3]): violations.append(write_input(rdir, prop, tier, seed, i, f))
    nob = nok = 0
    if proof:
        obl = proof["obligations"]
        nob = len(obl); nok = sum(o["status"] == "proved" for o in obl)
        undecided += proof.get("undecided", [])
        bad = [o for o in obl if o["status"] != "proved"]
        for o in bad:
            undecided.append("obligation %s [%s, %s]: %s (%s)" % (o["name"], o.get("where"), o["cfg"], o["status"], o.get("reason")))
        alarms = undischarged(proof)
        if (bad or proof.get("undecided")) and not violations and b is not None:
            # look harder for an input which shows it on the real code
            for s2 in (seed + 1000, seed + 2000):
                if time.time() - t0 > 560: break
                more = Bounded(prop, "quick", s2, tmp); more.budget = 60
                r2 = more.run()
                b["evaluations"] += r2["evaluations"]; b["distinct"] |= r2["distinct"]
                if r2["fails"]:
                    seed2 = s2
                    for i, f in enumerate(r2["fails"][:3]): violations.append(write_input(rdir, prop, tier, s2, i, f))
                    break
        for i, o in enumerate(alarms[:3]):
            path = os.path.join(rdir, "%s_ob%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump(dict(property=prop, kind="obligation", obligation=o["name"], function=o["label"], configuration=o["cfg"], where=o.get("where"), verifier_output="%s: %s" % (o["status"], o.get("reason")),
                               countermodel=o.get("model"), command="python3-vt prover/run.py %s -v --only '%s'" % (prop, o["label"]), concrete=[v[0] for v in violations if v[2]]), f, indent=1)
            violations.append((path, "obligation not discharged: %s (%s; %s)" % (o["name"], o.get("where"), o["cfg"]), False))
    level = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in level["checks"] if c["property"] == prop), "other")
    cov = dict()
    if b:
        cov.update(evaluations=b["evaluations"], distinct_nontrivial=len(b["distinct"]), samples=b["samples"] or [{"none": True}],
                   rule="bounded stand-in: inputs generated at random from VERIF_SEED and fixed boundary cases, run on the real code; a case is counted as distinct by its "
                        "feature key (sizes, ranks, types, layouts, modes; see bounded/%s.py), trivial cases return no key" % prop.lower(),
                   bounded_wall_s=round(b["wall"], 2))
    if proof:
        cov.update(obligations=nob, discharged=nok, checker_cmd="python3-vt prover/run.py %s (z3 %s)" % (prop, proof.get("z3", "")), trusted_base=proof.get("used", []),
                   functions_under_contract=proof.get("functions", []), contracts_used_at_calls=proof.get("assumed", []), solver_s=round(proof.get("solver_s", 0), 2),
                   proof_wall_s=round(proof["wall"], 2), backends=backends(proof), paths=proof.get("paths"), configurations=proof.get("tasks"),
                   obligation_names=sorted(set(o["name"] for o in proof["obligations"]))[:400],
                   vacuity=dict(probes=len(proof.get("probes", [])), inconsistent=sum(not p["consistent"] for p in proof.get("probes", []))), modelling_notes=proof.get("notes", []))
    cov["undecided"] = undecided[:20]
    cov["explanation"] = "contracts verified on the real source (obligations/discharged), and the same contracts evaluated at run time as a bounded stand-in (evaluations), never counted as proved"
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=((proof or {}).get("assumptions", []) + (GENERAL if proof else [])), wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    print("%s: %d of %d obligations discharged%s; %d run time cases (%d distinct)" %
          (prop, nok, nob, " in %.1f s" % proof["wall"] if proof else "", b["evaluations"] if b else 0, len(b["distinct"]) if b else 0))
    for u in undecided[:20]: print("UNDECIDED: " + u.strip().replace("\n", " | ")[:600])
    concrete = [v for v in violations if v[2]]
    if concrete:
        for v in concrete: print("  " + v[1].replace("\n", " "))
        print("VIOLATION property=%s replay=%s" % (prop, concrete[0][0]))
        return 1
    if violations:
        for v in violations: print("  " + v[1].replace("\n", " "))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, violations[0][0]))
        return 1
    if b is not None and b["evaluations"] == 0 and nok < max(nob, 1):
        print("ERROR: nothing could be decided"); return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
