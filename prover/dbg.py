"""dbg.py C15 'task filter' 'obligation filter' : list/inspect obligations"""
import sys, importlib, z3, time
sys.setrecursionlimit(20000)
import verify
name, tf, of = sys.argv[1].lower(), sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else ""
mod = importlib.import_module("contracts." + name)
tk = [t for t in mod.tasks() if tf in "%s %s" % (t["label"], t.get("cfgname"))][0]
t0=time.time()
r = verify.run_contract(**tk)
print("explored %.1f" % (time.time()-t0), "paths", r.paths, "undecided", r.undecided[:3])
for o in r.obligations:
    if of and (of in o.name or of in o.cfg):
        verify.FAST = verify.FAST or "10000"
        st = verify.solve(o)
        print(o.name, o.cfg, o.where, st[0], st[1], "%.2f" % st[2])
        if "-f" in sys.argv:
            for f in o.facts[:o.nfacts] + o.extra: print("   F", str(f).replace("\n", " ")[:400])
            print("   L", o.local)
        if "-g" in sys.argv or "-f" in sys.argv: print("   G", str(z3.simplify(o.goal)))
        if "-s" in sys.argv:
            s = z3.Solver(); s.add(*o.facts[:o.nfacts] + o.extra); s.add(*o.local); s.add(z3.Not(o.goal)); open("/tmp/w/o.smt2","w").write(s.to_smt2()); sys.exit()
