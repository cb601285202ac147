"""
Bounded (run time) contract checking of the real code in /repo: the same
pre/postconditions as the deductive part, evaluated on generated inputs.

Serial properties run in several independent processes ("shards"), MPI
properties run under mpirun with the ranks divided into communicators of
different sizes.  Everything is a function of (VERIF_SEED, shard, case number)
so any failing case can be run again alone.
"""
import sys, os, json, time, traceback, tempfile, shutil, itertools
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "python"))
import numpy as np


class Mismatch(Exception):
    pass


def expect(cond, msg="postcondition does not hold", *vals):
    if not cond:
        raise Mismatch(msg + (": " + ", ".join(short(v) for v in vals) if vals else ""))


def short(v, n=400):
    try:
        s = np.array2string(v, threshold=60) if isinstance(v, np.ndarray) else repr(v)
    except Exception:
        s = object.__repr__(v)
    return s if len(s) <= n else s[:n] + "..."


def arr_equal(a, b):
    """Same shape and same values (bitwise for floats with NaN, any layout)"""
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" or a.dtype.kind == "c":
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    return bool(np.all(a == b))


def expect_equal(got, want, what="result", dtype=True):
    got_a = np.asarray(got); want_a = np.asarray(want)
    if got_a.shape != want_a.shape:
        raise Mismatch("%s has shape %s, expected %s" % (what, got_a.shape, want_a.shape))
    if dtype and got_a.dtype.newbyteorder("=") != want_a.dtype.newbyteorder("="):
        raise Mismatch("%s has type %s, expected %s" % (what, got_a.dtype, want_a.dtype))
    if not arr_equal(got_a, want_a):
        raise Mismatch("%s is %s, expected %s" % (what, short(got_a), short(want_a)))


def expect_raises(f, exc=Exception, what="call"):
    try:
        r = f()
    except exc:
        return
    raise Mismatch("%s was accepted, should have been rejected (returned %s)" % (what, short(r)))


def rng_for(*key):
    return np.random.default_rng([int(k) & 0x7fffffff for k in key])


# ---------------------------------------------------------------- poison
class _PoisonMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)
    def __subclasscheck__(cls, x):
        return issubclass(x, np.ndarray)
    def __getattr__(cls, name):
        return getattr(np.ndarray, name)


def _fill(a):
    try:
        if a.dtype.hasobject or a.size == 0:
            return a
        if a.flags.writeable:
            b = a if a.flags.c_contiguous else None
            if b is not None and type(a) is np.ndarray:
                a.view(np.uint8).reshape(-1)[:] = 0xA5 if a.ndim else 0xA5
            elif a.dtype.kind in "iuf":
                a[...] = 77
    except Exception:
        pass
    return a


class PoisonNdarray(metaclass=_PoisonMeta):
    def __new__(cls, *args, **kwargs):
        a = np.ndarray(*args, **kwargs)
        if "buffer" in kwargs or len(args) > 2:
            return a
        return _fill(a)


class PoisonNP:
    """numpy, except that uninitialised memory is filled with a pattern"""
    ndarray = PoisonNdarray
    @staticmethod
    def empty(*a, **k):
        return _fill(np.empty(*a, **k))
    @staticmethod
    def empty_like(*a, **k):
        return _fill(np.empty_like(*a, **k))
    def __getattr__(self, name):
        return getattr(np, name)


def poison(*modules):
    for m in modules:
        if getattr(m, "np", None) is np:
            m.np = PoisonNP()
        else:
            for name in ("empty", "empty_like"):
                if getattr(m, name, None) is getattr(np, name):
                    setattr(m, name, getattr(PoisonNP, name))


# ---------------------------------------------------------------- reporting
class Report:
    def __init__(self, path):
        self.path = path
        self.n = 0
        self.nontrivial = set()
        self.samples = []
        self.fails = []
        self.known = {}
        self.features = {}
        self.t0 = time.time()
    def feature(self, *names):
        for n in names:
            self.features[n] = self.features.get(n, 0) + 1
    def write(self, complete=True):
        out = dict(n=self.n, distinct=sorted(self.nontrivial)[:200000], samples=self.samples[:4], fails=self.fails[:5],
                   features=self.features, wall=time.time() - self.t0, complete=complete)
        with open(self.path + ".tmp", "w") as f:
            json.dump(out, f, default=str)
        os.replace(self.path + ".tmp", self.path)


class Scratch:
    """A scratch directory, removed at exit"""
    def __init__(self):
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.path = tempfile.mkdtemp(prefix="vbounded_", dir=base)
        self.k = 0
    def new(self, suffix=""):
        self.k += 1
        return os.path.join(self.path, "f%d%s" % (self.k, suffix))
    def clean(self):
        for name in os.listdir(self.path):
            p = os.path.join(self.path, name)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)
    def remove(self):
        shutil.rmtree(self.path, ignore_errors=True)


def fail_entry(prop, key, desc, e):
    tb = traceback.format_exc(limit=12)
    return dict(prop=prop, key=key, kind=type(e).__name__, message=str(e)[:2000], input=desc, trace=tb[-3000:])


def run_serial(prop, module, seed, tier, shard, nshard, outfile, only=None):
    """module.gen(rng, i, S) runs case i and returns (description, feature key); raises on failure"""
    rep = Report(outfile)
    S = Scratch()
    budget = module.BUDGET[tier] if hasattr(module, "BUDGET") else {"quick": 25, "thorough": 240}[tier]
    ncase = module.NCASES[tier]
    fixed = module.fixed(S) if hasattr(module, "fixed") else []
    hb = open(outfile + ".hb", "w")
    try:
        idx = 0
        todo = itertools.chain((("fixed", j) for j in range(len(fixed))), (("rand", j) for j in range(ncase)))
        for kind, j in todo:
            idx += 1
            if only is not None:
                if [kind, j] != list(only)[:2]:
                    continue
            elif idx % nshard != shard:
                continue
            if time.time() - rep.t0 > budget:
                break
            rng = rng_for(seed, 7919, j, 0 if kind == "fixed" else 1)
            hb.seek(0); hb.write(json.dumps([kind, j, 0, time.time()]) + " " * 30 + "\n"); hb.flush()
            desc = {}
            try:
                if kind == "fixed":
                    fixed[j](desc)
                    feat = desc.get("feature", "fixed%d" % j)
                else:
                    feat = module.case(rng, j, S, desc)
            except Exception as e:
                rep.fails.append(fail_entry(prop, [kind, j], {k: short(v, 1500) for k, v in desc.items()}, e))
                rep.n += 1
                if len(rep.fails) >= 3:
                    break
                continue
            finally:
                S.clean()
            rep.n += 1
            if feat is not None:
                rep.nontrivial.add(str(feat))
            if len(rep.samples) < 4 and j % 7 == 3:
                rep.samples.append({k: short(v, 300) for k, v in desc.items()})
    finally:
        S.remove()
        rep.write()


# ---------------------------------------------------------------- MPI
PARTITIONS = {
    8: [[8], [5, 3], [4, 2, 1, 1], [7, 1], [6, 2], [3, 3, 2], [2, 2, 2, 2], [4, 4]],
}

class CommLog:
    """Forwards to a communicator, recording point to point message lengths"""
    def __init__(self, comm):
        self._c = comm
        self.log = []
    def __getattr__(self, name):
        return getattr(self._c, name)


def run_mpi(prop, module, seed, tier, outfile, only=None):
    """
    Runs under mpirun.  In each round the ranks are split into groups and each
    group runs its own case: module.case(comm, rng, j, S, desc) is collective,
    rng is identical on all ranks of the group.
    """
    from mpi4py import MPI
    world = MPI.COMM_WORLD
    rank, size = world.Get_rank(), world.Get_size()
    rep = Report(outfile + ".%d" % rank)
    budget = module.BUDGET[tier] if hasattr(module, "BUDGET") else {"quick": 25, "thorough": 240}[tier]
    nrounds = module.NCASES[tier]
    parts = PARTITIONS.get(size, [[size]])
    if getattr(module, "COMM_SIZES", None):
        parts = module.COMM_SIZES
    fixed = getattr(module, "FIXED", [])
    base = world.bcast(tempfile.mkdtemp(prefix="vmpi_", dir=os.environ.get("VERIF_SCRATCH") or None) if rank == 0 else None)
    comms = {}
    def group(part_nr):
        if part_nr not in comms:
            sizes = parts[part_nr]
            colour = 0; acc = 0
            for g, s in enumerate(sizes):
                if acc <= rank < acc + s:
                    colour = g
                acc += s
            if len(sizes) == 1 and sizes[0] == size:
                comms[part_nr] = (world.Dup(), 0)
            else:
                comms[part_nr] = (world.Split(colour, rank), colour)
        return comms[part_nr]
    hb = open(outfile + ".hb.%d" % rank, "w")
    try:
        sched = [("fixed", j) for j in range(len(fixed))] + [("rand", j) for j in range(nrounds)]
        if only is not None:
            sched = [s for s in sched if list(s) == list(only)[:2]]
        for kind, j in sched:
            stop = world.bcast(time.time() - rep.t0 > budget and only is None)
            if stop:
                break
            comm, g = group(j % len(parts) if kind == "rand" else 0)
            rng = rng_for(seed, 104729, j, g, 0 if kind == "fixed" else 1)
            S = base + "/%s%d_%d" % (kind, j, g)
            desc = {"ranks": comm.Get_size(), "rank": comm.Get_rank()}
            hb.seek(0); hb.write(json.dumps([kind, j, g, time.time()]) + " " * 40 + "\n"); hb.flush()
            try:
                if kind == "fixed":
                    feat = fixed[j](comm, rng, S, desc)
                else:
                    feat = module.case(comm, rng, j, S, desc)
            except BaseException as e:
                rep.fails.append(fail_entry(prop, [kind, j, g], {k: short(v, 1500) for k, v in desc.items()}, e))
                rep.n += 1
                rep.write(False)
                sys.stderr.write("".join(traceback.format_exception(e))[-3000:] + "\n")
                sys.stderr.flush()
                MPI.COMM_WORLD.Abort(3)
            rep.n += 1 if comm.Get_rank() == 0 else 0
            if feat is not None:
                rep.nontrivial.add(str(feat))
            if len(rep.samples) < 4 and rank < 2:
                rep.samples.append({k: short(v, 300) for k, v in desc.items()})
            if j % 16 == 0 and rank == 0:
                rep.write(False)
        world.Barrier()
        rep.write(True)
    finally:
        if rank == 0:
            shutil.rmtree(base, ignore_errors=True)


def main():
    import argparse, importlib
    p = argparse.ArgumentParser()
    p.add_argument("prop"); p.add_argument("outfile")
    p.add_argument("--tier", default="quick"); p.add_argument("--seed", type=int, default=1)
    p.add_argument("--shard", type=int, default=0); p.add_argument("--nshard", type=int, default=1)
    p.add_argument("--only", default=None)
    a = p.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    only = json.loads(a.only) if a.only else None
    module = importlib.import_module(a.prop.lower())
    if getattr(module, "MPI_PROPERTY", False):
        run_mpi(a.prop, module, a.seed, a.tier, a.outfile, only)
    else:
        run_serial(a.prop, module, a.seed, a.tier, a.shard, a.nshard, a.outfile, only)

if __name__ == "__main__":
    sys.modules["harness"] = sys.modules["__main__"]
    main()
