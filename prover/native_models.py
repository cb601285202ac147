"""Library modules other than numpy and MPI: what the code uses of them"""
import numpy as np, sys, os, re as _re
from terms import *
from arr import *
from interp import *
from npmodel import *


def install(I, models):
    def b(name, f): return Builtin(name, f)
    models["time"] = Namespace("time", time=b("time", lambda I, a, k: I.ctx.fresh("time", Real)), sleep=b("sleep", lambda I, a, k: None))
    models["gc"] = Namespace("gc", collect=b("collect", lambda I, a, k: 0))
    models["sys"] = Namespace("sys", byteorder="little", stderr=Opaque("stderr", write=b("write", lambda I, a, k: None), flush=b("flush", lambda I, a, k: None)),
                              stdout=Opaque("stdout", write=b("write", lambda I, a, k: None), flush=b("flush", lambda I, a, k: None)), version_info=(3, 12), maxsize=sys.maxsize,
                              exit=b("exit", lambda I, a, k: I.do_raise(PyRaise(SystemExit, ()))))
    mt = Opaque("MPI datatype")
    mt.Commit = b("Commit", lambda I, a, k: mt); mt.Free = b("Free", lambda I, a, k: None)
    dtlib = Namespace("mpi4py.util.dtlib", from_numpy_dtype=b("from_numpy_dtype", lambda I, a, k: mt))
    models["mpi4py.util.dtlib"] = dtlib; models["mpi4py.util"] = Namespace("mpi4py.util", dtlib=dtlib)
    models["traceback"] = Namespace("traceback", print_exc=b("print_exc", lambda I, a, k: None))
    import math, collections, string, itertools
    mm = Namespace("math"); mm.fallback = lambda n: native(math, n); models["math"] = mm
    models["argparse"] = Namespace("argparse", ArgumentParser=Opaque("ArgumentParser"))
    models["os"] = Namespace("os", path=Namespace("os.path"), environ={})
    for n in ("h5py", "unyt", "mmap", "re", "string", "collections", "itertools", "functools", "warnings", "threading", "weakref", "struct"):
        models.setdefault(n, Namespace(n))
    models["string"].fallback = lambda n: getattr(string, n, None)
    models["itertools"].fallback = lambda n: native(itertools, n)
    models["re"].fallback = lambda n: native(_re, n)
    models["collections"].fallback = lambda n: getattr(collections, n, None)


def native(mod, n):
    v = getattr(mod, n, None)
    if not callable(v): return v
    def run(I, a, k):
        if has_sym(a) or has_sym(k): raise Unsupported("%s.%s of symbolic values" % (mod.__name__, n))
        return v(*a, **k)
    return Builtin("%s.%s" % (mod.__name__, n), run)
