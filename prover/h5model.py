"""
Contracts of the h5py operations used for collective reads and writes.

A dataset has the same shape on all ranks.  A file opened for reading has fixed
contents.  A write is described by what this rank writes where (`mine`, `hit`);
that no two ranks write to the same row, and that all rows are written, is for
the contract of the function to show from them.
"""
import z3, numpy as np
from terms import *
from arr import *
from interp import *
from npmodel import *


class Selection(dict):
    """State of a data space: which rows are selected.  Only to be used in the iteration it was made in."""
    loop_ok = True


class Space:
    def __init__(self, I, shape):
        self.I, self.shape = I, tuple(shape)
        self.sel = Selection(none=False, start=tuple(0 for _ in shape), count=tuple(shape), where=len(I.ctx.binders))
    def vattr(self, I, name):
        if name == "select_hyperslab": return Builtin(name, lambda I, a, k: self.hyperslab(*a, **k))
        if name == "select_none": return Builtin(name, lambda I, a, k: self.set(none=True, start=tuple(0 for _ in self.shape), count=tuple(0 for _ in self.shape)))
        if name == "select_all": return Builtin(name, lambda I, a, k: self.set(none=False, start=tuple(0 for _ in self.shape), count=self.shape))
        if name == "shape": return self.shape
        raise Unsupported("data space method %s" % name)
    def set(self, **k):
        self.I.ctx.touch(self.sel, lambda: dict(self.sel))
        self.sel.update(k, where=tag(self.I))
    def hyperslab(self, start, count, stride=None, block=None, op=None):
        I, ctx = self.I, self.I.ctx
        if stride is not None or block is not None or op is not None: raise Unsupported("hyperslab selection with stride, block or operator")
        start, count = [tuple(I.np.scalar(x) for x in I.concrete_iter(y)) for y in (start, count)]
        if len(start) != len(self.shape) or len(count) != len(self.shape): I.do_raise(PyRaise(TypeError, ("wrong number of dimensions",)))
        for s, c, d in zip(start, count, self.shape):
            ctx.prove(land(ge(s, 0), ge(c, 1), le(add(s, c), d)), "select_hyperslab: the selection is within the data space and not empty")
        self.set(none=False, start=start, count=count)
    def selection(self):
        w = self.I.resolve(self.sel["where"])
        if w != tag(self.I) and w != 0: raise Unsupported("selection made in another iteration")
        s = {k: self.I.resolve(x) for k, x in self.sel.items()}
        return s["none"], s["start"], s["count"]


def tag(I): return repr([str(b) for b, _ in I.ctx.binders if I.ctx.world is None or not b.eq(I.ctx.world.me)])


class Props:
    """Property list"""
    def __init__(self): self.collective = False
    def vattr(self, I, name):
        if name == "set_dxpl_mpio":
            def run(I, a, k):
                if [g for g in I.ctx.guards if is_sym(g)]: raise Unsupported("transfer mode set under a condition")
                self.collective = a[0] == "collective"
            return Builtin(name, run)
        if name == "copy": return Builtin(name, lambda I, a, k: Props())
        raise Unsupported("property list method %s" % name)


class File(SymVal):
    """Contents of the datasets of a group"""
    def attr(self, I, name): return self.vattr(I, name)
    def __init__(self): self.datasets = {}; self.id = self
    def vattr(self, I, name):
        if name == "id": return self
        raise Unsupported("group attribute %s" % name)
    def getitem(self, I, k):
        if k not in self.datasets: raise PyRaise(KeyError, (k,))
        return self.datasets[k]
    def contains(self, I, k): return k in self.datasets


class Dataset(SymVal):
    """data: function giving the contents if the file is read; a new dataset has unknown contents"""
    def __init__(self, I, name, shape, dtype, data=None):
        self.I, self.name, self.shape, self.dtype, self.data = I, name, tuple(shape), dtype, data
        nd = len(self.shape)
        if data is None:
            old = I.ctx.fresh_fn("stored", nd, sort_of(dtype))
            self.mine = Cell(lambda *i: old(*i), sort_of(dtype), "mine"); self.mine.ndim = nd
            self.hit = Cell(lambda *i: z3.BoolVal(False), Bool, "hit"); self.hit.ndim = nd
        self.ctxmgr = Opaque("collective context", __enter__=Builtin("__enter__", lambda I, a, k: self.enter(True)), __exit__=Builtin("__exit__", lambda I, a, k: self.enter(False)))
        self.in_collective = False
    def enter(self, on): self.in_collective = on
    def attr(self, I, name): return self.vattr(I, name)
    def vattr(self, I, name):
        if name == "shape": return self.shape
        if name == "dtype": return self.dtype
        if name == "ndim": return len(self.shape)
        if name == "id": return self
        if name == "size": return size_of(self.shape)
        if name == "get_space": return Builtin(name, lambda I, a, k: Space(I, self.shape))
        if name in ("read", "write"): return Builtin(name, lambda I, a, k: self.transfer(name, *a, **k))
        if name == "collective":
            # a zero sized part is not read collectively by h5py: a hang if the sizes differ between ranks
            raise Unsupported("collective mode of the high level interface")
        if name in ("close", "flush"): return Builtin(name, lambda I, a, k: None)
        raise Unsupported("dataset attribute %s" % name)
    def getitem(self, I, k):
        """Independent read: a new array"""
        if self.data is None: raise Unsupported("reading what is being written")
        a = SArr(lambda *i: self.data(*i), self.shape, self.dtype, name=self.name)
        r = I.np.getitem(a, k)
        return I.np.copy(r) if isinstance(r, SArr) else r
    def vlen(self, I): return self.shape[0]

    def transfer(self, what, mspace, fspace, buf, mtype=None, dxpl=None):
        I, ctx = self.I, self.I.ctx
        if isinstance(dxpl, Props) and dxpl.collective: I.comm.collective("H5D" + what)
        ctx.used.add("h5py H5D" + what)
        if not isinstance(buf, SArr): raise Unsupported("buffer of a transfer")
        ctx.prove(buf.contig is True, "H5D%s: the buffer is contiguous" % what)
        if buf.dtype is not self.dtype and buf.dtype != self.dtype: raise Unsupported("conversion of types by HDF5")
        if len(mspace.shape) != len(buf.shape): raise Unsupported("memory space with another number of dimensions than the array")
        ctx.prove(land(*[eq(x, y) for x, y in zip(mspace.shape, buf.shape)]), "H5D%s: the memory space has the shape of the buffer" % what)
        (mn, ms, mc), (fn, fs, fc) = mspace.selection(), fspace.selection()
        ctx.prove(land(eq(t(lit(mn)), t(lit(fn))), lor(mn, land(*[eq(x, y) for x, y in zip(mc, fc)]))), "H5D%s: as many elements are selected in memory as in the file" % what)
        nd = len(self.shape)
        inside = lambda idx, st, ct: land(lnot(mn), *[land(le(s, i), lt(i, add(s, c))) for i, s, c in zip(idx, st, ct)])
        shift = lambda idx, a, b: [add(i, sub(y, x)) for i, x, y in zip(idx, a, b)]
        if what == "read":
            old = buf.cell.fn
            if buf.imap is not None: raise Unsupported("read into a view")
            ctx.write(buf.cell, cached(lambda *i: ite(inside(i, ms, mc), self.data(*shift(i, ms, fs)), old(*i))))
        else:
            src = buf.freeze(); om, oh = self.mine.fn, self.hit.fn
            ctx.write(self.mine, cached(lambda *i: ite(inside(i, fs, fc), src(*shift(i, fs, ms)), om(*i))))
            ctx.write(self.hit, cached(lambda *i: lor(inside(i, fs, fc), oh(*i))))
            for j in ctx.journals: pass


def size_of(shape):
    n = 1
    for s in shape: n = mul(n, s)
    return n


def install(I, models):
    def b(name, f): return Builtin(name, f)
    def create(I, a, k):
        group, name, dtype, space = a[:4]
        I.comm.collective("H5Dcreate")
        w = I.ctx.world
        q = fresh_int("q")
        for d in space.shape:
            if is_sym(d) and contains(d, w.me): I.ctx.prove(implies(land(le(0, q), lt(q, w.P)), eq(d, w.on(t(d), q))), "H5Dcreate: all ranks give the same shape")
        nm = name.decode() if isinstance(name, bytes) else name
        ds = Dataset(I, nm, space.shape, dtype); group.datasets[nm] = ds
        return ds
    ns = Namespace("h5py",
        h5p=Namespace("h5p", DATASET_CREATE="create", DATASET_XFER="transfer", create=b("create", lambda I, a, k: Props())),
        h5s=Namespace("h5s", create_simple=b("create_simple", lambda I, a, k: Space(I, [I.np.scalar(x) for x in I.concrete_iter(a[0])]))),
        h5t=Namespace("h5t", py_create=b("py_create", lambda I, a, k: a[0])),
        h5fd=Namespace("h5fd", MPIO_COLLECTIVE="collective", MPIO_INDEPENDENT="independent"),
        h5d=Namespace("h5d", create=b("create", create)),
        Dataset=b("Dataset", lambda I, a, k: a[0]),
        version=Namespace("version", hdf5_version_tuple=(1, 12, 2)))
    models["h5py"] = ns
