"""Symbolic arrays: a mutable cell holding a function from indexes to terms, seen through index maps"""
import numpy as np, z3
from terms import *

Elem = z3.DeclareSort("Elem")     # values which are only moved around
_zero_elem = z3.Const("zero_Elem", Elem)


class SDtype:
    """An element type which is left open: totally ordered values (Real) or values only moved (Elem)"""
    def __init__(self, name, sort, kind="?", native=True, byteorder="=", itemsize=None):
        self.name, self.sort, self.kind, self.isnative, self.byteorder = name, sort, kind, native, byteorder
        self.itemsize = itemsize if itemsize is not None else z3.Int("itemsize_" + name)
        self.hasobject = False
        self.native_of = None
    def __repr__(self): return "<dtype %s>" % self.name
    def newbyteorder(self, order="S"):
        if self.isnative: return self
        if self.native_of is None:
            self.native_of = SDtype(self.name + "_native", self.sort, self.kind, True, "=", self.itemsize)
        return self.native_of


def sort_of(dtype):
    if isinstance(dtype, SDtype): return dtype.sort
    k = dtype.kind
    if k == "b": return Bool
    if k in "iu": return Int
    if k == "f": return Real
    raise Unsupported("elements of type %s" % dtype)


def to_dtype(d):
    if isinstance(d, SDtype): return d
    if d is None: return np.dtype(np.float64)
    if hasattr(d, "model_dtype"): return d.model_dtype
    return np.dtype(d)


def zero(sort):
    return {"Int": 0, "Real": z3.RealVal(0), "Bool": False, "Elem": _zero_elem}[sort.name()]


class Cell:
    """Storage of one array"""
    count = [0]
    def __init__(self, fn, sort, name="tmp", init=True):
        self.fn, self.sort, self.name, self.init = fn, sort, name, init
        Cell.count[0] += 1; self.id = Cell.count[0]


class SArr:
    def __init__(self, fn, shape, dtype, cell=None, imap=None, name="tmp", pylist=False, contig=True, base=None):
        self.shape = tuple(shape)
        self.dtype = dtype
        self.sort = sort_of(dtype)
        self.cell = cell if cell is not None else Cell(fn, self.sort, name)
        if cell is None: self.cell.ndim = len(self.shape)
        self.imap = imap              # index of the view -> index of the cell
        self.pylist = pylist          # a Python list rather than an array
        self.contig = contig
        self.writable = True
        self._scaled = None
        self._flat = self._flat_rows = None
        self._inv = None
        self._argsort = None
        self.byteorder_of = None
        self.attrs = {}
        self.cls = None

    def get(self, *idx):
        if len(idx) != len(self.shape): raise Unsupported("wrong number of indexes")
        if self.imap is not None: idx = self.imap(*idx)
        if not isinstance(idx, tuple): idx = (idx,)
        return self.cell.fn(*idx)

    # what is known of the contents is forgotten when they are written to
    def _known(self, x): return x[0] if x is not None and x[1] is self.cell.fn else None
    @property
    def scaled(self):
        """(factor, array) if this is factor*array"""
        return self._known(self._scaled)
    @scaled.setter
    def scaled(self, x): self._scaled = None if x is None else (x, self.cell.fn)
    @property
    def inv(self):
        """Inverse function if the array is a permutation"""
        return self._known(self._inv)
    @inv.setter
    def inv(self, x): self._inv = None if x is None else (x, self.cell.fn)
    @property
    def is_argsort_of(self): return self._known(self._argsort)
    @is_argsort_of.setter
    def is_argsort_of(self, x): self._argsort = None if x is None else (x, self.cell.fn)

    @property
    def flat_of(self):
        """Array of which this is the flattened view"""
        return self._known(self._flat)
    @flat_of.setter
    def flat_of(self, x): self._flat = None if x is None else (x, self.cell.fn)
    @property
    def flat_rows(self):
        """(length, array of rows) if this is a sequence of rows"""
        return self._known(self._flat_rows)
    @flat_rows.setter
    def flat_rows(self, x): self._flat_rows = None if x is None else (x, self.cell.fn)

    @property
    def ndim(self): return len(self.shape)

    def freeze(self):
        """Present contents as a function, unaffected by later writes"""
        fn, imap = self.cell.fn, self.imap
        if imap is None: return fn
        def g(*i):
            r = imap(*i)
            return fn(*(r if isinstance(r, tuple) else (r,)))
        return g

    def view(self, shape, imap, contig=None, dtype=None):
        old = self.imap
        if old is None: m = imap
        else:
            def m(*i):
                r = imap(*i)
                return old(*(r if isinstance(r, tuple) else (r,)))
        v = SArr(None, shape, dtype or self.dtype, cell=self.cell, imap=m, contig=self.contig if contig is None else contig)
        v.pylist = False; v.cls = self.cls
        return v

    def __repr__(self):
        return "<array %s%s %s>" % (self.cell.name, list(self.shape), self.dtype)


def cached(fn):
    """Remember the terms already built for an index"""
    memo = {}
    def g(*i):
        key = tuple(("z", x.get_id()) if is_sym(x) else ("c", x) for x in i)
        if key not in memo: memo[key] = (fn(*i), i)
        return memo[key][0]
    return g


def from_ndarray(a):
    """Symbolic form of a concrete array"""
    a = np.asarray(a)
    dt = a.dtype
    so = sort_of(dt)
    shape = a.shape
    flat = {idx: a[idx] for idx in np.ndindex(*shape)} if a.size <= 4096 else None
    if flat is None: raise Unsupported("concrete array too large")
    def py(v): return bool(v) if so == Bool else (int(v) if so == Int else float(v))
    def fn(*idx):
        if all(conc(i) for i in idx):
            return py(a[tuple(int(i) for i in idx)]) if all(0 <= i < n for i, n in zip(idx, shape)) else zero(so)
        out = None
        for key, v in flat.items():
            c = land(*[eq(i, k) for i, k in zip(idx, key)])
            out = py(v) if out is None else ite(c, py(v), out)
        return zero(so) if out is None else out
    return SArr(cached(fn), shape, dt, name="const")
