"""
Contracts of the numpy operations the code uses, for symbolic arrays.
Operations whose operands are all known are carried out by numpy itself.
"""
import numpy as np, z3, operator, hashlib
from terms import *
from arr import *
from interp import *
import interp as _interp

I64 = np.dtype(np.int64); BOOL = np.dtype(bool); F64 = np.dtype(np.float64)


def usable_trigger(e, vs):
    """May this term control the instantiation of a fact quantified over vs?"""
    if not (is_sym(e) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args()): return False
    if not all(contains(e, v) for v in vs): return False
    st = [e]
    while st:
        x = st.pop()
        if z3.is_quantifier(x): return False
        if z3.is_app(x) and x.num_args() and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT): return False
        st.extend(x.children())
    return True


def prod(xs):
    r = 1
    for x in xs: r = mul(r, x)
    return r


class NP:
    def __init__(self, I):
        self.I, self.ctx = I, I.ctx
        I.np = self
        self.ns = Namespace("numpy")
        self.ns.fallback = self.fallback
        self.table = {}
        for n in dir(self):
            if n.startswith("f_"): self.table[n[2:]] = Builtin("numpy." + n[2:], self.dispatch(n[2:], getattr(self, n)))
        self.ufuncs = {}
        for n, op in (("maximum", "max"), ("minimum", "min"), ("logical_and", "land"), ("logical_or", "lor"), ("add", "add"), ("subtract", "sub"), ("multiply", "mul"),
                      ("greater", "Gt"), ("less", "Lt"), ("equal", "Eq"), ("not_equal", "NotEq"), ("greater_equal", "GtE"), ("less_equal", "LtE"), ("floor_divide", "floordiv"), ("true_divide", "truediv"), ("divide", "truediv")):
            self.ufuncs[n] = Ufunc(self, n, op)

    def use(self, name): self.ctx.used.add("numpy." + name)

    def fallback(self, name):
        if name in self.table: return self.table[name]
        if name in self.ufuncs: return self.ufuncs[name]
        if name == "ndarray": return NDARRAY
        if name == "ufunc": return UFUNC
        if name in ("int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8", "float64", "float32", "bool_", "intp", "uintp", "newaxis", "pi", "inf", "nan",
                    "generic", "integer", "floating", "number", "bytes_", "str_", "void", "dtype", "issubdtype", "iinfo", "finfo", "ndindex", "ma", "intc", "longlong"):
            return DTYPE if name == "dtype" else getattr(np, name)
        if hasattr(np, name):
            v = getattr(np, name)
            if callable(v): return Builtin("numpy." + name, self.native_only(name, v))
            return v
        return None

    def native_only(self, name, v):
        def run(I, a, k):
            if has_sym(a) or has_sym(k): raise Unsupported("numpy.%s of symbolic values" % name)
            a = [Iplain(x) for x in a]
            try: return v(*a, **k)
            except (ValueError, TypeError, IndexError) as e: raise PyRaise(type(e), e.args)
        return run

    def dispatch(self, name, m):
        native = getattr(np, name, None)
        def run(I, a, k):
            a = [I.resolve(x) for x in a]; k = {x: I.resolve(y) for x, y in k.items()}
            a = [x.items if isinstance(x, GenList) else x for x in a]
            if native is not None and not has_sym(a) and not has_sym(k) and not getattr(m, "always", False):
                a = [Iplain(x) for x in a]; k = {x: Iplain(y) for x, y in k.items()}
                try: return native(*a, **k)
                except (ValueError, TypeError, IndexError, OverflowError) as e: raise PyRaise(type(e), e.args)
            return m(*a, **k)
        return run

    # ------------------------------------------------------------ construction
    def arr(self, fn, shape, dtype, name="tmp", **k):
        return SArr(fn, shape, dtype, name=name, **k)

    def list_from(self, n, fn, sort):
        dt = {"Int": I64, "Bool": BOOL, "Real": F64}.get(sort.name())
        if dt is None: dt = SDtype("list", sort)
        return SArr(cached(fn), [n], dt, pylist=True, name="list")

    def as_array(self, x, dtype=None):
        """Array of anything array-like (symbolic)"""
        x = self.I.resolve(x)
        if isinstance(x, SArr): return x
        if isinstance(x, np.ndarray) and x.dtype.kind in "iu" and 8 <= x.size <= 4096 and x.ndim: return self.table_array(x)
        if isinstance(x, np.ndarray) or isinstance(x, np.generic): return from_ndarray(x)
        if isinstance(x, GenList): x = x.items
        if isinstance(x, (list, tuple)):
            items = [self.as_array(y) for y in x]
            if not items: return from_ndarray(np.array([]))
            nd = items[0].ndim
            if any(y.ndim != nd for y in items): raise Unsupported("ragged array")
            dt = items[0].dtype
            for y in items: dt = self.promote(dt, y.dtype)
            for y in items[1:]:
                for p, q in zip(y.shape, items[0].shape): self.same(p, q, "elements have equal shapes")
            so = sort_of(dt)
            fz = [y.freeze() for y in items]
            def fn(i, *rest):
                if conc(i): return t(fz[int(i)](*rest), so) if 0 <= i < len(fz) else zero(so)
                out = t(fz[-1](*rest), so)
                for j in range(len(fz) - 2, -1, -1): out = ite(eq(i, j), t(fz[j](*rest), so), out)
                return out
            return SArr(cached(fn), (len(items),) + items[0].shape, dt)
        if is_boolish(x): return SArr(lambda *i: x, (), BOOL)
        if is_int(x): return SArr(lambda *i: x, (), I64)
        if is_num(x): return SArr(lambda *i: x, (), F64)
        if is_sym(x): return SArr(lambda *i: x, (), SDtype("elem", x.sort()))
        raise Unsupported("array of %r" % (x,))

    def table_array(self, x):
        """A table of known integers"""
        tab = Table.of(self.ctx, x)
        return SArr(tab, x.shape, x.dtype, name=tab.name)

    def same(self, p, q, what="shapes agree"):
        if conc(p) and conc(q):
            if p != q: self.I.do_raise(PyRaise(ValueError, (what,)))
            return
        self.I.fail_unless(eq(p, q), what, PyRaise(ValueError, (what,)))

    def promote(self, a, b):
        if a is b: return a
        if isinstance(a, SDtype) or isinstance(b, SDtype):
            s, o = (a, b) if isinstance(a, SDtype) else (b, a)
            if isinstance(o, SDtype):
                if o.sort == s.sort: return s
                raise Unsupported("mixed element types")
            if sort_of(o) == s.sort or (s.sort == Real and sort_of(o) == Int): return s
            raise Unsupported("mixed element types %s and %s" % (a, b))
        return np.promote_types(a, b)

    def fresh_array(self, name, shape, dtype):
        """Array with unknown contents"""
        f = self.ctx.fresh_fn(name, len(shape), sort_of(dtype))
        a = SArr(lambda *i: f(*i), shape, dtype, name=name)
        return a

    def shape_arg(self, s):
        s = self.I.resolve(s)
        if isinstance(s, (SArr,)) : return tuple(self.I.concrete_iter(s))
        if isinstance(s, (tuple, list, np.ndarray)): return tuple(self.scalar(x) for x in s)
        return (self.scalar(s),)

    def scalar(self, x):
        x = self.I.resolve(x)
        if isinstance(x, SArr):
            if x.ndim == 0: return x.get()
            if x.ndim == 1 and self.ctx.decide(eq(x.shape[0], 1)): return x.get(0)
            raise Unsupported("array used as a number")
        if isinstance(x, np.integer): return int(x)
        return x

    def checked_shape(self, shape):
        for s in shape:
            if is_sym(s): self.I.fail_unless(ge(s, 0), "array size is not negative", PyRaise(ValueError, ("negative dimensions",)))
            elif s < 0: self.I.do_raise(PyRaise(ValueError, ("negative dimensions are not allowed",)))
        return shape

    def const_array(self, shape, dtype, v, name="const"):
        shape = self.checked_shape(self.shape_arg(shape))
        dtype = to_dtype(dtype)
        so = sort_of(dtype)
        if conc(v) and not isinstance(dtype, SDtype):
            v = bool(v) if so == Bool else (v if so == Real or not isinstance(v, float) else int(v))
        else: v = t(v, so)
        return SArr(lambda *i: v, shape, dtype, name=name)

    def f_zeros(self, shape, dtype=None, order="C"): return self.const_array(shape, dtype, zero(sort_of(to_dtype(dtype))), "zeros")
    def f_ones(self, shape, dtype=None, order="C"): return self.const_array(shape, dtype, 1, "ones")
    def f_full(self, shape, fill_value, dtype=None, order="C"):
        v = self.scalar(fill_value)
        if dtype is None: dtype = BOOL if is_boolish(v) else I64 if is_int(v) else F64
        return self.const_array(shape, dtype, v, "full")
    def f_empty(self, shape, dtype=None, order="C"):
        return self.fresh_array("uninit", self.checked_shape(self.shape_arg(shape)), to_dtype(dtype))
    def f_ndarray(self, shape, dtype=None, order=None): return self.f_empty(shape, dtype)
    def like(self, a, dtype, shape):
        a = self.as_array(a)
        return (a.shape if shape is None else self.checked_shape(self.shape_arg(shape))), (a.dtype if dtype is None else to_dtype(dtype)), a
    def f_empty_like(self, a, dtype=None, order="K", subok=True, shape=None):
        s, d, a = self.like(a, dtype, shape); r = self.fresh_array("uninit", s, d)
        r.contig = True if order == "C" else a.contig; r.cls = a.cls if subok is not False else None
        return r
    def f_zeros_like(self, a, dtype=None, order="K", subok=True, shape=None):
        s, d, a = self.like(a, dtype, shape); return self.const_array(s, d, zero(sort_of(d)), "zeros")
    def f_ones_like(self, a, dtype=None, order="K", subok=True, shape=None):
        s, d, a = self.like(a, dtype, shape); return self.const_array(s, d, 1)
    def f_full_like(self, a, fill_value, dtype=None, order="K", subok=True, shape=None):
        s, d, a = self.like(a, dtype, shape); return self.const_array(s, d, self.scalar(fill_value))

    def convert(self, a, dtype, copy, what=""):
        """Array of another element type with the same values"""
        dtype = to_dtype(dtype)
        if a.dtype == dtype and not copy: 
            return a
        so = sort_of(dtype)
        old = a.dtype
        if isinstance(old, SDtype) and isinstance(dtype, SDtype) and dtype.sort == old.sort and (dtype is old or old.native_of is dtype or dtype.name == old.name + "_native"):
            fz = a.freeze(); r = SArr(fz, a.shape, dtype, contig=True, name=a.cell.name)
        elif a.sort == so:
            fz = a.freeze()
            if not isinstance(old, SDtype) and not isinstance(dtype, SDtype) and so == Int and (dtype.itemsize < old.itemsize or (dtype.kind != old.kind and not (old.kind == "u" and dtype.itemsize > old.itemsize))):
                self.int_range(a, dtype)
            r = SArr(fz, a.shape, dtype, contig=True, name=a.cell.name)
        elif so == Bool:
            fz = a.freeze(); r = SArr(lambda *i: ne(fz(*i), 0), a.shape, dtype)
        elif (a.sort, so) in ((Int, Real), (Bool, Int), (Bool, Real)):
            fz = a.freeze(); r = SArr(cached(lambda *i: t(fz(*i), so)), a.shape, dtype)
        elif (a.sort, so) == (Real, Int):
            # conversion to integers truncates towards zero
            fz = a.freeze()
            def tr(*i):
                v = t(fz(*i))
                if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return v.arg(0)
                return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            r = SArr(cached(tr), a.shape, dtype)
        else: raise Unsupported("conversion of %s to %s" % (a.dtype, dtype))
        r.cls = a.cls
        r.converted_from = a
        return r

    def int_range(self, a, dtype):
        """The values of a must fit the narrower integer type"""
        self.ctx.notes.add("narrowing integer conversions are treated as exact (array sizes and indexes are below 2**63 and values fit the type asked for)")

    def f_asarray(self, a, dtype=None, order=None, always_copy=False):
        a = self.I.resolve(a)
        if isinstance(a, Choice): return self.I.distribute(a, lambda x: self.f_asarray(x, dtype), "array conversion")
        was = a if isinstance(a, SArr) and not a.pylist else None
        x = self.as_array(a)
        if x.pylist:
            fz = x.freeze(); x = SArr(fz, x.shape, x.dtype, name="array")
        if dtype is not None:
            y = self.convert(x, dtype, False)
            x = y
        if not isinstance(a, SArr) and not isinstance(a, (list, tuple, np.ndarray)) and x.ndim == 0:
            return x
        return x
    f_asarray.always = False
    def f_asanyarray(self, a, dtype=None, order=None): return self.f_asarray(a, dtype)
    def f_array(self, a, dtype=None, copy=True, order="K", ndmin=0, subok=False):
        x = self.f_asarray(a, dtype)
        if x is a or (isinstance(a, SArr) and x.cell is a.cell): x = self.copy(x)
        return x
    def f_ascontiguousarray(self, a, dtype=None):
        x = self.f_asarray(a, dtype)
        if x.contig is True and x.ndim: return x
        y = self.copy(x); y.contig = True
        if x.contig is not False:
            # it may be the same array: then nothing here may write to it
            y.may_alias = x
        return y
    def f_copy(self, a, order="K"): return self.copy(self.as_array(a))

    def copy(self, a, order="C"):
        r = SArr(a.freeze(), a.shape, a.dtype, name=a.cell.name, contig=True)
        r.cls = a.cls; r.inv, r.is_argsort_of = a.inv, a.is_argsort_of
        r.pylist = a.pylist; r.flat_rows = a.flat_rows
        return r

    def f_arange(self, *a, dtype=None):
        a = [self.scalar(x) for x in a]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if st != 1: raise Unsupported("arange with a step")
        if not all(is_int(x) for x in (lo, hi)): raise Unsupported("arange of non-integers")
        n = sub(hi, lo)
        if not self.ctx.decide(ge(n, 0)): n = tmax(0, n)
        return SArr(lambda i: add(lo, i), [n], to_dtype(dtype) if dtype is not None else I64, name="arange")

    def to_list(self, a):
        if a.ndim != 1: raise Unsupported("list of a multi-dimensional array")
        return SArr(a.freeze(), a.shape, a.dtype, pylist=True, name="list")
    def repeat_list(self, v, n):
        so = t(v).sort()
        return self.list_from(tmax(0, n), lambda i: v, so)
    def concat_lists(self, a, b):
        r = self.f_concatenate([self.as_array(a), self.as_array(b)])
        r.pylist = True
        return r
    def map_list(self, n, item, f):
        """[f(item(k)) for k in range(n)]"""
        k = fresh_int("k"); ctx = self.ctx
        ctx.binders.append((k, z3.And(0 <= k, k < t(n))))
        j = {}; ctx.journals.append(j)
        try: v = self.I.resolve(f(item(k)))
        finally: ctx.binders.pop(); ctx.journals.pop()
        if j: raise Unsupported("comprehension with side effects")
        if isinstance(v, SArr) and v.ndim == 0: v = v.get()
        if not (is_num(v) or is_boolish(v) or is_sym(v)): 
            return SymIter(n, lambda i: (_ for _ in ()).throw(Unsupported("list of such values")))
        body = t(v)
        return self.list_from(n, lambda i: z3.substitute(body, (k, t(i))), body.sort())
    def list_equal(self, a, b):
        a, b = self.as_array(a), self.as_array(b)
        j = fresh_int("j")
        return land(eq(a.shape[0], b.shape[0]), forall([j], implies(land(le(0, j), lt(j, a.shape[0])), eq(a.get(j), b.get(j)))))

    # ------------------------------------------------------------ attributes
    def array_attr(self, a, name):
        I = self.I
        if name == "shape": return tuple(a.shape)
        if name == "dtype": return a.dtype
        if name == "ndim": return a.ndim
        if name == "size": return prod(a.shape)
        if name == "T":
            return a if a.ndim < 2 else self.transpose(a)
        if name == "itemsize": return a.dtype.itemsize
        if name == "nbytes": return mul(prod(a.shape), a.dtype.itemsize)
        if name == "flags": return Namespace("flags", c_contiguous=a.contig if isinstance(a.contig, bool) else a.contig, C_CONTIGUOUS=a.contig, writeable=True, contiguous=a.contig)
        if name in a.attrs: return a.attrs[name]
        if a.pylist:
            if name in ("copy",): return Builtin("list.copy", lambda I_, x, k: self.copy(a))
            raise Unsupported("list.%s" % name)
        m = {"copy": lambda order="C": self.copy(a), "astype": lambda dtype, copy=True, **k: self.convert(a, dtype, copy),
             "reshape": lambda *s, order="C": self.reshape(a, s), "ravel": lambda order="C": self.reshape(a, ((-1,),)), "flatten": lambda order="C": self.copy(self.reshape(a, ((-1,),))),
             "sum": lambda axis=None, dtype=None: self.f_sum(a, axis=axis, dtype=dtype), "cumsum": lambda axis=None, dtype=None: self.f_cumsum(a, axis=axis, dtype=dtype),
             "argsort": lambda axis=-1, kind=None, order=None, **k: self.f_argsort(a, kind=kind), "searchsorted": lambda v, side="left", sorter=None: self.f_searchsorted(a, v, side, sorter),
             "any": lambda axis=None: self.f_any(a), "all": lambda axis=None: self.f_all(a), "min": lambda axis=None: self.f_amin(a), "max": lambda axis=None: self.f_amax(a),
             "fill": lambda v: self.store(a, None, v), "swapaxes": lambda i, j: self.swapaxes(a, i, j), "transpose": lambda *ax: self.transpose(a),
             "item": lambda *i: self.item(a, i), "tolist": lambda: self.to_list(a), "repeat": lambda r, axis=None: self.f_repeat(a, r, axis), "nonzero": lambda: self.f_nonzero(a),
             "squeeze": lambda: self.squeeze(a), "view": lambda *x: a, "prod": lambda **k: self.f_prod(a), "sort": lambda axis=-1, kind=None: self.sort_inplace(a),
             "newbyteorder": None, "byteswap": None, "take": lambda i, axis=None: self.getitem(a, i), "compress": lambda c, axis=None: self.getitem(a, c)}.get(name)
        if m is None:
            if name.startswith("__") or name in ("units",): raise PyRaise(AttributeError, (name,))
            raise Unsupported("array attribute %s" % name)
        def run(I_, args, k): return m(*args, **k)
        return Builtin("ndarray." + name, run)

    def ndarray_attr(self, a, name):
        v = getattr(a, name, None)
        if v is None and not hasattr(a, name): raise PyRaise(AttributeError, (name,))
        if callable(v):
            def run(I, args, k):
                if has_sym(args) or has_sym(k): return self.array_attr(from_ndarray(a), name).fn(I, args, k)
                if name in ("fill", "sort", "resize"): self.ctx.touch(a, lambda: a.copy())
                args = [Iplain(x) for x in args]
                try: return v(*args, **k)
                except (ValueError, TypeError, IndexError) as e: raise PyRaise(type(e), e.args)
            return Builtin("ndarray." + name, run)
        return v

    def scalar_attr(self, x, name):
        """Attributes of numpy scalars"""
        a = self.as_array(x)
        if name in ("shape", "ndim", "dtype", "size"): return self.array_attr(a, name)
        if name == "sort": raise Unsupported("scalar attribute")
        if name in ("sum", "item", "astype", "copy", "any", "all", "min", "max"):
            def run(I, args, k):
                if name == "astype": return self.scalar(self.convert(a, args[0], False))
                return x
            return Builtin("generic." + name, run)
        if name in ("format", "upper", "strip"): raise PyRaise(AttributeError, (name,))
        raise Unsupported("attribute %s of a number" % name)

    def dtype_attr(self, d, name):
        if name in ("kind", "isnative", "byteorder", "itemsize", "name", "hasobject", "fields", "names", "subdtype", "shape", "char", "num", "str"):
            if name in ("fields", "names", "subdtype"): return None
            if name == "shape": return ()
            if name in ("char", "num", "str"): raise Unsupported("dtype.%s" % name)
            return getattr(d, name)
        if name == "newbyteorder": return Builtin("newbyteorder", lambda I, a, k: d.newbyteorder(*a))
        if name == "type":
            return Builtin("dtype.type", lambda I, a, k: t(self.scalar(a[0]), d.sort))
        raise Unsupported("dtype.%s" % name)

    def item(self, a, i):
        if i: return self.getitem(a, i[0] if len(i) == 1 else tuple(i))
        return self.scalar(a)
    def squeeze(self, a):
        raise Unsupported("squeeze")

    def transpose(self, a):
        n = a.ndim
        return a.view(tuple(reversed(a.shape)), lambda *i: tuple(reversed(i)), contig=False)
    def swapaxes(self, a, i, j):
        n = a.ndim
        i, j = int(i) % n, int(j) % n
        if i == j: return a.view(a.shape, lambda *x: x)
        def sw(x):
            x = list(x); x[i], x[j] = x[j], x[i]; return tuple(x)
        return a.view(sw(a.shape), lambda *x: sw(x), contig=False)
    def f_swapaxes(self, a, i, j): return self.swapaxes(self.as_array(a), i, j)
    def f_moveaxis(self, a, i, j):
        n = a.ndim; i, j = int(i) % n, int(j) % n
        order = [x for x in range(n) if x != i]; order.insert(j, i)
        inv = [order.index(x) for x in range(n)]
        return a.view(tuple(a.shape[x] for x in order), lambda *x: tuple(x[p] for p in inv), contig=False)
    def f_transpose(self, a): return self.transpose(self.as_array(a))

    def reshape(self, a, s):
        s = tuple(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else tuple(s)
        s = tuple(self.scalar(x) for x in s)
        if len(s) == 1 and conc(s[0]) and s[0] == -1:
            if a.ndim == 1: return a.view(a.shape, lambda i: i)
            if a.ndim == 0: return a.view((1,), lambda i: ())
            # flattened rows: only moved around as a whole
            src = a
            if a.contig is not True:
                src = self.copy(a); src.maybe_copy_of = a
                if a.contig is False: src.flat_copied = True
            v = SArr(lambda i: (_ for _ in ()).throw(Unsupported("element of a flattened array")), [prod(a.shape)], a.dtype, name="flat")
            v.flat_of = src
            return v
        if a.flat_rows is not None and len(s) == 2:
            w, base = a.flat_rows
            self.same(s[1], w, "reshaped rows have the length of the gathered rows")
            self.same(s[0], base.shape[0], "number of rows")
            return base
        if a.ndim == len(s):
            if all(self.ctx.decide(eq(x, y)) for x, y in zip(a.shape, s)): return a.view(a.shape, lambda *i: i)
        if a.flat_of is not None and a.flat_of.ndim == len(s) and all((conc(x) and x == -1) or self.ctx.decide(eq(x, y)) for x, y in zip(s, a.flat_of.shape)):
            return a.flat_of
        if a.ndim == 1 and len(s) == 2 and conc(s[1]) and s[1] == 1: return a.view((a.shape[0], 1), lambda i, j: i)
        if a.ndim == 1 and len(s) == 2 and conc(s[0]) and s[0] == 1: return a.view((1, a.shape[0]), lambda i, j: j)
        if a.ndim == 1 and len(s) == 2 and conc(s[1]) and s[1] > 0:
            w = s[1]
            n = s[0] if not (conc(s[0]) and s[0] == -1) else floordiv(a.shape[0], w)
            self.same(mul(n, w), a.shape[0], "reshape keeps the number of elements")
            return a.view((n, w), lambda i, j: add(mul(i, w), j))
        if a.ndim == 2 and len(s) == 1 and conc(a.shape[1]):
            w = a.shape[1]
            self.same(s[0], mul(a.shape[0], w), "reshape keeps the number of elements")
            return a.view((s[0],), lambda i: (floordiv(i, w), mod(i, w)))
        raise Unsupported("reshape of %s to %s" % (a.shape, s))
    def f_reshape(self, a, s): return self.reshape(self.as_array(a), (s,))
    def f_ravel(self, a): return self.reshape(self.as_array(a), ((-1,),))

    # ------------------------------------------------------------ elementwise
    def broadcast(self, *xs):
        """Common shape, and functions of the common index"""
        arrs = [self.as_array(x) for x in xs]
        if any(x.flat_of is not None for x in arrs): raise Unsupported("arithmetic on a flattened array")
        nd = max(x.ndim for x in arrs)
        shape = []
        for ax in range(nd):
            dims = [x.shape[ax - nd + x.ndim] for x in arrs if x.ndim >= nd - ax]
            big = [d for d in dims if not (conc(d) and d == 1)]
            if not big: shape.append(1); continue
            d0 = big[0]
            for d in big[1:]:
                if not self.ctx.decide(eq(d, d0)):
                    # numpy would broadcast length 1, or raise an error
                    self.I.fail_unless(eq(d, d0), "operands have the same shape", PyRaise(ValueError, ("operands could not be broadcast together",)))
            shape.append(d0)
        fns = []
        for x in arrs:
            fz = x.freeze(); off = nd - x.ndim
            one = [conc(d) and d == 1 and not (conc(shape[off + a]) and shape[off + a] == 1) for a, d in enumerate(x.shape)]
            fns.append(lambda *i, fz=fz, off=off, one=one: fz(*[0 if o else j for j, o in zip(i[off:], one)]))
        return shape, fns, arrs

    def result_dtype(self, op, a, b):
        if isinstance(a, SDtype) or isinstance(b, SDtype): return self.promote(a, b)
        if op == "truediv": return F64 if np.promote_types(a, b).kind in "iub" else np.promote_types(a, b)
        r = np.promote_types(a, b)
        if r.kind == "b" and op in ("add", "mul", "sub", "floordiv", "mod"):
            return r
        return r

    def binary(self, op, a, b):
        shape, (fa, fb), (xa, xb) = self.broadcast(a, b)
        # python scalars do not change the type of an array
        da, db = xa.dtype, xb.dtype
        if xa.ndim and not isinstance(b, (SArr, np.ndarray)): db = self.weak(da, xb)
        if xb.ndim and not isinstance(a, (SArr, np.ndarray)): da = self.weak(db, xa)
        dt = self.result_dtype(op, da, db)
        so = sort_of(dt)
        I = self.I
        if so == Bool and op in ("add", "or_"): f = lambda *i: lor(fa(*i), fb(*i))
        elif so == Bool and op in ("mul", "and_"): f = lambda *i: land(fa(*i), fb(*i))
        elif so == Bool and op == "xor": f = lambda *i: z3.Xor(t(fa(*i)), t(fb(*i)))
        elif op in ("floordiv", "mod"):
            if so != Int: raise Unsupported("%s of non-integer arrays" % op)
            js = [fresh_int("i") for _ in shape]
            den = fb(*js)
            self.I.fail_unless(forall(js, implies(self.in_shape(js, shape), gt(den, 0))), "divisors are positive", PyRaise(ZeroDivisionError, ()))
            f = lambda *i: (floordiv if op == "floordiv" else mod)(fa(*i), fb(*i))
        elif op == "truediv": f = lambda *i: tdiv(t(fa(*i), Real), t(fb(*i), Real))
        else:
            if so == Elem: raise Unsupported("arithmetic on opaque values")
            if op in ("lshift", "rshift"):
                js = [fresh_int("i") for _ in shape] if xb.ndim else []
                e = fb(*js) if xb.ndim else fb(*[0 for _ in shape])
                if not conc(e) or e < 0: I.fail_unless(forall(js, implies(self.in_shape(js, shape), ge(e, 0))) if js else ge(e, 0), "the shift count is not negative", PyRaise(ValueError, ("negative shift count",)))
                f = lambda *i: I.shift(op, fa(*i), fb(*i))
            else: f = lambda *i: I.scalar_op(op, fa(*i), fb(*i)) if not (conc(fa(*i)) and conc(fb(*i))) else getattr(operator, op)(fa(*i), fb(*i))
        if not shape and xa.ndim == 0 and xb.ndim == 0: return f()
        r = SArr(cached(f), shape, dt)
        r.cls = xa.cls or xb.cls
        if op == "mul":
            for p, q in ((xa, xb), (xb, xa)):
                if p.ndim == 0 and q.ndim >= 1: r.scaled = (p.get(), q if q.scaled is None else q.scaled[1]); 
                if p.ndim == 0 and q.ndim >= 1 and q.scaled is not None: r.scaled = (mul(p.get(), q.scaled[0]), q.scaled[1])
            if r.scaled is not None: 
                q = r.scaled[1]; r.scaled = (r.scaled[0], SArr(q.freeze(), q.shape, q.dtype))
        if op in ("add", "sub") and (xa.scaled is not None and xb.scaled is not None) and self.ctx.decide(eq(xa.scaled[0], xb.scaled[0])):
            r.scaled = (xa.scaled[0], self.binary(op, xa.scaled[1], xb.scaled[1]))
        return r

    def weak(self, d, x):
        """Type of a Python scalar next to an array of type d"""
        if isinstance(d, SDtype): return d
        k = x.dtype.kind if not isinstance(x.dtype, SDtype) else "f"
        if k == "b": return d if d.kind != "b" else BOOL
        if k in "iu": return d if d.kind in "iuf" else I64
        return d if d.kind == "f" else F64

    def in_shape(self, js, shape): return land(*[land(le(0, j), lt(j, s)) for j, s in zip(js, shape)])

    def unary(self, op, a):
        a = self.as_array(a); fz = a.freeze()
        if op == "USub": f = lambda *i: neg(fz(*i))
        elif op == "UAdd": f = fz
        elif op == "Invert":
            if a.sort == Bool: f = lambda *i: lnot(fz(*i))
            else: f = lambda *i: sub(neg(fz(*i)), 1)
        elif op == "abs": f = lambda *i: ite(ge(fz(*i), 0), fz(*i), neg(fz(*i)))
        else: raise Unsupported("operator %s" % op)
        r = SArr(cached(f), a.shape, a.dtype); r.cls = a.cls
        return r if a.ndim else f()

    def compare(self, op, a, b):
        shape, (fa, fb), (xa, xb) = self.broadcast(a, b)
        c = {"Eq": eq, "NotEq": ne, "Lt": lt, "LtE": le, "Gt": gt, "GtE": ge}[op]
        if op not in ("Eq", "NotEq") and (xa.sort == Elem or xb.sort == Elem): raise Unsupported("ordering of opaque values")
        if not shape: return c(fa(), fb())
        return SArr(cached(lambda *i: c(fa(*i), fb(*i))), shape, BOOL)

    def elementwise(self, f, *xs, dtype=None):
        shape, fns, arrs = self.broadcast(*xs)
        dt = dtype
        if dt is None:
            dt = arrs[0].dtype
            for x in arrs[1:]: dt = self.promote(dt, x.dtype)
        if not shape: return f(*[g() for g in fns])
        return SArr(cached(lambda *i: f(*[g(*i) for g in fns])), shape, dt)

    def f_where(self, c, a=None, b=None):
        if a is None: return self.f_nonzero(c)
        c = self.as_array(c)
        if c.sort != Bool: c = self.convert(c, BOOL, False)
        xa, xb = self.as_array(a), self.as_array(b)
        dt = self.promote(xa.dtype if xa.ndim or not xb.ndim else self.weak(xb.dtype, xa), xb.dtype if xb.ndim or not xa.ndim else self.weak(xa.dtype, xb))
        so = sort_of(dt)
        return self.elementwise(lambda x, y, z: ite(x, t(y, so) if is_sym(y) else y, t(z, so) if is_sym(z) else z), c, xa, xb, dtype=dt)
    def f_abs(self, a): return self.unary("abs", a)
    f_absolute = f_abs
    def f_negative(self, a): return self.unary("USub", a)
    def f_logical_not(self, a): return self.unary("Invert", self.as_array(a) if self.as_array(a).sort == Bool else self.convert(self.as_array(a), BOOL, False))
    def f_invert(self, a): return self.unary("Invert", a)
    def f_clip(self, a, lo=None, hi=None, a_min=None, a_max=None, out=None):
        lo = a_min if lo is None else lo; hi = a_max if hi is None else hi
        r = self.as_array(a)
        if lo is not None: r = self.elementwise(tmax, r, lo, dtype=r.dtype)
        if hi is not None: r = self.elementwise(tmin, r, hi, dtype=r.dtype)
        return r
    def f_floor(self, a):
        r = self.elementwise(lambda x: z3.ToReal(z3.ToInt(t(x, Real))), a, dtype=F64)
        return r
    def f_shape(self, a): return tuple(self.as_array(a).shape)
    def f_ndim(self, a): return self.as_array(a).ndim
    def f_size(self, a): return prod(self.as_array(a).shape)

    # ------------------------------------------------------------ reductions
    def summand(self, a):
        fz = a.freeze()
        so = Int if a.sort == Bool else a.sort
        return lambda i: t(fz(i), so)
    def f_sum(self, a, axis=None, dtype=None, out=None):
        a = self.as_array(a)
        if a.sort == Elem: raise Unsupported("sum of opaque values")
        if a.ndim == 0: return self.scalar(a)
        if a.ndim > 1: raise Unsupported("sum over several dimensions")
        n = self.I.known_int(a.shape[0])
        if n is not None and n <= 64:
            r = 0
            for i in range(n): r = add(r, num(a.get(i)) if not isinstance(a.get(i), z3.BoolRef) else t(a.get(i), Int))
            return r
        self.use("sum")
        return self.psum(a, a.shape[0])
    def psum(self, a, k):
        return self.ctx.psum(self.summand(a), k, a.shape[0])
    def f_cumsum(self, a, axis=None, dtype=None, out=None):
        a = self.as_array(a)
        if a.ndim != 1: raise Unsupported("cumsum of a multi-dimensional array")
        if a.sort == Elem: raise Unsupported("sum of opaque values")
        dt = I64 if a.sort in (Int, Bool) else a.dtype
        if dtype is not None: dt = to_dtype(dtype)
        self.use("cumsum")
        s = self.summand(a); n = a.shape[0]
        f = cached(lambda i: self.ctx.psum(s, add(i, 1), n) if True else None)
        # write S(i+1) as S(i) + a(i), which is how it is used nearly always
        g = cached(lambda i: add(self.ctx.psum(s, i, n), s(i)))
        r = SArr(g, a.shape, dt, name="cumsum")
        if a.scaled is not None:
            r.scaled = (a.scaled[0], self.f_cumsum(a.scaled[1]))
        return r
    def f_prod(self, a, axis=None, dtype=None):
        if isinstance(a, (tuple, list)): return prod([self.scalar(x) for x in a])
        a = self.as_array(a)
        n = self.I.known_int(a.shape[0]) if a.ndim == 1 else None
        if n is None: raise Unsupported("product of an array")
        return prod([a.get(i) for i in range(n)])
    def f_any(self, a, axis=None):
        a = self.as_array(a); js = [fresh_int("j") for _ in a.shape]
        tr = self.I.truth(a.get(*js)) if a.ndim else self.I.truth(a.get())
        ctx = self.ctx
        if getattr(ctx, "named_any", False) and a.ndim == 1 and is_sym(tr):
            # a name for the result, with an element for which it holds
            b = ctx.fresh_fn("any", 0, Bool)(); w = ctx.fresh_fn("anyw", 0)()
            ff = a.freeze(); n = a.shape[0]
            at = lambda j: implies(land(le(0, j), lt(j, n), self.I.truth(ff(j))), b)
            ctx.fact(at(js[0]), js, [tr] if False else ())
            ctx.fact(implies(b, land(le(0, w), lt(w, n), self.I.truth(ff(w)))))
            if not ctx.quiet: ctx.anys = getattr(ctx, "anys", []) + [at]
            return b
        return lit(lnot(forall(js, implies(self.in_shape(js, a.shape), lnot(tr)))))
    def f_all(self, a, axis=None):
        a = self.as_array(a); js = [fresh_int("j") for _ in a.shape]
        return forall(js, implies(self.in_shape(js, a.shape), self.I.truth(a.get(*js))))
    def f_array_equal(self, a, b):
        a, b = self.as_array(a), self.as_array(b)
        if a.ndim != b.ndim: return False
        js = [fresh_int("j") for _ in a.shape]
        return land(*[eq(x, y) for x, y in zip(a.shape, b.shape)], forall(js, implies(self.in_shape(js, a.shape), eq(a.get(*js), b.get(*js)))))
    def f_count_nonzero(self, a, axis=None): return self.f_sum(self.convert(self.as_array(a), BOOL, False))

    def extremum(self, a, c, name):
        a = self.as_array(a)
        if a.ndim != 1: raise Unsupported("%s of a multi-dimensional array" % name)
        self.use(name)
        n = a.shape[0]
        self.I.fail_unless(gt(n, 0), "%s of a non-empty array" % name, PyRaise(ValueError, ("zero-size array",)))
        m = self.ctx.fresh(name, a.sort); w = self.ctx.fresh("arg" + name)
        j = fresh_int("j")
        self.ctx.fact(land(le(0, w), lt(w, n), eq(m, a.get(w))))
        self.ctx.fact(implies(land(le(0, j), lt(j, n)), c(m, a.get(j))), [j])
        if not self.ctx.quiet: self.ctx.extrema = getattr(self.ctx, "extrema", []) + [dict(m=m, w=w, n=n, f=a.freeze(), is_one=land(le(0, w), lt(w, n), eq(m, a.get(w))), bound=lambda j: implies(land(le(0, j), lt(j, n)), c(m, a.get(j))))]
        return m
    def f_amin(self, a, axis=None): return self.extremum(a, le, "amin")
    def f_amax(self, a, axis=None): return self.extremum(a, ge, "amax")
    f_min = f_amin; f_max = f_amax

    # ------------------------------------------------------------ sorting and searching
    def f_argsort(self, a, axis=-1, kind=None, order=None):
        a = self.as_array(a)
        if a.ndim != 1: raise Unsupported("argsort of a multi-dimensional array")
        if a.sort == Elem: raise Unsupported("sorting of opaque values")
        self.use("argsort")
        n = a.shape[0]
        p = self.ctx.fresh_fn("perm", 1); q = self.ctx.fresh_fn("invperm", 1)
        i, j = fresh_int("i"), fresh_int("j")
        fz = a.freeze()
        inr = lambda x: land(le(0, x), lt(x, n))
        self.ctx.fact(implies(inr(i), land(inr(p(i)), eq(q(p(i)), i))), [i], [p(i)])
        self.ctx.fact(implies(inr(i), land(inr(q(i)), eq(p(q(i)), i))), [i], [q(i)])
        trig = fz(i)
        if usable_trigger(trig, [i]): self.ctx.fact(implies(inr(i), land(inr(q(i)), eq(p(q(i)), i))), [i], [trig])
        srt = lambda x: fz(p(x))
        self.ctx.fact(implies(land(le(0, i), lt(i, j), lt(j, n)), le(srt(i), srt(j))), [i, j], [z3.MultiPattern(p(i), p(j))])
        if kind in ("mergesort", "stable"):
            self.ctx.fact(implies(land(le(0, i), lt(i, j), lt(j, n), eq(srt(i), srt(j))), lt(p(i), p(j))), [i, j], [z3.MultiPattern(p(i), p(j))])
        self.ctx.argsorts = getattr(self.ctx, "argsorts", []) + [dict(p=p, q=q, n=n, f=fz, perm=lambda i: implies(inr(i), land(inr(p(i)), eq(q(p(i)), i))),
            inv=lambda i: implies(inr(i), land(inr(q(i)), eq(p(q(i)), i))), order=lambda i, j: implies(land(le(0, i), le(i, j), lt(j, n)), le(srt(i), srt(j))))]
        r = SArr(lambda x: p(x), [n], I64, name="argsort")
        r.inv = q; r.is_argsort_of = a
        return r
    def f_lexsort(self, keys, axis=-1):
        keys = [self.as_array(x) for x in self.I.resolve(keys)]
        if not keys or any(x.ndim != 1 or x.sort == Elem for x in keys): raise Unsupported("lexsort of these keys")
        self.use("lexsort")
        n = keys[0].shape[0]
        for x in keys[1:]: self.same(x.shape[0], n, "sorting keys have equal lengths")
        p, q = self.ctx.fresh_fn("perm", 1), self.ctx.fresh_fn("invperm", 1)
        i, j = fresh_int("i"), fresh_int("j")
        fs = [x.freeze() for x in keys]
        inr = lambda x: land(le(0, x), lt(x, n))
        perm = lambda i: implies(inr(i), land(inr(p(i)), eq(q(p(i)), i)))
        inv = lambda i: implies(inr(i), land(inr(q(i)), eq(p(q(i)), i)))
        def before(i, j):
            r = lt(p(i), p(j))
            for f in fs: r = lor(lt(f(p(i)), f(p(j))), land(eq(f(p(i)), f(p(j))), r))
            return r
        order = lambda i, j: implies(land(le(0, i), lt(i, j), lt(j, n)), before(i, j))
        self.ctx.fact(perm(i), [i], [p(i)]); self.ctx.fact(inv(i), [i], [q(i)])
        self.ctx.fact(order(i, j), [i, j], [z3.MultiPattern(p(i), p(j))])
        self.ctx.argsorts = getattr(self.ctx, "argsorts", []) + [dict(p=p, q=q, n=n, f=fs[-1], perm=perm, inv=inv, order=order)]
        r = SArr(lambda x: p(x), [n], I64, name="lexsort")
        r.inv = q
        return r
    def f_sort(self, a, axis=-1, kind=None):
        a = self.as_array(a)
        return self.getitem(a, self.f_argsort(a, kind=kind))
    def sort_inplace(self, a):
        self.store(a, None, self.f_sort(a))

    def f_searchsorted(self, a, v, side="left", sorter=None):
        a = self.as_array(a)
        if sorter is not None: a = self.getitem(a, sorter)
        if a.ndim != 1: raise PyRaise(ValueError, ("object too deep for desired array",))
        self.use("searchsorted")
        v0 = v; v = self.as_array(v)
        n = a.shape[0]; fa = a.freeze(); fv = v.freeze()
        # the array searched must be sorted: an obligation
        i, j = fresh_int("i"), fresh_int("j")
        self.ctx.require(forall([i, j], implies(land(le(0, i), lt(i, j), lt(j, n)), le(fa(i), fa(j)))), "the array searched is in ascending order")
        s = self.ctx.fresh_fn("search", v.ndim)
        idx = [fresh_int("k") for _ in v.shape]
        r = s(*idx)
        dom = self.in_shape(idx, v.shape)
        pat = [r] if v.ndim else []
        self.ctx.fact(implies(dom, land(le(0, r), le(r, n))), idx, pat)
        # the defining inequalities hold at every element, not only next to the result (the array is sorted)
        below = (lambda x, y: lt(x, y)) if side == "left" else (lambda x, y: le(x, y))
        self.ctx.fact(implies(land(dom, le(0, j), lt(j, r)), below(fa(j), fv(*idx))), idx + [j])
        self.ctx.fact(implies(land(dom, le(r, j), lt(j, n)), lnot(below(fa(j), fv(*idx)))), idx + [j])
        # and at the neighbours of the result
        self.ctx.fact(implies(land(dom, gt(r, 0)), below(fa(sub(r, 1)), fv(*idx))), idx, pat)
        self.ctx.fact(implies(land(dom, lt(r, n)), lnot(below(fa(r), fv(*idx)))), idx, pat)
        self.ctx.searches = getattr(self.ctx, "searches", []) + [dict(s=s, n=n, side=side, fa=fa, fv=fv, shape=list(v.shape),
            rng=lambda *k: implies(self.in_shape(k, v.shape), land(le(0, s(*k)), le(s(*k), n))),
            below=lambda j, *k: implies(land(self.in_shape(k, v.shape), le(0, j), lt(j, s(*k))), below(fa(j), fv(*k))),
            above=lambda j, *k: implies(land(self.in_shape(k, v.shape), le(s(*k), j), lt(j, n)), lnot(below(fa(j), fv(*k)))))]
        if v.ndim == 0: return r
        res = SArr(lambda *k: s(*k), v.shape, I64, name="searchsorted")
        return res

    def count_before(self, mask):
        """Number of true elements before position i"""
        fz = self.ctx.named(mask.freeze(), 1, "mask")
        return lambda i: self.ctx.psum(lambda j: t(fz(j), Int), i, mask.shape[0])

    def selection(self, mask):
        """Positions of the true elements of a mask: (count, position of the j-th)"""
        fz = self.ctx.named(mask.freeze(), 1, "mask"); n = mask.shape[0]
        key = ("sel", canonical(z3.simplify(t(fz(z3.Int("_selidx")), Bool))).sexpr(), str(n))
        memo = getattr(self.ctx, "selmemo", None)
        if memo is None: memo = self.ctx.selmemo = {}
        scope = tuple(b.get_id() for b, _ in self.ctx.binders)
        if (key, scope) in memo and not self.ctx.quiet: return memo[(key, scope)]
        self.use("boolean indexing")
        pc = self.count_before(mask)
        cnt = pc(n)
        self.ctx.fact(ge(cnt, 0))
        sel = self.ctx.fresh_fn("sel", 1)
        i, j = fresh_int("i"), fresh_int("j")
        self.ctx.fact(implies(land(le(0, j), lt(j, cnt)), land(le(0, sel(j)), lt(sel(j), n), fz(sel(j)), eq(pc(sel(j)), j))), [j], [sel(j)])
        trig = t(pc(i))
        self.ctx.fact(implies(land(le(0, i), lt(i, n), fz(i)), land(le(0, pc(i)), lt(pc(i), cnt), eq(sel(pc(i)), i))), [i], [sel(pc(i))] if not contains(trig, i) else [trig] if is_sym(trig) and trig.num_args() else [])
        self.ctx.fact(implies(land(le(0, i), lt(i, j), lt(j, cnt)), lt(sel(i), sel(j))), [i, j], [z3.MultiPattern(sel(i), sel(j))])
        r = (cnt, sel, pc)
        if not self.ctx.quiet: self.ctx.selections = getattr(self.ctx, "selections", []) + [dict(cnt=cnt, sel=sel, pc=pc, mask=fz, n=n,
            at=lambda i: implies(land(le(0, i), lt(i, n), fz(i)), land(le(0, pc(i)), lt(pc(i), cnt), eq(sel(pc(i)), i))),
            val=lambda j: implies(land(le(0, j), lt(j, cnt)), land(le(0, sel(j)), lt(sel(j), n), fz(sel(j)), eq(pc(sel(j)), j))))]
        if not self.ctx.quiet: memo[(key, scope)] = r
        if not self.ctx.quiet and getattr(self.ctx, "on_selection", None): self.ctx.on_selection(self.ctx.selections[-1])
        if getattr(mask, "repeat_of", None): self.count_repeat(mask, pc)
        return r

    def count_repeat(self, mask, pc):
        """True elements of repeat(m, rep) before position p: by induction over the segments"""
        m, rep, S, own, n = mask.repeat_of
        ctx = self.ctx
        T = lambda k: ctx.psum(lambda r: ite(m(r), rep(r), 0), k, n)
        k, p = fresh_int("k"), fresh_int("p")
        ind = lambda d: ite(m(k), d, 0)
        inr = land(le(0, k), lt(k, n))
        mf = self.ctx.named(mask.freeze(), 1, "mask")
        summand = lambda j: t(mf(j), Int)
        inst = ctx.induct("count of repeated mask within a segment", lambda d: eq(pc(add(S(k), d)), add(pc(S(k)), ind(d))), 0, rep(k), lambda d: [pc(add(S(k), d))], [k], inr,
                          hints=lambda d: [ctx.step(summand, add(S(k), d), mask.shape[0]), ctx.nonneg(rep, k, n)])
        ctx.induct("count of repeated mask up to a segment", lambda k: eq(pc(S(k)), T(k)), 0, n, lambda k: [pc(S(k))],
                   hints=lambda k: [inst(rep(k), k), ctx.step(rep, k, n), ctx.step(lambda r: ite(m(r), rep(r), 0), k, n), implies(land(le(0, k), lt(k, n)), ge(rep(k), 0))])
        ctx.lemma(implies(land(le(0, p), lt(p, S(n))), eq(pc(p), add(T(own(p)), ite(m(own(p)), sub(p, S(own(p))), 0)))), "count of repeated mask", [p], [own(p)],
                  hints=[inst(sub(p, S(own(p))), own(p))])

    def f_nonzero(self, a):
        a = self.as_array(a)
        if a.ndim != 1: raise Unsupported("nonzero of a multi-dimensional array")
        if a.sort != Bool: a = self.convert(a, BOOL, False)
        cnt, sel, pc = self.selection(a)
        return (SArr(lambda j: sel(j), [cnt], I64, name="nonzero"),)
    def f_flatnonzero(self, a): return self.f_nonzero(a)[0]

    def f_concatenate(self, arrs, axis=0):
        arrs = arrs.items if isinstance(arrs, GenList) else arrs
        arrs = [self.as_array(x) for x in (self.I.concrete_iter(arrs) if not isinstance(arrs, (list, tuple)) else arrs)]
        if axis not in (0, None): raise Unsupported("concatenation along another axis")
        dt = arrs[0].dtype
        nonempty = [x for x in arrs if not (conc(x.shape[0]) and x.shape[0] == 0)]
        for x in arrs[1:]: dt = self.promote(dt, x.dtype)
        so = sort_of(dt)
        for x in arrs[1:]:
            for p, q in zip(x.shape[1:], arrs[0].shape[1:]): self.same(p, q, "trailing dimensions agree")
        offs = [0]
        for x in arrs: offs.append(add(offs[-1], x.shape[0]))
        fz = [x.freeze() for x in arrs]
        def fn(i, *r):
            out = fz[-1](sub(i, offs[len(arrs) - 1]), *r)
            out = t(out, so) if is_sym(out) else out
            for j in range(len(arrs) - 2, -1, -1):
                v = fz[j](sub(i, offs[j]), *r); v = t(v, so) if is_sym(v) else v
                out = ite(lt(i, offs[j + 1]), v, out)
            return out
        return SArr(cached(fn), (offs[-1],) + tuple(arrs[0].shape[1:]), dt)
    def f_append(self, a, v, axis=None):
        v = self.as_array(v)
        if v.ndim == 0: w = v; v = SArr(lambda i: w.get(), [1], w.dtype)
        return self.f_concatenate([a, v])
    def f_hstack(self, arrs): return self.f_concatenate(arrs)
    def f_diff(self, a):
        a = self.as_array(a); fz = a.freeze()
        return SArr(cached(lambda i: sub(fz(add(i, 1)), fz(i))), [sub(a.shape[0], 1)], a.dtype)
    def f_take(self, a, i, axis=None): return self.getitem(self.as_array(a), i)
    def f_compress(self, c, a, axis=None): return self.getitem(self.as_array(a), c)
    def f_delete(self, *a, **k): raise Unsupported("numpy.delete")

    def f_repeat(self, a, repeats, axis=None):
        a0 = a; a = self.as_array(a)
        self.use("repeat")
        if a.ndim == 0: a = SArr(lambda i, a=a: a.get(), [1], a.dtype)
        if a.ndim > 1 and axis != 0: raise Unsupported("repeat along another axis")
        rep = self.as_array(repeats)
        fz = a.freeze(); n = a.shape[0]
        if rep.ndim == 0:
            r0 = rep.get(); rep = SArr(lambda i: r0, [n], I64)
        self.same(rep.shape[0], n, "as many repeat counts as elements")
        j = fresh_int("j"); i = fresh_int("i")
        fr = self.ctx.named(rep.freeze(), 1, "repeats")
        if a.sort == Bool: fz = self.ctx.named(fz, a.ndim, "repeated")
        self.I.fail_unless(forall([j], implies(land(le(0, j), lt(j, n)), ge(fr(j), 0))), "repeat counts are not negative", PyRaise(ValueError, ("repeats may not contain negative values",)))
        S = lambda k: self.psum(rep, k)
        tot = S(n)
        own = self.owner(S, fr, n, "rep")
        r = SArr(cached(lambda i, *rest: fz(own(i), *rest)), (tot,) + tuple(a.shape[1:]), a.dtype, name="repeat")
        r.owner = own
        r.repeat_of = (fz, fr, S, own, n)
        return r

    def owner(self, S, f, n, name):
        """Partition lemma: for f >= 0 with partial sums S every 0 <= p < S(n) lies in exactly one [S(o), S(o)+f(o))"""
        self.ctx.used.add("lemma: partial sums partition [0,total)")
        own = self.ctx.fresh_fn("own_" + name, 1)
        p, o = fresh_int("p"), fresh_int("o")
        def uniq(p, o): return implies(land(le(0, o), lt(o, n), le(S(o), p), lt(p, add(S(o), f(o)))), land(lt(p, S(n)), eq(own(p), o)))
        self.ctx.owners = getattr(self.ctx, "owners", []) + [dict(S=S, f=f, n=n, own=own, uniq=uniq, pos=lambda j: implies(land(le(0, j), lt(j, n)), ge(f(j), 0)))]
        self.ctx.fact(implies(land(le(0, p), lt(p, S(n))), land(le(0, own(p)), lt(own(p), n), le(S(own(p)), p), lt(p, add(S(own(p)), f(own(p)))))), [p], [own(p)])
        if usable_trigger(S(o), [o]): self.ctx.fact(implies(land(le(0, o), lt(o, n), le(S(o), p), lt(p, add(S(o), f(o)))), land(lt(p, S(n)), eq(own(p), o))), [p, o], [z3.MultiPattern(own(p), S(o))])
        return own

    def f_unique(self, a, return_index=False, return_inverse=False, return_counts=False):
        a = self.as_array(a)
        if a.ndim != 1: raise Unsupported("unique of a multi-dimensional array")
        self.use("unique")
        n = a.shape[0]; fa = a.freeze()
        m = self.ctx.fresh("nunique")
        u = self.ctx.fresh_fn("uniq", 1, a.sort); pos = self.ctx.fresh_fn("upos", 1); first = self.ctx.fresh_fn("ufirst", 1); cnt = self.ctx.fresh_fn("ucount", 1)
        i, j = fresh_int("i"), fresh_int("j")
        ctx = self.ctx
        ctx.fact(land(ge(m, 0), le(m, n), implies(gt(n, 0), gt(m, 0))))
        ctx.fact(implies(land(le(0, i), lt(i, j), lt(j, m)), lt(u(i), u(j))), [i, j], [z3.MultiPattern(u(i), u(j))])
        ctx.fact(implies(land(le(0, i), lt(i, n)), land(le(0, pos(i)), lt(pos(i), m), eq(u(pos(i)), fa(i)))), [i], [pos(i)])
        ctx.fact(implies(land(le(0, i), lt(i, n)), land(le(0, pos(i)), lt(pos(i), m), eq(u(pos(i)), fa(i)))), [i])
        ctx.fact(implies(land(le(0, i), lt(i, m)), land(le(0, first(i)), lt(first(i), n), eq(fa(first(i)), u(i)))), [i], [u(i)])
        ctx.fact(implies(land(le(0, i), lt(i, m), le(0, j), lt(j, n), eq(fa(j), u(i))), le(first(i), j)), [i, j], [z3.MultiPattern(first(i), t(fa(j)))] if is_sym(fa(j)) and z3.is_app(fa(j)) and fa(j).num_args() else [])
        # counts: number of elements equal to the value
        def count_of(v): return ctx.psum(lambda jj: z3.If(t(eq(fa(jj), v)), t(1), t(0)), n, n)
        if return_counts:
            ctx.fact(implies(land(le(0, i), lt(i, m)), ge(cnt(i), 1)), [i], [cnt(i)])
            U = u(i)
            cv = z3.Const("_cv", a.sort)
            ctx.uniq_counts = getattr(ctx, "uniq_counts", []) + [(cnt, u, m, fa, n)]
        out = [SArr(lambda k: u(k), [m], a.dtype, name="unique")]
        if return_index: out.append(SArr(lambda k: first(k), [m], I64, name="uindex"))
        if return_inverse: out.append(SArr(lambda k: pos(k), [n], I64, name="uinv"))
        if return_counts: out.append(SArr(lambda k: cnt(k), [m], I64, name="ucount"))
        out[0].uniq = dict(m=m, u=u, pos=pos, first=first, cnt=cnt, fa=fa, n=n)
        return out[0] if len(out) == 1 else tuple(out)

    # ------------------------------------------------------------ powers of two, exclusive or
    def pow2(self, b):
        if conc(b): return 2 ** int(b)
        ctx = self.ctx
        f = z3.Function("pow2", Int, Int)
        if not getattr(ctx, "pow2_facts", False):
            ctx.pow2_facts = True
            j = z3.Int("_j")
            ctx.facts += [f(t(0)) == 1, z3.ForAll([j], z3.Implies(j >= 0, z3.And(f(j) >= 1, f(j) > j)), patterns=[f(j)])]
        return f(t(b))
    def band(self, a, b):
        """Bitwise and: bits(a, b, e, w) says what it is if b has w bits set from bit e on"""
        f = z3.Function("band", Int, Int, Int)
        self.ctx.used.add("numpy.bitwise_and")
        r = f(t(a), t(b))
        ctx = self.ctx
        if not getattr(ctx, "band_facts", False):
            ctx.band_facts = True
            x, y = z3.Int("_x"), z3.Int("_y"); ctx.facts.append(z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]))
        bands = ctx.bands = getattr(ctx, "bands", [])
        if not ctx.quiet and not any(r.eq(x[0]) for x in bands): bands.append((r, t(a), t(b)))
        return r
    def band_rule(self, band, e, w):
        """a & b where one of them is (2^w - 1) 2^e, e >= 0"""
        r, a, b = band
        p = t(self.pow2(e))
        def rule(x, m): return implies(land(ge(e, 0), eq(m, mul(2 ** w - 1, p))), eq(r, mul(mod(floordiv(x, p), 2 ** w), p)))
        return land(rule(a, b), rule(b, a))
    def xor(self, a, b):
        if conc(a) and conc(b): return a ^ b
        f = z3.Function("xor", Int, Int, Int)
        ctx = self.ctx
        if not getattr(ctx, "xor_facts", False):
            ctx.xor_facts = True; ctx.used.add("lemma: exclusive or of non-negative integers (checked for 32-bit vectors)")
            x, y, m = z3.Int("_x"), z3.Int("_y"), z3.Int("_m")
            p2 = z3.Function("pow2", Int, Int)
            self.pow2(z3.Int("_m"))
            nn = z3.And(x >= 0, y >= 0)
            ctx.facts += [z3.ForAll([x, y], z3.Implies(nn, f(x, y) >= 0), patterns=[f(x, y)]),
                          z3.ForAll([x, y], z3.Implies(nn, f(x, f(x, y)) == y), patterns=[f(x, f(x, y))]),
                          z3.ForAll([x, y], z3.Implies(nn, f(f(x, y), y) == x), patterns=[f(f(x, y), y)]),
                          z3.ForAll([x, y], z3.Implies(nn, f(x, y) == f(y, x)), patterns=[z3.MultiPattern(f(x, y), f(y, x))]),
                          z3.ForAll([x, y, m], z3.Implies(z3.And(x >= 0, y >= 0, m >= 0, x < p2(m), y < p2(m)), f(x, y) < p2(m)), patterns=[z3.MultiPattern(f(x, y), p2(m))])]
            ctx.xor_rules = lambda x, y: [z3.Implies(z3.And(t(x) >= 0, t(y) >= 0), z3.And(f(t(x), t(y)) >= 0, f(t(x), f(t(x), t(y))) == t(y), f(f(t(x), t(y)), t(y)) == t(x), f(t(x), t(y)) == f(t(y), t(x))))]
        r = f(t(a), t(b))
        for h in ctx.xor_rules(a, b):
            if not any(h.eq(x) for x in ctx.hints): ctx.hints.append(h)
        return r

    # ------------------------------------------------------------ indexing
    def norm_key(self, a, k):
        """Expand Ellipsis, fill up with full slices"""
        if not isinstance(k, tuple): k = (k,)
        k = [self.I.resolve(x) for x in k]
        k = [x.items if isinstance(x, GenList) else x for x in k]
        n = sum(1 for x in k if x is not None and x is not Ellipsis)
        if any(x is Ellipsis for x in k):
            i = [x is Ellipsis for x in k].index(True)
            k[i:i + 1] = [slice(None)] * (a.ndim - n)
        else: k += [slice(None)] * (a.ndim - n)
        if sum(1 for x in k if x is not None) > a.ndim:
            b = [x for x in k if isinstance(x, SArr) and x.sort == Bool and x.ndim > 1]
            raise Unsupported("index") if b else PyRaise(IndexError, ("too many indices",))
        return k

    def slice_bounds(self, s, n):
        """(start, length, step) of a slice of n elements"""
        step = s.step if s.step is not None else 1
        step = self.scalar(step)
        if is_sym(step): raise Unsupported("slice step")
        if step == -1 and s.start is None and s.stop is None: return sub(n, 1), n, -1
        if step < 0: raise Unsupported("negative slice step")
        def clamp(x, default):
            if x is None: return default
            x = self.scalar(x)
            if not (is_int(x)): 
                if is_boolish(x) or not is_num(x): raise Unsupported("slice bound")
                raise PyRaise(TypeError, ("slice indices must be integers",))
            if conc(x) and conc(n):
                return min(max(x + n if x < 0 else x, 0), n)
            if conc(x):
                if x == 0: return 0
                if x > 0: return x if self.ctx.decide(le(x, n)) else tmin(x, n)
                y = add(x, n)
                return y if self.ctx.decide(ge(y, 0)) else tmax(y, 0)
            if self.ctx.decide(land(le(0, x), le(x, n))): return x
            if self.ctx.decide(ge(x, 0)): return tmin(x, n)
            if self.ctx.decide(lt(x, 0)): return tmax(add(x, n), 0)
            return ite(lt(x, 0), tmax(add(x, n), 0), tmin(x, n))
        lo, hi = clamp(s.start, 0), clamp(s.stop, n)
        if conc(lo) and conc(hi): ln = max(0, hi - lo)
        else:
            ln = sub(hi, lo)
            if not self.ctx.decide(ge(ln, 0)): ln = tmax(0, ln)
        if step != 1: ln = floordiv(add(ln, step - 1), step)
        return lo, ln, step

    def norm_index(self, i, n, inbounds=False):
        """Integer index with Python's meaning of negative values; must be in range"""
        i = self.scalar(i)
        if isinstance(i, z3.BoolRef) or isinstance(i, (bool, np.bool_)): raise Unsupported("boolean scalar index")
        if not is_int(i): raise PyRaise(IndexError, ("only integers",)) if conc(i) else Unsupported("index %s" % i)
        if inbounds: return i
        if conc(i):
            if i < 0:
                self.I.fail_unless(ge(n, -i), "index %d in range" % i, PyRaise(IndexError, ("index out of range",)))
                return add(n, i)
            self.I.fail_unless(lt(i, n), "index %d in range" % i, PyRaise(IndexError, ("index out of range",)))
            return i
        if self.ctx.decide(ge(i, 0)):
            self.I.fail_unless(lt(i, n), "index in range", PyRaise(IndexError, ("index out of range",)))
            return i
        self.I.fail_unless(land(le(neg(n), i), lt(i, n)), "index in range", PyRaise(IndexError, ("index out of range",)))
        return ite(lt(i, 0), add(i, n), i)

    def norm_index_array(self, x, n):
        """Function giving non-negative indexes; all must be in range"""
        fx = x.freeze()
        js = [fresh_int("j") for _ in x.shape]
        v = fx(*js)
        dom = self.in_shape(js, x.shape)
        goal0 = forall(js, implies(dom, land(le(0, v), lt(v, n))))
        if self.ctx.element_hints is not None and len(js) == 1 and not self.ctx.quiet:
            # one element, with instances of what is known about it
            self.ctx.prove(implies(dom, land(le(0, v), lt(v, n))), "indexes are in range", hints=self.ctx.element_hints(js[0]))
            self.ctx.fact(goal0)
            return fx
        if self.ctx.quick(goal0, 300000) or (x.inv is not None):
            self.ctx.require(goal0, "indexes are in range")
            return fx
        if self.ctx.quick(forall(js, implies(dom, ge(v, 0))), 300000) or not self.mentions_negative(v):
            self.I.fail_unless(goal0, "indexes are in range", PyRaise(IndexError, ("index out of bounds",)))
            return fx
        self.I.fail_unless(forall(js, implies(dom, land(le(neg(n), v), lt(v, n)))), "indexes are in range", PyRaise(IndexError, ("index out of bounds",)))
        return cached(lambda *i: ite(lt(fx(*i), 0), add(fx(*i), n), fx(*i)))

    def mentions_negative(self, v): return True

    def getitem(self, a, k, inbounds=False):
        I = self.I
        if a.flat_of is not None:
            raise Unsupported("subscript of a flattened array")
        if isinstance(k, str): raise Unsupported("field of an array")
        dots = k is Ellipsis or isinstance(k, tuple) and any(x is Ellipsis for x in k)
        k = self.norm_key(a, k)
        if a.ndim == 0:
            return a.get() if not k or all(x is None for x in k) and not k else a.get()
        # views
        if all(x is None or isinstance(x, slice) or not isinstance(x, (SArr, np.ndarray, list)) for x in k):
            maps, shape = [], []
            ax = 0
            full = True
            for x in k:
                if x is None: shape.append(1); maps.append(("new",)); continue
                n = a.shape[ax]
                if isinstance(x, slice):
                    lo, ln, st = self.slice_bounds(x, n)
                    if not (conc(lo) and lo == 0 and st == 1 and (ln is n or conc(ln) and conc(n) and ln == n)): full = False
                    maps.append(("s", lo, st)); shape.append(ln)
                else: maps.append(("i", self.norm_index(x, n, inbounds and ax == 0)))
                ax += 1
            def imap(*idx):
                out, p = [], 0
                for m in maps:
                    if m[0] == "new": p += 1
                    elif m[0] == "s": out.append(add(m[1], mul(m[2], idx[p])) if not (conc(m[2]) and m[2] == 1 and conc(m[1]) and m[1] == 0) else idx[p]); p += 1
                    else: out.append(m[1])
                return tuple(out)
            if not shape:
                if dots and a.ndim:          # with ... this is a view of one element
                    v = a.view(shape, imap, contig=True); v.is_view_of = a
                    return v
                v = a.get(*imap())
                return v
            lead = [m for m in maps if m[0] != "new"]
            contig = a.contig is True and all(m[0] == "s" and conc(m[1]) and m[1] == 0 and m[2] == 1 for m in lead[1:]) and (lead[0][0] == "i" or lead[0][2] == 1) and all(d is e or (conc(d) and conc(e) and d == e) for d, e in zip(shape[1:] if lead[0][0] == "s" else shape, a.shape[1:]))
            if a.pylist:
                if len(k) != 1: raise PyRaise(TypeError, ("list indices",))
                r = SArr(cached(a.view(shape, imap).freeze()), shape, a.dtype, pylist=True); return r
            v = a.view(shape, imap, contig=bool(contig) if contig in (True, False) else False)
            v.is_view_of = a
            if full: v.inv = a.inv
            return v
        # advanced indexing
        adv = [i for i, x in enumerate(k) if isinstance(x, (SArr, np.ndarray, list)) ]
        if any(x is None for x in k): raise Unsupported("newaxis with index arrays")
        if a.pylist: raise PyRaise(TypeError, ("list indices",))
        if len(adv) == 1:
            ax = adv[0]; x = self.as_array(k[ax])
            pre = [k[i] for i in range(a.ndim) if i != ax]
            b = a if all(isinstance(y, slice) and y == slice(None) for y in pre) else self.getitem(a, tuple(slice(None) if i == ax else k[i] for i in range(a.ndim)))
            ax2 = ax - sum(1 for i in range(ax) if not isinstance(k[i], slice))
            fb = b.freeze(); n = b.shape[ax2]
            if x.sort == Bool:
                if x.ndim != 1: raise Unsupported("multi-dimensional mask")
                self.I.fail_unless(eq(x.shape[0], n), "mask has the length of the array", PyRaise(IndexError, ("boolean index did not match",)))
                cnt, sel, pc = self.selection(x)
                r = SArr(cached(lambda *i: fb(*(i[:ax2] + (sel(i[ax2]),) + i[ax2 + 1:]))), b.shape[:ax2] + (cnt,) + b.shape[ax2 + 1:], a.dtype, name=a.cell.name + "_sel")
                r.cls = a.cls
                return r
            if x.sort != Int: raise PyRaise(IndexError, ("arrays used as indices must be of integer (or boolean) type",))
            fx = self.norm_index_array(x, n)
            nx = x.ndim
            if nx == 0:
                return self.getitem(b, tuple([slice(None)] * ax2 + [fx()]), inbounds=False)
            r = SArr(cached(lambda *i: fb(*(i[:ax2] + (fx(*i[ax2:ax2 + nx]),) + i[ax2 + nx:]))), b.shape[:ax2] + tuple(x.shape) + b.shape[ax2 + 1:], a.dtype, name=a.cell.name + "_take")
            r.cls = a.cls
            return r
        if len(adv) == a.ndim or all(i in adv or not isinstance(k[i], slice) for i in range(a.ndim)):
            # one index array for each dimension
            shape, fns, xs = self.broadcast(*k)
            ns = [self.norm_index_array(SArr(cached(fn), shape, I64), a.shape[i]) for i, fn in enumerate(fns)]
            fa = a.freeze()
            return SArr(cached(lambda *i: fa(*[g(*i) for g in ns])), shape, a.dtype)
        raise Unsupported("index of this form")

    def store(self, a, k, v):
        """a[k] = v; k None means everything"""
        return self.setitem(a, Ellipsis, v)

    def setitem(self, a, k, v):
        I, ctx = self.I, self.ctx
        v = I.resolve(v)
        if a.flat_of is not None: raise Unsupported("assignment to a flattened array")
        if getattr(a, "may_alias", None) is not None: raise Unsupported("assignment to an array which may share storage with another")
        if a.pylist:
            if is_sym(k) or isinstance(k, int):
                kk = self.norm_index(k, a.shape[0])
                return self.update(a, lambda i: eq(i, kk), lambda i: v)
            raise Unsupported("assignment to a list slice")
        k = self.norm_key(a, k)
        if isinstance(v, Choice): raise Unsupported("value which differs between ranks")
        if any(x is None for x in k): raise Unsupported("newaxis in assignment")
        adv = [i for i, x in enumerate(k) if isinstance(x, (SArr, np.ndarray, list))]
        if not adv:
            target = self.getitem(a, tuple(k)) if any(isinstance(x, slice) for x in k) else None
            if target is None:
                idx = [self.norm_index(x, a.shape[i]) for i, x in enumerate(k)]
                val = self.scalar(v) if not (isinstance(v, SArr) and v.ndim) else None
                if val is None: raise PyRaise(ValueError, ("setting an array element with a sequence",))
                return self.update(a, lambda *i: land(*[eq(x, y) for x, y in zip(i, idx)]), lambda *i: val)
            return self.fill(target, v)
        if len(adv) == 1:
            ax = adv[0]; x = self.as_array(k[ax])
            others = tuple(slice(None) if i == ax else k[i] for i in range(a.ndim))
            b = a if all(isinstance(y, slice) and y == slice(None) for i, y in enumerate(k) if i != ax) else self.getitem(a, others)
            ax2 = ax - sum(1 for i in range(ax) if not isinstance(k[i], slice))
            n = b.shape[ax2]
            xv = self.as_array(v) if not (is_sym(v) or isinstance(v, (int, float, bool))) else self.as_array(v)
            if x.sort == Bool:
                if x.ndim != 1: raise Unsupported("multi-dimensional mask")
                self.I.fail_unless(eq(x.shape[0], n), "mask has the length of the array", PyRaise(IndexError, ("boolean index did not match",)))
                fx = x.freeze()
                if xv.ndim == 0 or xv.ndim < b.ndim and xv.ndim <= b.ndim - 1 - ax2 and ax2 == 0:
                    fv = self.bcast_to(xv, b.shape[ax2 + 1:] if xv.ndim else ())
                    return self.update(b, lambda *i: fx(i[ax2]), (lambda *i: xv.get()) if xv.ndim == 0 else (lambda *i: fv(*i[ax2 + 1:])))
                cnt, sel, pc = self.selection(x)
                shape = b.shape[:ax2] + (cnt,) + b.shape[ax2 + 1:]
                fv = self.bcast_to(xv, shape)
                return self.update(b, lambda *i: fx(i[ax2]), lambda *i: fv(*(i[:ax2] + (pc(i[ax2]),) + i[ax2 + 1:])))
            fx = self.norm_index_array(x, n)
            if x.ndim != 1:
                if x.ndim == 0: return self.fill(self.getitem(b, tuple([slice(None)] * ax2 + [fx()])), v)
                raise Unsupported("assignment with a multi-dimensional index array")
            m = x.shape[0]
            shape = b.shape[:ax2] + (m,) + b.shape[ax2 + 1:]
            fv = self.bcast_to(xv, shape)
            if x.inv is not None and ctx.decide(eq(m, n)):
                inv = x.inv
                return self.update(b, lambda *i: True, lambda *i: fv(*(i[:ax2] + (inv(i[ax2]),) + i[ax2 + 1:])))
            # general scatter: the last of several assignments to one element wins
            self.use("index array assignment")
            hit = ctx.fresh_fn("hit", 1, Bool); w = ctx.fresh_fn("lastw", 1)
            j, i_ = fresh_int("j"), fresh_int("i")
            ctx.fact(implies(land(le(0, j), lt(j, m)), land(hit(fx(j)), ge(w(fx(j)), j))), [j])
            ctx.fact(implies(hit(i_), land(le(0, w(i_)), lt(w(i_), m), eq(fx(w(i_)), i_))), [i_], [hit(i_)])
            return self.update(b, lambda *i: hit(i[ax2]), lambda *i: fv(*(i[:ax2] + (w(i[ax2]),) + i[ax2 + 1:])))
        raise Unsupported("assignment with several index arrays")

    def bcast_to(self, v, shape):
        """Function of an index of the given shape for a value which is broadcast to it"""
        if v.flat_of is not None: raise Unsupported("flattened array as value")
        fz = v.freeze(); nd = len(shape)
        if v.ndim > nd:
            raise Unsupported("value with more dimensions than the target") if not all(conc(d) and d == 1 for d in v.shape[:v.ndim - nd]) else Unsupported("leading dimensions of length one")
        off = nd - v.ndim
        one = []
        for a, d in enumerate(v.shape):
            tg = shape[off + a]
            if conc(d) and d == 1 and not (conc(tg) and tg == 1): one.append(True); continue
            one.append(False)
            if not self.ctx.decide(eq(d, tg)):
                self.I.fail_unless(eq(d, tg), "value has the shape of the target", PyRaise(ValueError, ("could not broadcast input array",)))
        return lambda *i: fz(*[0 if o else j for j, o in zip(i[off:], one)])

    def fill(self, target, v):
        xv = self.as_array(v)
        fv = self.bcast_to(xv, target.shape)
        return self.update(target, lambda *i: True, fv)

    def update(self, a, cond, val):
        """a(i) := val(i) where cond(i), for i in the shape of a (possibly a view)"""
        cell = a.cell
        old = cell.fn; so = a.sort
        nd = a.ndim
        cv = lambda x: (t(x, so) if is_sym(x) or isinstance(x, (float, np.floating)) and so == Real else (int(x) if so == Int and not isinstance(x, float) else x)) if so != Bool else (x if is_boolish(x) else ne(x, 0))
        def cv2(x):
            if so == Int and isinstance(x, (float, np.floating)): 
                if float(x) != int(x): raise Unsupported("fraction stored in an integer array")
                return int(x)
            if so == Int and is_sym(x) and x.sort() == Real:
                return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)) if not z3.is_app_of(x, z3.Z3_OP_TO_REAL) else x.arg(0)
            return cv(x)
        if a.imap is None:
            new = cached(lambda *i: ite(lit(cond(*i)), cv2(val(*i)), old(*i)) if lit(cond(*i)) is not False else old(*i))
            self.ctx.write(cell, new); return
        inv = self.invert(a)
        def new(*c):
            ok, idx = inv(c)
            ok = land(ok, self.in_shape(idx, a.shape))
            if ok is False: return old(*c)
            cc = cond(*idx)
            full = land(ok, cc)
            if full is False: return old(*c)
            return ite(full, cv2(val(*idx)), old(*c))
        self.ctx.write(cell, cached(new))

    def invert(self, a):
        """View index from the cell's index: (condition, index)"""
        nd = a.ndim
        vs = [z3.Int("_v%d" % i) for i in range(nd)]
        m = a.imap(*vs)
        m = m if isinstance(m, tuple) else (m,)
        sol = {}
        for pos, e in enumerate(m):
            for i, v in enumerate(vs):
                if is_sym(e) and e.eq(v): sol[i] = (pos, 0, 1); break
            else:
                for i, v in enumerate(vs):
                    if is_sym(e) and contains(e, v):
                        if any(contains(e, u) for u in vs if not u.eq(v)): raise Unsupported("assignment through this view")
                        off = z3.simplify(z3.substitute(e, (v, z3.IntVal(0))))
                        st = z3.simplify(z3.substitute(e, (v, z3.IntVal(1))) - off)
                        if not isinstance(st, z3.IntNumRef): raise Unsupported("assignment through this view")
                        sol[i] = (pos, lit(off), st.as_long()); break
        fixed = [(pos, e) for pos, e in enumerate(m) if not is_sym(e) or not any(contains(e, v) for v in vs)]
        if len(sol) != nd:
            if any(i not in sol and not (conc(a.shape[i]) and a.shape[i] == 1) for i in range(nd)): raise Unsupported("assignment through this view")
        def inv(c):
            conds = [eq(c[pos], e) for pos, e in fixed]
            idx = []
            for i in range(nd):
                if i not in sol: idx.append(0); continue
                pos, off, st = sol[i]
                d = sub(c[pos], off)
                if st == 1: idx.append(d)
                elif st == -1: idx.append(neg(d))
                else:
                    conds.append(eq(mod(d, st), 0)); idx.append(floordiv(d, st))
            return land(*conds), idx
        return inv

    # ------------------------------------------------------------ reduceat
    def reduceat(self, op, a, idx, axis=0, dtype=None):
        if op != "add" or axis != 0: raise Unsupported("reduceat of %s" % op)
        self.use("add.reduceat")
        a = self.as_array(a); idx = self.as_array(idx)
        n, m = a.shape[0], idx.shape[0]
        fi, fa = idx.freeze(), a.freeze()
        j = fresh_int("j")
        self.I.fail_unless(forall([j], implies(land(le(0, j), lt(j, m)), land(le(0, fi(j)), lt(fi(j), n)))), "reduceat indexes are in range", PyRaise(IndexError, ("index out of bounds",)))
        dt = to_dtype(dtype) if dtype is not None else a.dtype
        if a.sort == Elem: raise Unsupported("sum of opaque values")
        so = sort_of(dt)
        ctx = self.ctx
        def val(j, *r):
            S = lambda k: ctx.psum(lambda d: t(fa(d, *r), so), k, n)
            nxt = ite(lt(add(j, 1), m), fi(add(j, 1)), n)
            return ite(lt(fi(j), nxt), sub(S(nxt), S(fi(j))), fa(fi(j), *r))
        ctx.reduceats = getattr(ctx, "reduceats", []) + [dict(fa=lambda d, *r: t(fa(d, *r), so), n=n, fi=fi, m=m)]
        return SArr(cached(val), (m,) + tuple(a.shape[1:]), dt)


class Ufunc:
    def __init__(self, npm, name, op): self.npm, self.name, self.op = npm, name, op; self.__name__ = name
    def vcall(self, I, args, kw):
        npm = self.npm
        if kw and not (set(kw) <= {"dtype"}): raise Unsupported("ufunc keywords")
        if not has_sym(args):
            r = getattr(np, self.name)(*[Iplain(x) for x in args], **kw); return r
        a, b = args[:2]
        if len(args) > 2: raise Unsupported("ufunc output argument")
        if self.op in ("max", "min"):
            return npm.elementwise(tmax if self.op == "max" else tmin, a, b, dtype=npm.weak_pair(a, b))
        if self.op in ("land", "lor"):
            tr = I.truth
            g = land if self.op == "land" else lor
            return npm.elementwise(lambda x, y: g(tr(x), tr(y)), a, b, dtype=BOOL)
        if self.op in ("Gt", "Lt", "Eq", "NotEq", "GtE", "LtE"): return npm.compare(self.op, a, b)
        return npm.binary(self.op, a, b)
    def vattr(self, I, name):
        npm = self.npm
        if name == "reduceat": return Builtin("reduceat", lambda I_, a, k: npm.reduceat(self.op, *a, **k))
        if name == "at":
            return Builtin("ufunc.at", lambda I_, a, k: npm.ufunc_at(self, *a))
        if name == "reduce": return Builtin("reduce", lambda I_, a, k: npm.f_sum(a[0]) if self.op == "add" else npm.extremum(a[0], ge if self.op == "max" else le, "amax"))
        raise Unsupported("ufunc.%s" % name)


class Table:
    """Function on indexes given by a table of known integers.  The values are looked up by the solver where the facts
    (entry by entry) are given as hints; only the range of the values is always known."""
    def __init__(self, ctx, x):
        self.ctx, self.x = ctx, np.array(x)
        self.name = "tab_" + hashlib.sha256(x.tobytes() + str(x.shape).encode()).hexdigest()[:10]
        self.f = z3.Function(self.name, *([Int] * (x.ndim + 1)))
        js = [z3.Int("_t%d" % i) for i in range(x.ndim)]
        self.dom = lambda *idx: land(*[land(le(0, i), lt(i, n)) for i, n in zip(idx, x.shape)])
        ctx.facts.append(z3.ForAll(js, z3.Implies(t(self.dom(*js)), z3.And(int(x.min()) <= self.f(*js), self.f(*js) <= int(x.max()))), patterns=[self.f(*js)]))
    @staticmethod
    def of(ctx, x):
        tabs = ctx.tables = getattr(ctx, "tables", {})
        key = (x.tobytes(), x.shape, str(x.dtype))
        if key not in tabs: tabs[key] = Table(ctx, x)
        return tabs[key]
    def __call__(self, *idx):
        if all(conc(i) for i in idx):
            i = tuple(int(i) for i in idx)
            return int(self.x[i]) if all(0 <= a < n for a, n in zip(i, self.x.shape)) else 0
        return self.f(*[t(i) for i in idx])
    def facts(self): return [self.f(*[t(i) for i in idx]) == int(self.x[idx]) for idx in np.ndindex(*self.x.shape)]


def finite(ctx, name, ranges, body, tables):
    """Lemma for variables with finitely many values, shown by looking at every case.  Returns a function giving instances"""
    import itertools
    cases = [t(lit(body(*vals))) for vals in itertools.product(*ranges)]
    ctx.prove(z3.And(*cases), "table lemma: %s (%d cases)" % (name, len(cases)), hints=[f for tb in tables for f in tb.facts()])
    def inst(*vals): return implies(land(*[lor(*[eq(v, x) for x in r]) if len(r) < 3 else land(le(r[0], v), le(v, r[-1])) for v, r in zip(vals, ranges)]), body(*vals))
    return inst


def _weak_pair(self, a, b):
    xa, xb = self.as_array(a), self.as_array(b)
    da = xa.dtype if xa.ndim or not xb.ndim else self.weak(xb.dtype, xa)
    db = xb.dtype if xb.ndim or not xa.ndim else self.weak(xa.dtype, xb)
    return self.promote(da, db)
NP.weak_pair = _weak_pair
def _ufunc_at(self, uf, a, idx, v):
    h = getattr(self.ctx, "ufunc_at", None)
    if h is None: raise Unsupported("ufunc.at")
    return h(uf, a, idx, v)
NP.ufunc_at = _ufunc_at


def Iplain(x):
    if isinstance(x, GenList): return x.items
    if isinstance(x, (Builtin,)) and hasattr(x, "native"): return x.native
    if hasattr(x, "model_dtype"): return x.model_dtype
    return x


class _NDArray:
    """The class numpy.ndarray"""
    name = "ndarray"; __name__ = "ndarray"
    def vcall(self, I, args, kw):
        if has_sym(args) or has_sym(kw): return I.np.f_ndarray(*args, **kw)
        return np.ndarray(*args, **kw)
    def vattr(self, I, name): raise Unsupported("ndarray.%s" % name)
NDARRAY = _NDArray()


class _UfuncType:
    name = "ufunc"
    def vattr(self, I, name): raise Unsupported("ufunc.%s" % name)
UFUNC = _UfuncType()


class _DtypeType:
    name = "dtype"; __name__ = "dtype"
    def vcall(self, I, args, kw):
        if isinstance(args[0], SDtype): return args[0]
        if has_sym(args): 
            raise Unsupported("dtype of symbolic values")
        try: return np.dtype(*[Iplain(x) for x in args], **kw)
        except (TypeError, ValueError) as e: raise PyRaise(type(e), e.args)
    def vattr(self, I, name): raise Unsupported("dtype.%s" % name)
DTYPE = _DtypeType()


def builtins_model(I):
    ctx, npm = I.ctx, I.np
    def b_len(I, a, k):
        x = I.resolve(a[0])
        if isinstance(x, SArr):
            if x.ndim == 0: raise PyRaise(TypeError, ("len() of unsized object",))
            return x.shape[0]
        if isinstance(x, SymIter): return x.n
        if isinstance(x, SymRange): return I.range_len(x)
        if isinstance(x, GenList): raise PyRaise(TypeError, ("len",))
        if isinstance(x, Instance):
            c, m = x.cls.lookup("__len__")
            if m is not None: return I.call(Bound(x, m), [], {})
            if x.items is not None: return len(x.items)
        if hasattr(x, "vlen"): return x.vlen(I)
        if is_sym(x): raise PyRaise(TypeError, ("object has no len()",))
        try: return len(x)
        except TypeError as e: raise PyRaise(TypeError, e.args)
    def b_range(I, a, k):
        a = [npm.scalar(x) for x in a]
        if not has_sym(a):
            try: return range(*[int(x) if isinstance(x, np.integer) else x for x in a])
            except TypeError as e: raise PyRaise(TypeError, e.args)
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        r = SymRange(lo, hi, st)
        n = I.known_int(I.range_len(r)) if st == 1 else None
        return r
    def minmax(f, c, name):
        def run(I, a, k):
            if len(a) == 1:
                x = I.resolve(a[0])
                if isinstance(x, SArr) and I.known_int(x.shape[0]) is None:
                    if "default" in k: raise Unsupported("%s with a default" % name)
                    return npm.extremum(x, c, name)
                xs = I.concrete_iter(x)
            else: xs = list(a)
            if k and not has_sym(xs): return f(xs, **k)
            xs = [npm.scalar(x) for x in xs]
            if not xs: raise PyRaise(ValueError, ("empty sequence",))
            r = xs[0]
            for x in xs[1:]: r = (tmax if name == "max" else tmin)(r, x)
            return r
        return run
    def b_sum(I, a, k):
        x = I.resolve(a[0])
        if isinstance(x, SArr): return npm.f_sum(x) if len(a) == 1 else add(npm.f_sum(x), a[1])
        if isinstance(x, (SymRange, SymIter)):
            n, item = I.sym_iter(x)
            return npm.f_sum(npm.map_list(n, item, lambda v: v))
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for v in I.concrete_iter(x): r = I.binop("add", r, v)
        return r
    def b_anyall(name):
        def run(I, a, k):
            x = I.resolve(a[0])
            if isinstance(x, SArr): return npm.f_any(x) if name == "any" else npm.f_all(x)
            vs = [I.truth(v) for v in I.concrete_iter(x)]
            return lor(*vs) if name == "any" else land(*vs)
        return run
    def b_enumerate(I, a, k):
        st = a[1] if len(a) > 1 else k.get("start", 0)
        si = I.sym_iter(a[0])
        if si is not None and I.known_int(si[0]) is None: return SymIter(si[0], lambda i: (add(st, i), si[1](i)))
        return list(enumerate(I.concrete_iter(a[0]), st))
    def b_zip(I, a, k):
        its = [I.sym_iter(x) for x in a]
        if any(x is not None and I.known_int(x[0]) is None for x in its):
            if any(x is None for x in its): raise Unsupported("zip of known and unknown lengths")
            n = its[0][0]
            for x in its[1:]:
                if not ctx.decide(eq(x[0], n)): n = tmin(n, x[0])
            return SymIter(n, lambda i: tuple(x[1](i) for x in its))
        return list(zip(*[I.concrete_iter(x) for x in a]))
    def b_isinstance(I, a, k):
        x, c = I.resolve(a[0]), a[1]
        if isinstance(x, Choice): return lor(land(x.c, b_isinstance(I, [x.a, c], k)), land(lnot(x.c), b_isinstance(I, [x.b, c], k)))
        if isinstance(c, tuple): return lor(*[b_isinstance(I, [x, y], k) for y in c])
        if isinstance(c, Class): return isinstance(x, Instance) and x.cls.is_sub(c)
        if hasattr(x, "visinstance_of"): return x.visinstance_of(c)
        if c is NDARRAY: return isinstance(x, np.ndarray) or isinstance(x, SArr) and not x.pylist
        if c is UFUNC: return isinstance(x, (Ufunc, np.ufunc))
        if c is DTYPE: return isinstance(x, (np.dtype, SDtype))
        if hasattr(c, "visinstance"): return c.visinstance(I, x)
        if isinstance(x, SArr): return x.pylist and c in (list,)
        if isinstance(x, z3.BoolRef): return c in (bool, int)
        if isinstance(x, z3.ArithRef): return c is int if x.is_int() else c is float
        if isinstance(x, Instance): return any(isinstance(b, type) and isinstance(c, type) and issubclass(b, c) for b in x.cls.native_bases()) or c is object
        if isinstance(x, Opaque): 
            if hasattr(x, "isinstance_"): return x.isinstance_(c)
            raise Unsupported("isinstance of %r" % (x,))
        if isinstance(x, (Func, Bound, Builtin, Namespace, SymVal)) or not isinstance(c, type):
            return False
        return isinstance(x, c)
    def b_hasattr(I, a, k):
        x = I.resolve(a[0])
        if isinstance(x, SArr): return a[1] in ("dtype", "shape", "ndim", "size", "flags", "copy", "astype", "reshape", "T") or a[1] in x.attrs if not x.pylist else a[1] in ("append",)
        if isinstance(x, np.ndarray): return hasattr(x, a[1])
        try: I.attr(x, a[1]); return True
        except PyRaise: return False
    def b_getattr(I, a, k):
        try: return I.attr(a[0], a[1])
        except PyRaise as e:
            if len(a) > 2 and e.etype is AttributeError: return a[2]
            raise
    def b_int(I, a, k):
        x = npm.scalar(a[0]) if a else 0
        if isinstance(x, z3.BoolRef): return t(x, Int)
        if is_sym(x):
            if x.sort() == Int: return x
            if x.sort() == Real:
                if z3.is_app_of(x, z3.Z3_OP_TO_REAL): return x.arg(0)
                return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            raise Unsupported("int()")
        if isinstance(x, (Opaque, Choice)): raise Unsupported("int(%r)" % (x,))
        try: return int(x, *a[1:])
        except (ValueError, TypeError) as e: raise PyRaise(type(e), e.args)
    def b_float(I, a, k):
        x = npm.scalar(a[0])
        if is_sym(x): return t(x, Real)
        if isinstance(x, (Opaque, Choice)): raise Unsupported("float(%r)" % (x,))
        try: return float(x)
        except (ValueError, TypeError) as e: raise PyRaise(type(e), e.args)
    def b_bool(I, a, k): return I.truth(a[0])
    def b_str(I, a, k):
        if a and has_sym(a[0]): return Opaque("string")
        if a and isinstance(a[0], (PyRaise,)): return "exception"
        return str(*a, **k)
    def b_abs(I, a, k):
        x = I.resolve(a[0])
        if isinstance(x, (SArr, np.ndarray)): return npm.unary("abs", x) if isinstance(x, SArr) else abs(x)
        if is_sym(x): return ite(ge(x, 0), x, neg(x))
        return abs(x)
    def b_list(I, a, k):
        if not a: return []
        x = I.resolve(a[0])
        if isinstance(x, SArr): return npm.to_list(x) if not x.pylist else npm.copy(x)
        if isinstance(x, (SymRange, SymIter)) and I.known_int(I.sym_iter(x)[0]) is None:
            n, item = I.sym_iter(x)
            return npm.map_list(n, item, lambda v: v)
        return list(I.concrete_iter(x))
    def b_tuple(I, a, k):
        if not a: return ()
        x = I.resolve(a[0])
        if isinstance(x, SArr) and I.known_int(x.shape[0]) is None: return npm.to_list(x)
        return tuple(I.concrete_iter(x))
    def b_sorted(I, a, k):
        xs = I.concrete_iter(a[0])
        if has_sym(xs) or has_sym(k): raise Unsupported("sorted of symbolic values")
        return sorted(xs, **k)
    def b_print(I, a, k): return None
    def b_type(I, a, k):
        x = I.resolve(a[0])
        if isinstance(x, Instance): return x.cls
        if isinstance(x, SArr): return NDARRAY
        if has_sym(x): raise Unsupported("type()")
        return type(x)
    def b_reversed(I, a, k): return list(reversed(I.concrete_iter(a[0])))
    def b_set(I, a, k):
        xs = I.concrete_iter(a[0]) if a else []
        if has_sym(xs): raise Unsupported("set of symbolic values")
        return set(xs)
    def b_dict(I, a, k):
        d = dict(a[0].items if isinstance(a[0], Instance) else (a[0] if isinstance(a[0], dict) else I.concrete_iter(a[0]))) if a else {}
        d.update(k); return d
    def b_map(I, a, k): return [I.call(a[0], list(x), {}) for x in zip(*[I.concrete_iter(y) for y in a[1:]])]
    def b_setattr(I, a, k): I.setattr_(a[0], a[1], a[2])
    def b_callable(I, a, k): return isinstance(a[0], (Func, Bound, Builtin, Class)) or callable(a[0])
    def b_iter(I, a, k): return GenList(I.concrete_iter(a[0]))
    def b_round(I, a, k):
        if has_sym(a): raise Unsupported("round")
        return round(*a)
    def b_slice(I, a, k): return slice(*[npm.scalar(x) if x is not None else None for x in a])
    def b_super(I, a, k): return SuperObj(a[0], a[1])
    def b_divmod(I, a, k): return (I.binop("floordiv", a[0], a[1]), I.binop("mod", a[0], a[1]))
    d = dict(len=b_len, range=b_range, min=minmax(min, le, "min"), max=minmax(max, ge, "max"), sum=b_sum, any=b_anyall("any"), all=b_anyall("all"),
             enumerate=b_enumerate, zip=b_zip, isinstance=b_isinstance, hasattr=b_hasattr, getattr=b_getattr, abs=b_abs,
             print=b_print, reversed=b_reversed, map=b_map, setattr=b_setattr, sorted=b_sorted, callable=b_callable, iter=b_iter, round=b_round, divmod=b_divmod)
    # names which are types too
    out = {k: Builtin(k, v) for k, v in d.items()}
    for name, fn, ty in (("int", b_int, int), ("float", b_float, float), ("bool", b_bool, bool), ("str", b_str, str), ("list", b_list, list), ("tuple", b_tuple, tuple),
                         ("type", b_type, type), ("set", b_set, set), ("dict", b_dict, dict), ("slice", b_slice, slice)):
        out[name] = TypeObj(name, fn, ty)
    out["super"] = Builtin("super", b_super)
    return Namespace("builtins", **out)


class TypeObj(Builtin):
    """A built-in type: callable, usable with isinstance and as a dtype"""
    def __init__(self, name, fn, ty):
        Builtin.__init__(self, name, fn); self.ty = ty; self.native = ty
        if ty in (int, float, bool): self.model_dtype = np.dtype(ty)
    def visinstance(self, I, x):
        x = I.resolve(x)
        ty = self.ty
        if isinstance(x, SArr): return ty is list and x.pylist
        if isinstance(x, z3.BoolRef): return ty in (bool, int)
        if isinstance(x, z3.ArithRef): return ty is int if x.is_int() else ty is float
        if isinstance(x, Instance): return ty is dict and x.items is not None
        if isinstance(x, Opaque) and "string" in x.name: return ty is str
        if isinstance(x, TypeObj): return ty is type
        if ty is type: return isinstance(x, (type, Class))
        return isinstance(x, ty)
    def vattr(self, I, name):
        if name == "__name__": return self.name
        return getattr(self.ty, name)
    def imethod(self, I, o, name): return None
    @property
    def is_mapping(self): return self.ty is dict
    def is_same(self, I, y): return y is self or y is self.ty or isinstance(y, TypeObj) and y.ty is self.ty
