"""
Symbolic execution of the real source: the syntax tree of the functions in
/repo is walked statement by statement.  Known values are ordinary Python
objects, unknown ones z3 terms and symbolic arrays.
"""
import hashlib
import ast, os, operator, builtins
import numpy as np, z3
from terms import *
from arr import *
from ctx import PathEnd

REPO = os.environ.get("VERIF_REPO", "/repo")
MAX_UNROLL = 5000


class PyRaise(Exception):
    """An exception raised by the interpreted program"""
    def __init__(self, etype, args=(), obj=None):
        Exception.__init__(self, "%s%s" % (getattr(etype, "__name__", getattr(etype, "name", etype)), tuple(map(str, args))))
        self.etype, self.eargs, self.obj = etype, args, obj


class Poison:
    def __init__(self, why): self.why = why


class Choice:
    """A value which depends on a condition and cannot be merged into one term"""
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b


class Opaque:
    """Unknown object of which only identity matters"""
    def __init__(self, name, **attrs):
        self.name = name
        for k, v in attrs.items(): setattr(self, k, v)
    def __repr__(self): return "<%s>" % self.name


class Func:
    def __init__(self, node, module, closure, qual, defaults, kwdefaults, decorators=()):
        self.node, self.module, self.closure, self.qual = node, module, closure, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.loops = None; self.is_static = False; self.is_class = False; self.is_property = False
        self.attrs = {}
    def __repr__(self): return "<function %s>" % self.qual


class Bound:
    def __init__(self, self_, fn): self.self_, self.fn = self_, fn


class Class:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.__name__ = name
    def mro(self):
        # linearisation of single and simple multiple inheritance
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, Class) else [b]):
                if c in out: out.remove(c)
                out.append(c)
        return out
    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, Class):
                if name in c.ns: return c, c.ns[name]
        return None, None
    def is_sub(self, other): return any(c is other for c in self.mro())
    def native_bases(self): return [c for c in self.mro() if not isinstance(c, Class)]
    def __repr__(self): return "<class %s>" % self.name


class Instance:
    def __init__(self, cls):
        self.cls, self.d = cls, {}
        self.items = {} if any(b is dict for b in cls.native_bases() if isinstance(b, type)) or any(getattr(b, "is_mapping", False) for b in cls.native_bases()) else None
    def __repr__(self): return "<%s instance>" % self.cls.name


class SuperObj:
    def __init__(self, cls, inst): self.cls, self.inst = cls, inst


SOURCES = {}        # hash of the syntax tree of each module read


class Module:
    def __init__(self, name): self.name, self.g = name, {"__name__": name}
    def __repr__(self): return "<module %s>" % self.name


class SymRange:
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lo, hi, step


class SymIter:
    """n items, the k-th of which is item(k)"""
    def __init__(self, n, item): self.n, self.item = n, item


class Builtin:
    """A modelled callable: fn(interp, args, kwargs)"""
    def __init__(self, name, fn): self.name, self.fn = name, fn; self.__name__ = name
    def __repr__(self): return "<builtin %s>" % self.name


class Namespace:
    """A modelled module or object"""
    def __init__(self, name, **d): self.name, self.d = name, d
    def __repr__(self): return "<namespace %s>" % self.name


def fresh_like(ctx, base, v):
    return None


class Frame:
    def __init__(self, func, module, locals_, closure):
        self.func, self.module, self.l, self.closure = func, module, locals_, closure
        self.globals_declared = set(); self.nonlocals = set(); self.cls = None
        self.loopno = {}


NORMAL = None
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard"}


def has_sym(x, depth=0):
    """Whether a native value contains a symbolic part"""
    if isinstance(x, (z3.ExprRef, SArr, Choice, Poison, SDtype, Opaque, Instance, SymRange, SymIter)): return True
    if depth > 6: return False
    if isinstance(x, (list, tuple, set, frozenset)): return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict): return any(has_sym(y, depth + 1) for y in x.values()) or any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, slice): return has_sym((x.start, x.stop, x.step))
    return False


class Interp:
    def __init__(self, ctx, models):
        self.ctx = ctx
        self.modules = {}
        self.models = models            # name -> Namespace for library modules
        self.contracts = {}             # qualified name -> handler
        self.loopspecs = {}             # (qualified name, loop number) -> sidecar specification
        self.calls = set()              # functions of /repo which were executed
        self.assumed_calls = set()
        self.depth = 0
        self.frames = []
        self.raise_hooks = []           # innermost: what to do with an exception raised on only some paths
        self.bound_loops = set()

    # ------------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules: return self.modules[name]
        path = os.path.join(REPO, "python", *name.split("."))
        if os.path.isdir(path): path = os.path.join(path, "__init__.py")
        else: path += ".py"
        if not os.path.exists(path): raise Unsupported("module %s" % name)
        src = open(path).read()
        tree = ast.parse(src, path)
        SOURCES[name] = hashlib.sha256(ast.dump(tree).encode()).hexdigest()
        m = Module(name); m.path = path; m.src = src
        self.modules[name] = m
        f = Frame(None, m, m.g, None)
        self.frames.append(f)
        try:
            st = self.block(tree.body, f, True)
        finally:
            self.frames.pop()
        return m

    def import_(self, name):
        if name in self.models: return self.models[name]
        if name.split(".")[0] == "virgo": return self.load(name)
        raise Unsupported("import of %s" % name)

    def get_function(self, modname, qual):
        m = self.load(modname)
        o = m.g[qual.split(".")[0]]
        for part in qual.split(".")[1:]:
            o = o.lookup(part)[1]
        return o

    # ------------------------------------------------------------------ statements
    def block(self, stmts, f, tail):
        """Execute statements.  Returns None, or ('return', v), 'break', 'continue'"""
        i = 0
        while i < len(stmts):
            s = stmts[i]
            if isinstance(s, ast.If):
                st, done = self.exec_if(s, stmts[i + 1:], f, tail)
                if done or st is not NORMAL: return st
            else:
                st = self.stmt(s, f, tail and i == len(stmts) - 1)
                if st is not NORMAL: return st
            i += 1
        return NORMAL

    def stmt(self, s, f, tail=False):
        self.ctx.where = "%s:%d" % (os.path.relpath(f.module.path, REPO), s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Unsupported("statement %s at %s" % (type(s).__name__, self.ctx.where))
        try:
            return m(s, f)
        except Unsupported as e:
            if not getattr(e, "located", False):
                e.located = True
                e.args = ("%s [%s]" % (e.args[0] if e.args else "", "%s:%d" % (os.path.relpath(f.module.path, REPO), s.lineno)),)
            raise

    def s_Expr(self, s, f):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, f)
    def s_Pass(self, s, f): pass
    def s_Break(self, s, f): return "break"
    def s_Continue(self, s, f): return "continue"
    def s_Global(self, s, f): f.globals_declared |= set(s.names)
    def s_Nonlocal(self, s, f): f.nonlocals |= set(s.names)
    def s_Return(self, s, f): return ("return", self.ev(s.value, f) if s.value is not None else None)

    def s_Import(self, s, f):
        for a in s.names:
            m = self.import_(a.name)
            if a.asname: f.l[a.asname] = m
            else: f.l[a.name.split(".")[0]] = self.import_(a.name.split(".")[0]) if "." in a.name else m

    def s_ImportFrom(self, s, f):
        if s.module == "__future__": return
        m = self.import_(s.module)
        for a in s.names:
            if a.name == "*":
                d = m.g if isinstance(m, Module) else m.d
                for k, v in d.items():
                    if not k.startswith("_"): f.l[k] = v
                if getattr(m, "fallback", None): f.star = getattr(f, "star", []) + [m]; f.module.star = f.star
                continue
            try: v = self.attr(m, a.name)
            except PyRaise: v = self.import_(s.module + "." + a.name)
            f.l[a.asname or a.name] = v

    def s_FunctionDef(self, s, f):
        fn = self.make_func(s, f, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, f)
            fn = self.decorate(dv, fn)
        self.bind(s.name, fn, f)

    def decorate(self, d, fn):
        if d is property:
            fn.is_property = True; return fn
        if d is staticmethod: fn.is_static = True; return fn
        if d is classmethod: fn.is_class = True; return fn
        return self.call(d, [fn], {})

    def make_func(self, s, f, name):
        a = s.args
        defaults = [self.ev(d, f) for d in a.defaults]
        kwd = {x.arg: (self.ev(d, f) if d is not None else None) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        prefix = f.qual + "." if getattr(f, "qual", None) else (f.func.qual + "." if f.func else "")
        fn = Func(s, f.module, f if f.func is not None else None, prefix + name, defaults, kwd)
        fn.cls = getattr(f, "classbody", None)
        return fn

    def s_ClassDef(self, s, f):
        bases = [self.ev(b, f) for b in s.bases]
        bases = [b for b in bases if b is not object]
        ns = {}
        c = Class(s.name, bases, ns, f.module)
        cf = Frame(None, f.module, ns, f if f.func else None); cf.qual = s.name; cf.classbody = c
        self.frames.append(cf)
        try: self.block(s.body, cf, False)
        finally: self.frames.pop()
        for d in s.decorator_list: raise Unsupported("class decorator")
        self.bind(s.name, c, f)

    def s_Delete(self, s, f):
        for t_ in s.targets:
            if isinstance(t_, ast.Name):
                if t_.id not in f.l: raise PyRaise(NameError, (t_.id,))
                del f.l[t_.id]
            elif isinstance(t_, ast.Subscript):
                o = self.ev(t_.value, f); k = self.ev_index(t_.slice, f)
                self.del_item(o, k)
            elif isinstance(t_, ast.Attribute):
                o = self.ev(t_.value, f)
                if not isinstance(o, Instance): raise Unsupported("del attribute")
                self.ctx.touch(o, lambda: dict(o.d))
                del o.d[t_.attr]
            else: raise Unsupported("del")

    def del_item(self, o, k):
        if isinstance(o, (dict, list)) and not has_sym(k):
            self.ctx.touch(o, lambda: (dict(o) if isinstance(o, dict) else list(o)))
            try: del o[k]
            except KeyError: raise PyRaise(KeyError, (k,))
            return
        if isinstance(o, Instance):
            c, m = o.cls.lookup("__delitem__")
            if m is not None: return self.call(Bound(o, m), [k], {})
            if o.items is not None:
                self.ctx.touch(o, lambda: (dict(o.d), dict(o.items)))
                if k not in o.items: raise PyRaise(KeyError, (k,))
                del o.items[k]; return
        raise Unsupported("del item of %r" % (o,))

    def s_Assign(self, s, f):
        v = self.ev(s.value, f)
        for t_ in s.targets: self.assign(t_, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None: self.assign(s.target, self.ev(s.value, f), f)

    def s_AugAssign(self, s, f):
        tg = s.target
        op = BIN[type(s.op)]
        if isinstance(tg, ast.Name):
            cur = self.lookup(tg.id, f); val = self.ev(s.value, f)
            self.bind(tg.id, self.inplace(op, cur, val), f)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, f); k = self.ev_index(tg.slice, f)
            cur = self.getitem(o, k); val = self.ev(s.value, f)
            r = self.inplace(op, cur, val)
            if not (isinstance(cur, SArr) and r is cur and getattr(cur, "is_view_of", None) is o and cur.ndim):
                self.setitem(o, k, r)
            elif isinstance(o, SArr): pass
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, f)
            cur = self.attr(o, tg.attr); val = self.ev(s.value, f)
            self.setattr_(o, tg.attr, self.inplace(op, cur, val))
        else: raise Unsupported("augmented assignment")

    def inplace(self, op, cur, val):
        if isinstance(cur, SArr) and not cur.pylist:
            new = self.binop(op, cur, val)
            self.np.store(cur, None, new)
            if isinstance(new, SArr) and cur.imap is None and new.scaled is not None and new.dtype == cur.dtype: cur.scaled = new.scaled
            return cur
        if isinstance(cur, np.ndarray) and not has_sym(val) and cur.ndim > 0:
            self.ctx.touch(cur, lambda: cur.copy())
            return getattr(operator, INPLACE[op])(cur, val)
        if isinstance(cur, list) and op == "add" and isinstance(val, (list, tuple)):
            self.ctx.touch(cur, lambda: list(cur))
            cur.extend(val); return cur
        return self.binop(op, cur, val)

    def assign(self, tg, v, f):
        if isinstance(tg, ast.Name): self.bind(tg.id, v, f)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vals = self.unpack(v, tg.elts)
            for t_, x in zip(tg.elts, vals): self.assign(t_.value if isinstance(t_, ast.Starred) else t_, x, f)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, f)
            self.setitem(o, self.ev_index(tg.slice, f), v)
        elif isinstance(tg, ast.Attribute):
            self.setattr_(self.ev(tg.value, f), tg.attr, v)
        else: raise Unsupported("assignment target")

    def unpack(self, v, elts):
        n = len(elts)
        v = self.resolve(v)
        if isinstance(v, Choice):
            a = self.unpack(v.a, elts); b = self.unpack(v.b, elts)
            return [self.merge(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, SArr):
            if not self.ctx.decide(eq(v.shape[0], n)): raise Unsupported("unpacking an array of unknown length")
            return [self.getitem(v, i) for i in range(n)]
        items = list(self.concrete_iter(v))
        if any(isinstance(e, ast.Starred) for e in elts):
            i = [isinstance(e, ast.Starred) for e in elts].index(True)
            after = n - i - 1
            return items[:i] + [items[i:len(items) - after]] + (items[len(items) - after:] if after else [])
        if len(items) != n: raise PyRaise(ValueError, ("unpack",))
        return items

    def bind(self, name, v, f):
        if name in f.globals_declared:
            self.ctx.touch(f.module.g, lambda g=f.module.g: dict(g))
            f.module.g[name] = v
        elif name in f.nonlocals:
            c = f.closure
            while c is not None and name not in c.l: c = c.closure
            c.l[name] = v
        else: f.l[name] = v

    def setattr_(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Instance):
            c, m = o.cls.lookup(name)
            if isinstance(m, Func) and m.is_property: raise Unsupported("property setter")
            self.ctx.touch(o, lambda: (dict(o.d), None if o.items is None else dict(o.items)))
            o.d[name] = v
        elif isinstance(o, SArr):
            if name == "shape": raise Unsupported("assignment to shape")
            o.attrs[name] = v
        elif isinstance(o, Module):
            self.ctx.touch(o.g, lambda: dict(o.g)); o.g[name] = v
        elif isinstance(o, Class):
            self.ctx.touch(o.ns, lambda: dict(o.ns)); o.ns[name] = v
        elif isinstance(o, Func): o.attrs[name] = v
        elif hasattr(o, "vset"): o.vset(self, name, v)
        else: raise Unsupported("attribute assignment on %r" % (o,))

    def s_Assert(self, s, f):
        c = self.truth(self.ev(s.test, f))
        self.fail_unless(c, "assert at line %d holds" % 0 if False else "assertion '%s' holds" % ast.unparse(s.test)[:80], PyRaise(AssertionError, ()))

    def fail_unless(self, c, what, exc):
        """The program raises exc unless c"""
        c = lit(c)
        if conc(c):
            if not c: self.do_raise(exc)
            return
        d = self.ctx.decide(c)
        if d is True: return
        if self.errors_matter():
            # an exception on this path is not allowed: an obligation
            self.ctx.require(c, what)
        elif self.forkable(c):
            if self.branch(c): return
            self.do_raise(exc)
        else:
            self.ctx.require(c, what)

    def errors_matter(self):
        return not self.ctx.allow_errors

    def s_Raise(self, s, f):
        if s.exc is None:
            cur = getattr(f, "handling", None)
            if cur is None: raise Unsupported("bare raise")
            raise cur
        e = self.ev(s.exc, f)
        if isinstance(e, PyRaise): self.do_raise(e)
        if isinstance(e, type) and issubclass(e, BaseException) or isinstance(e, Class): self.do_raise(PyRaise(e, ()))
        if isinstance(e, BaseException): self.do_raise(PyRaise(type(e), e.args, e))
        if isinstance(e, Instance): self.do_raise(PyRaise(e.cls, e.d.get("args", ()), e))
        raise Unsupported("raise of %r" % (e,))

    def do_raise(self, exc):
        if self.ctx.guards and not self.try_depth_ok():
            # only some ranks or iterations get here: none may
            if self.ctx.allow_errors and self.ctx.on_guarded_error:
                self.ctx.on_guarded_error(exc); raise GuardedEnd()
            self.ctx.prove(False, "no %s is raised" % exc)
            self.ctx.fact(False) if not self.ctx.guards else self.ctx.fact(lnot(True))
            raise GuardedEnd()
        raise exc

    def try_depth_ok(self): return False

    def s_Try(self, s, f):
        n_guards = len(self.ctx.guards)
        try:
            try:
                st = self.block(s.body, f, False)
                if st is NORMAL and s.orelse: st = self.block(s.orelse, f, False)
            except PyRaise as e:
                if len(self.ctx.guards) != n_guards: raise Unsupported("exception under a condition")
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e, self.ev(h.type, f)):
                        if h.name: f.l[h.name] = e.obj if e.obj is not None else e
                        old = getattr(f, "handling", None); f.handling = e
                        try: st = self.block(h.body, f, False)
                        finally: f.handling = old
                        break
                else: raise
        except (PyRaise, GuardedEnd):
            if s.finalbody:
                st2 = self.block(s.finalbody, f, False)
                if st2 is not NORMAL: return st2
            raise
        if s.finalbody:
            st2 = self.block(s.finalbody, f, False)
            if st2 is not NORMAL: return st2
        return st

    def exc_matches(self, e, t_):
        if isinstance(t_, (tuple, list)): return any(self.exc_matches(e, x) for x in t_)
        et = e.etype
        if isinstance(et, Class):
            if isinstance(t_, Class): return et.is_sub(t_)
            return isinstance(t_, type) and any(isinstance(b, type) and issubclass(b, t_) for b in et.native_bases())
        if isinstance(t_, type) and isinstance(et, type): return issubclass(et, t_)
        return et is t_

    def s_With(self, s, f):
        mgrs = []
        for it in s.items:
            m = self.ev(it.context_expr, f)
            v = self.call(self.attr(m, "__enter__"), [], {})
            if it.optional_vars is not None: self.assign(it.optional_vars, v, f)
            mgrs.append(m)
        try: st = self.block(s.body, f, False)
        except PyRaise as e:
            for m in reversed(mgrs):
                if self.call(self.attr(m, "__exit__"), [e.etype, e, None], {}) is True: raise Unsupported("suppressed exception")
            raise
        for m in reversed(mgrs): self.call(self.attr(m, "__exit__"), [None, None, None], {})
        return st

    # ------------------------------------------------------------------ branches
    def forkable(self, c):
        """Whether both outcomes can be followed as separate paths: the condition is the same for all ranks and iterations"""
        if not any(contains(c, b) for b, _ in self.ctx.binders): return True
        w = self.ctx.world
        if w is None or self.ctx.guards: return False
        if any(contains(c, b) for b, _ in self.ctx.binders if not b.eq(w.me)): return False
        return w.uniform(c)

    def branch(self, c):
        c = lit(c)
        if conc(c): return bool(c)
        d = self.ctx.decide(c)
        if d is not None: return d
        return self.ctx.fork(c)

    def exec_if(self, s, rest, f, tail):
        """Returns (status, True if rest was executed too)"""
        self.ctx.where = "%s:%d" % (os.path.relpath(f.module.path, REPO), s.lineno)
        try:
            c = self.truth(self.ev(s.test, f))
            c = lit(c)
            if not conc(c):
                d = self.ctx.decide(c)
                if d is not None: c = d
                elif self.forkable(c): c = self.ctx.fork(c)
            if conc(c):
                return self.block(s.body if c else s.orelse, f, tail and not rest), False
            return self.merge_branches(c, s.body, s.orelse, rest, f, tail)
        except Unsupported as e:
            if not getattr(e, "located", False):
                e.located = True
                e.args = ("%s [%s:%d]" % (e.args[0] if e.args else "", os.path.relpath(f.module.path, REPO), s.lineno),)
            raise

    def merge_branches(self, c, body, orelse, rest, f, tail):
        ctx = self.ctx
        env0 = dict(f.l)
        outs = []
        for cond, stmts in ((c, body), (lnot(c), orelse)):
            outs.append(self.run_guarded(cond, lambda st=stmts: self.block(st, f, False), f, env0))
        (sa, ea, ja), (sb, eb, jb) = outs
        if sa == "dead" or sb == "dead":
            # one branch is impossible
            live = outs[1] if sa == "dead" else outs[0]
            if sa == "dead" and sb == "dead": raise GuardedEnd()
            self.install(f, live[1], live[2])
            ctx.fact(lnot(c) if sa == "dead" else c)
            if live[0] is NORMAL: return NORMAL, False
            return live[0], True
        if sa is NORMAL and sb is NORMAL:
            self.merge_env(c, ea, eb, f); self.merge_heap(c, ja, jb)
            return NORMAL, False
        if not tail: raise Unsupported("leaving a block under a condition which differs between ranks or iterations")
        # run the remaining statements of the block in the branch(es) which did not leave
        fin = []
        for cond, (st, e, j) in ((c, outs[0]), (lnot(c), outs[1])):
            if st is NORMAL:
                self.install(f, e, j, keep=True)
                st2, e2, j2 = self.run_guarded(cond, lambda: self.block(rest, f, tail), f, None, j)
                fin.append((st2, e2, j2))
            else: fin.append((st, e, j))
        (sa, ea, ja), (sb, eb, jb) = fin
        if sa == "dead": self.install(f, eb, jb); return sb, True
        if sb == "dead": self.install(f, ea, ja); return sa, True
        if isinstance(sa, tuple) and isinstance(sb, tuple):
            self.merge_env(c, ea, eb, f, poison=True); self.merge_heap(c, ja, jb)
            return ("return", self.merge(c, sa[1], sb[1])), True
        n = lambda s: None if s in (None, "continue") else s
        if n(sa) is None and n(sb) is None:
            self.merge_env(c, ea, eb, f); self.merge_heap(c, ja, jb)
            return "continue" if (sa or sb) else NORMAL, True
        if (sa is None and isinstance(sb, tuple) and sb[1] is None) or (sb is None and isinstance(sa, tuple) and sa[1] is None):
            self.merge_env(c, ea, eb, f, poison=True); self.merge_heap(c, ja, jb)
            return ("return", None), True
        raise Unsupported("mixed control flow under a condition which differs between ranks or iterations")

    def run_guarded(self, cond, thunk, f, env0, journal0=None):
        """Run under a guard from the present heap; undo heap changes and report them"""
        ctx = self.ctx
        if env0 is not None: f.l.clear(); f.l.update(env0)
        ctx.guards.append(cond)
        j = {}
        ctx.journals.append(j)
        n = len(ctx.guards)
        try:
            try:
                st = thunk()
            except GuardedEnd:
                st = "dead"
        finally:
            del ctx.guards[n - 1:]
            ctx.journals.pop()
        env = dict(f.l)
        new = {}
        for k, (obj, old) in j.items():
            new[k] = (obj, old, snapshot(obj))
            restore(obj, old)
        if journal0:
            for k, (obj, old, now) in journal0.items():
                if k in new: new[k] = (obj, old, new[k][2])
                else: new[k] = (obj, old, now)
                restore(obj, old)
        return st, env, new

    def install(self, f, env, journal, keep=False):
        f.l.clear(); f.l.update(env)
        for k, (obj, old, now) in journal.items():
            self.ctx.touch(obj, lambda: old)
            restore(obj, now)

    def merge_env(self, c, ea, eb, f, poison=False):
        out = {}
        for n in list(ea) + [x for x in eb if x not in ea]:
            if n in ea and n in eb:
                try: out[n] = self.merge(c, ea[n], eb[n])
                except Unsupported as e: out[n] = Poison(str(e))
            elif n in ea: out[n] = Choice(c, ea[n], Poison("%s is not set" % n))
            else: out[n] = Choice(c, Poison("%s is not set" % n), eb[n])
        f.l.clear(); f.l.update(out)

    def merge_heap(self, c, ja, jb):
        for k in list(ja) + [x for x in jb if x not in ja]:
            obj, old, na = ja[k] if k in ja else (jb[k][0], jb[k][1], jb[k][1])
            nb = jb[k][2] if k in jb else old
            self.ctx.touch(obj, lambda: old)
            if isinstance(obj, Cell):
                fa, fb = na, nb
                if fa is fb: obj.fn = fa
                else: obj.fn = cached(lambda *i, fa=fa, fb=fb: ite(c, fa(*i), fb(*i)))
            elif isinstance(obj, list):
                if len(na) != len(nb): raise Unsupported("list which differs in length between ranks or iterations")
                obj[:] = [self.merge(c, x, y) for x, y in zip(na, nb)]
            elif isinstance(obj, dict):
                if set(na) != set(nb): raise Unsupported("dictionary which differs between ranks or iterations")
                obj.clear(); obj.update({x: self.merge(c, na[x], nb[x]) for x in na})
            elif isinstance(obj, Instance):
                da, db = na[0], nb[0]
                obj.d = {x: self.merge(c, da.get(x, Poison(x)), db.get(x, Poison(x))) for x in list(da) + [y for y in db if y not in da]}
            else: raise Unsupported("changes to %r under a condition" % (obj,))

    def merge(self, c, a, b):
        if a is b: return a
        if isinstance(a, Poison) or isinstance(b, Poison): return Choice(c, a, b)
        if isinstance(a, Choice) or isinstance(b, Choice): return Choice(c, a, b)
        if (is_num(a) or is_boolish(a)) and (is_num(b) or is_boolish(b)):
            try: return ite(c, a, b)
            except Unsupported: return Choice(c, a, b)
        if is_sym(a) and is_sym(b) and a.sort() == b.sort(): return ite(c, a, b)
        if type(a) == type(b) and isinstance(a, (str, type(None))) and a == b: return a
        if isinstance(a, (tuple, list)) and type(a) == type(b) and len(a) == len(b) and not isinstance(a, list):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, SArr) and isinstance(b, SArr) and a.cell is not b.cell and a.ndim == b.ndim and a.dtype == b.dtype and a.pylist == b.pylist:
            fa, fb = a.freeze(), b.freeze()
            r = SArr(cached(lambda *i: ite(c, fa(*i), fb(*i))), [ite(c, x, y) for x, y in zip(a.shape, b.shape)], a.dtype, pylist=a.pylist)
            r.choice = Choice(c, a, b)
            return r
        return Choice(c, a, b)

    def resolve(self, v):
        """Choice whose condition is known here"""
        while isinstance(v, Choice):
            if isinstance(v.a, Poison) or isinstance(v.b, Poison):
                # the program would fail if the value was not set
                bad = v.c if isinstance(v.a, Poison) else lnot(v.c)
                d = self.ctx.decide(v.c)
                if d is None: 
                    if "is not set" in (v.a.why if isinstance(v.a, Poison) else v.b.why):
                        self.ctx.require(lnot(bad), "a variable is set before it is used")
                        v = v.b if isinstance(v.a, Poison) else v.a
                        continue
                    raise Unsupported((v.a if isinstance(v.a, Poison) else v.b).why)
                v = v.a if d else v.b
                continue
            d = self.ctx.decide(v.c)
            if d is None: return v
            v = v.a if d else v.b
        if isinstance(v, Poison): raise Unsupported("use of a value which could not be represented: " + v.why)
        return v

    # ------------------------------------------------------------------ loops
    def concrete_iter(self, v):
        v = self.resolve(v)
        if isinstance(v, (list, tuple, str, bytes, range, dict, set, frozenset)): return list(v)
        if isinstance(v, np.ndarray): return list(v)
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()), enumerate, zip, map, filter, reversed)): return list(v)
        if isinstance(v, np.lib.index_tricks.ndindex if hasattr(np.lib, "index_tricks") else ()): return list(v)
        if isinstance(v, SArr):
            n = self.known_int(v.shape[0])
            if n is not None: return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, SymIter):
            n = self.known_int(v.n)
            if n is not None: return [v.item(i) for i in range(n)]
        if isinstance(v, SymRange):
            n = self.known_int(self.range_len(v))
            if n is not None: return [add(v.lo, mul(v.step, i)) for i in range(n)]
        if isinstance(v, Instance):
            c, m = v.cls.lookup("__iter__")
            if m is not None: return self.concrete_iter(self.call(Bound(v, m), [], {}))
            if v.items is not None: return list(v.items)
        if isinstance(v, GenList): return list(v.items)
        raise Unsupported("iteration over %r" % (v,))

    def known_int(self, n):
        n = lit(n)
        if conc(n): return int(n)
        s = z3.simplify(n)
        if isinstance(s, z3.IntNumRef): return s.as_long()
        return None

    def range_len(self, r):
        if r.step == 1: return tmax(0, sub(r.hi, r.lo)) if not self.ctx.decide(le(r.lo, r.hi)) else sub(r.hi, r.lo)
        if conc(r.step) and r.step > 1: return tmax(0, floordiv(add(sub(r.hi, r.lo), r.step - 1), r.step))
        if is_sym(r.step) and self.ctx.decide(gt(r.step, 0)):
            return tmax(0, floordiv(add(sub(r.hi, r.lo), sub(r.step, 1)), r.step))
        raise Unsupported("range step")

    def sym_iter(self, it):
        """(n, item) for symbolic iterables, None for concrete ones"""
        it = self.resolve(it)
        if isinstance(it, SymRange):
            n = self.range_len(it)
            return n, (lambda k: add(it.lo, mul(it.step, k)) if not (conc(it.step) and it.step == 1 and conc(it.lo) and it.lo == 0) else k)
        if isinstance(it, SymIter): return it.n, it.item
        if hasattr(it, "vlen") and hasattr(it, "at"): return it.vlen(self), it.at
        if isinstance(it, SArr):
            if it.ndim == 0: raise PyRaise(TypeError, ("iteration over a 0-d array",))
            fz = it.freeze() if it.ndim == 1 and not it.pylist else None
            return it.shape[0], (lambda k: self.getitem(it, k, inbounds=True))
        return None

    def s_For(self, s, f):
        it = self.ev(s.iter, f)
        si = self.sym_iter(it)
        if si is not None and self.known_int(si[0]) is None:
            if s.orelse: raise Unsupported("for ... else")
            import loops
            return loops.run_for(self, s, f, si[0], si[1])
        n = 0
        for v in self.concrete_iter(it):
            n += 1
            if n > MAX_UNROLL: raise Unsupported("loop too long to unroll")
            self.assign(s.target, v, f)
            st = self.block(s.body, f, True)
            if st == "break": return NORMAL
            if isinstance(st, tuple): return st
        if s.orelse: return self.block(s.orelse, f, False)
        return NORMAL

    def s_While(self, s, f):
        import loops
        n = 0
        num = self.loop_number(f, s); spec = self.loopspecs.get((f.key, num)) if num is not None and hasattr(f, "key") else None
        if spec is not None and getattr(spec, "same", False) and not s.orelse: return loops.run_while(self, s, f)
        while True:
            c = lit(self.truth(self.ev(s.test, f)))
            if not conc(c):
                d = self.ctx.decide(c) if n < 64 else None
                if d is None:
                    if s.orelse: raise Unsupported("while ... else")
                    return loops.run_while(self, s, f)
                c = d
            if not c: break
            n += 1
            if n > MAX_UNROLL: raise Unsupported("loop too long to unroll")
            st = self.block(s.body, f, True)
            if st == "break": return NORMAL
            if isinstance(st, tuple): return st
        if s.orelse: return self.block(s.orelse, f, False)
        return NORMAL

    # ------------------------------------------------------------------ expressions
    def ev(self, e, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression %s" % type(e).__name__)
        return m(e, f)

    def e_Constant(self, e, f): return e.value
    def e_Name(self, e, f): return self.lookup(e.id, f)

    def lookup(self, name, f):
        if name not in f.globals_declared and name in f.l:
            v = f.l[name]
            if isinstance(v, (Choice, Poison)): v = self.resolve(v)
            return v
        c = f.closure
        while c is not None:
            if name in c.l: return self.resolve(c.l[name])
            c = c.closure
        if name in f.module.g: return self.resolve(f.module.g[name])
        for m in getattr(f.module, "star", []):
            v = m.fallback(name)
            if v is not None: return v
        if name in self.models["builtins"].d: return self.models["builtins"].d[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        raise PyRaise(NameError, (name,))

    def e_Tuple(self, e, f): return tuple(self.elements(e.elts, f))
    def e_List(self, e, f): return self.elements(e.elts, f)
    def e_Set(self, e, f): return set(self.elements(e.elts, f))
    def elements(self, elts, f):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred): out.extend(self.concrete_iter(self.ev(x.value, f)))
            else: out.append(self.ev(x, f))
        return out
    def e_Dict(self, e, f):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, f)
                d.update(x.items if isinstance(x, Instance) else x)
            else:
                kk = self.ev(k, f)
                if is_sym(kk): raise Unsupported("symbolic dictionary key")
                d[kk] = self.ev(v, f)
        return d

    def e_JoinedStr(self, e, f):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value); continue
            x = self.resolve(self.ev(v.value, f))
            if hasattr(x, "vformat") and v.conversion in (-1, 115):
                parts.append(x.vformat(self, self.ev(v.format_spec, f) if v.format_spec else "")); continue
            if has_sym(x) : return Opaque("formatted string")
            if v.conversion == 114: x = repr(x)
            elif v.conversion == 115: x = str(x)
            spec = self.ev(v.format_spec, f) if v.format_spec else ""
            parts.append(format(x, spec))
        if all(isinstance(x, str) for x in parts): return "".join(parts)
        r = parts[0]
        for x in parts[1:]: r = self.binop("add", r, x)
        return r

    def e_Lambda(self, e, f):
        a = e.args
        fn = Func(e, f.module, f if f.func is not None else None, "<lambda>", [self.ev(d, f) for d in a.defaults], {})
        fn.cls = None
        return fn

    def e_IfExp(self, e, f):
        c = lit(self.truth(self.ev(e.test, f)))
        if not conc(c):
            d = self.ctx.decide(c)
            if d is not None: c = d
            elif self.forkable(c): c = self.ctx.fork(c)
        if conc(c): return self.ev(e.body if c else e.orelse, f)
        def run(cond, x):
            self.ctx.guards.append(cond)
            try: return self.ev(x, f)
            finally: self.ctx.guards.pop()
        return self.merge(c, run(c, e.body), run(lnot(c), e.orelse))

    def e_BoolOp(self, e, f):
        is_and = isinstance(e.op, ast.And)
        n = 0; terms = []
        try:
            for i, x in enumerate(e.values):
                v = self.ev(x, f)
                c = lit(self.truth(v))
                if conc(c):
                    if bool(c) != is_and:
                        if not terms: return v
                        terms.append(bool(c)); break
                    if i == len(e.values) - 1 and not terms: return v
                    continue
                d = self.ctx.decide(c) if i < len(e.values) - 1 else None
                if d is not None:
                    if d != is_and:
                        if not terms: return d
                        terms.append(d); break
                    continue
                if i < len(e.values) - 1 and not terms and self.forkable(c) and not is_boolish(v):
                    if self.ctx.fork(c) != is_and: return v
                    continue
                terms.append(c)
                if i < len(e.values) - 1:
                    self.ctx.guards.append(c if is_and else lnot(c)); n += 1
        finally:
            if n: del self.ctx.guards[-n:]
        return land(*terms) if is_and else lor(*terms)

    def e_UnaryOp(self, e, f):
        v = self.ev(e.operand, f)
        if isinstance(e.op, ast.Not): return lnot(self.truth(v))
        if isinstance(v, SArr) or isinstance(v, np.ndarray) and v.ndim:
            return self.np.unary(type(e.op).__name__, v)
        if is_sym(v):
            if isinstance(e.op, ast.USub): return neg(v)
            if isinstance(e.op, ast.UAdd): return v
            if isinstance(e.op, ast.Invert):
                if isinstance(v, z3.BoolRef): return lnot(v)
                return sub(neg(v), 1)
        if isinstance(v, SymVal): return v.unary(self, type(e.op).__name__)
        return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)](v)

    def e_BinOp(self, e, f):
        a = self.ev(e.left, f)
        return self.binop(BIN[type(e.op)], a, self.ev(e.right, f))

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, SymVal) or isinstance(b, SymVal):
            return (a if isinstance(a, SymVal) else b).binary(self, op, a, b)
        if isinstance(a, SArr) and a.pylist or isinstance(b, SArr) and b.pylist:
            # Python lists: + concatenates, * repeats, with arrays they are converted
            la = isinstance(a, list) or isinstance(a, SArr) and a.pylist; lb = isinstance(b, list) or isinstance(b, SArr) and b.pylist
            if la and lb and op == "add": return self.np.concat_lists(a, b)
            if not (isinstance(a, (SArr, np.ndarray)) and isinstance(b, (SArr, np.ndarray))) or la and lb: raise Unsupported("%s on lists of unknown length" % op)
        if isinstance(a, (SArr, np.ndarray)) or isinstance(b, (SArr, np.ndarray)):
            if has_sym(a) or has_sym(b): return self.np.binary(op, a, b)
            return getattr(operator, OPER[op])(a, b)
        if is_sym(a) or is_sym(b):
            if isinstance(a, (str, list, tuple)) or isinstance(b, (str, list, tuple)):
                if op == "mod" and isinstance(a, str): return Opaque("formatted string")
                if op == "mul" and isinstance(b, list) and len(b) == 1: return self.np.repeat_list(b[0], a)
                if op == "mul" and isinstance(a, list) and len(a) == 1: return self.np.repeat_list(a[0], b)
                raise Unsupported("%s of a symbolic value and a sequence" % op)
            return self.scalar_op(op, a, b)
        if isinstance(a, Instance):
            c, m = a.cls.lookup("__%s__" % op)
            if m is not None: return self.call(Bound(a, m), [b], {})
        if isinstance(a, str) and op == "mod" and has_sym(b): return Opaque("formatted string")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)) and op == "add": return Opaque("string")
            if isinstance(a, Opaque) and hasattr(a, "binary"): return a.binary(self, op, a, b)
            raise Unsupported("%s on %r and %r" % (op, a, b))
        try: return getattr(operator, OPER[op])(a, b)
        except (TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
            if has_sym(a) or has_sym(b): raise Unsupported("%s: %s" % (op, e))
            raise PyRaise(type(e), e.args)

    def shift(self, op, a, b):
        p = 2 ** int(b) if conc(b) else self.np.pow2(b)
        return mul(a, p) if op == "lshift" else floordiv(a, p)

    def scalar_op(self, op, a, b):
        if op == "add": return add(a, b)
        if op == "sub": return sub(a, b)
        if op == "mul": return mul(a, b)
        if op in ("and_", "or_", "xor") and is_boolish(a) and is_boolish(b):
            if op == "and_": return land(a, b)
            if op == "or_": return lor(a, b)
            return z3.Xor(t(a), t(b))
        if op in ("floordiv", "mod"):
            if not (is_int(a) or is_boolish(a)) or not is_int(b): raise Unsupported("%s of non-integers" % op)
            self.fail_unless(ne(b, 0), "no division by zero", PyRaise(ZeroDivisionError, ()))
            if not self.ctx.decide(gt(b, 0)): raise Unsupported("division by a number which may be negative")
            return floordiv(a, b) if op == "floordiv" else mod(a, b)
        if op == "truediv":
            return tdiv(a, b)
        if op == "lshift" and conc(b): return mul(a, 2 ** int(b))
        if op == "lshift" and conc(a) and a == 1 or op == "pow" and conc(a) and a == 2: return self.np.pow2(b if op == "pow" or True else b)
        if op == "rshift" and conc(b): return floordiv(a, 2 ** int(b))
        if op in ("lshift", "rshift") and is_int(a) and is_int(b):
            self.fail_unless(ge(b, 0), "the shift count is not negative", PyRaise(ValueError, ("negative shift count",)))
            return self.shift(op, a, b)
        if op == "pow" and conc(b) and isinstance(b, int) and 0 <= b <= 4:
            r = 1
            for _ in range(b): r = mul(r, a)
            return r
        if op == "and_" and conc(b) and isinstance(b, int) and b >= 0 and (b + 1) & b == 0: return mod(a, b + 1)
        if op == "xor" and is_int(a) and is_int(b): return self.np.xor(a, b)
        if op == "and_" and is_int(a) and is_int(b): return self.np.band(a, b)
        raise Unsupported("operator %s on symbolic values" % op)

    def e_Compare(self, e, f):
        left = self.ev(e.left, f)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, f)
            out.append(self.compare(type(op).__name__, left, right))
            if len(e.ops) > 1 and lit(out[-1]) is False: return False
            left = right
        if len(out) == 1: return out[0]
        return land(*[self.truth(x) for x in out])

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else lnot(r)
        if op in ("In", "NotIn"):
            r = self.contains_(a, b)
            return r if op == "In" else lnot(r)
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Choice):
            return lor(land(a.c, self.compare(op, a.a, b)), land(lnot(a.c), self.compare(op, a.b, b)))
        if isinstance(b, Choice):
            return lor(land(b.c, self.compare(op, a, b.a)), land(lnot(b.c), self.compare(op, a, b.b)))
        if isinstance(a, SymVal) or isinstance(b, SymVal):
            return (a if isinstance(a, SymVal) else b).cmp(self, op, a, b)
        if isinstance(a, SArr) and a.pylist and isinstance(b, (SArr, list)) and (isinstance(b, list) or b.pylist):
            if op in ("Eq", "NotEq"):
                r = self.np.list_equal(a, b)
                return r if op == "Eq" else lnot(r)
            raise Unsupported("comparison of lists")
        if isinstance(a, (SArr, np.ndarray)) or isinstance(b, (SArr, np.ndarray)):
            if has_sym(a) or has_sym(b): return self.np.compare(op, a, b)
        if (a is None or b is None or isinstance(a, str) or isinstance(b, str)) and (is_sym(a) or is_sym(b) or isinstance(a, SArr) or isinstance(b, SArr)):
            if op == "Eq": return False
            if op == "NotEq": return True
        if is_sym(a) or is_sym(b):
            if op == "Eq": return eq(a, b)
            if op == "NotEq": return ne(a, b)
            if (is_num(a) or is_boolish(a)) and (is_num(b) or is_boolish(b)):
                return {"Lt": lt, "LtE": le, "Gt": gt, "GtE": ge}[op](a, b)
            raise Unsupported("comparison of %s and %s" % (a, b))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (has_sym(a) or has_sym(b)):
            if op in ("Eq", "NotEq"):
                if type(a) != type(b) or len(a) != len(b): r = False
                else: r = land(*[self.truth(self.compare("Eq", x, y)) for x, y in zip(a, b)])
                return r if op == "Eq" else lnot(r)
            raise Unsupported("ordering of sequences")
        if isinstance(a, (SDtype,)) or isinstance(b, (SDtype,)):
            r = a is b or (getattr(a, "term", None) is not None and getattr(b, "term", None) is not None and None)
            if r is None: r = eq(a.term, b.term)
            return r if op == "Eq" else lnot(r)
        if isinstance(a, Instance) or isinstance(b, Instance):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Instance):
                    c, m = x.cls.lookup("__eq__")
                    if m is not None and op in ("Eq", "NotEq"):
                        r = self.truth(self.call(Bound(x, m), [y], {}))
                        return r if op == "Eq" else lnot(r)
            if op == "Eq": return a is b
            if op == "NotEq": return a is not b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b and op in ("Eq", "NotEq"): return op == "Eq"
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Opaque) and hasattr(x, "cmp"): return x.cmp(self, op, a, b)
            raise Unsupported("comparison of %r and %r" % (a, b))
        try: return {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}[op](a, b)
        except TypeError as ex: raise PyRaise(TypeError, ex.args)

    def is_(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Choice): return lor(land(a.c, self.is_(a.a, b)), land(lnot(a.c), self.is_(a.b, b)))
        if isinstance(b, Choice): return self.is_(b, a)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SArr) and getattr(x, "choice", None) is not None and x is not y and isinstance(y, SArr):
                return self.is_(x.choice, y)
            if hasattr(x, "is_same"): return x.is_same(self, y)
        if isinstance(a, (bool, int, float, str)) and type(a) == type(b): return a is b or (isinstance(a, bool) and a == b) or a == b
        if isinstance(a, z3.BoolRef) and isinstance(b, bool): return a if b else lnot(a)
        if isinstance(b, z3.BoolRef) and isinstance(a, bool): return b if a else lnot(b)
        return a is b

    def contains_(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(b, Instance):
            c, m = b.cls.lookup("__contains__")
            if m is not None: return self.truth(self.call(Bound(b, m), [a], {}))
            if b.items is not None: return a in b.items
        if hasattr(b, "vcontains"): return b.vcontains(self, a)
        if isinstance(b, (list, tuple, set, frozenset, dict, range, type({}.keys()), type({}.values()))) :
            if isinstance(b, range) and is_sym(a):
                if b.step == 1: return land(le(b.start, a), lt(a, b.stop))
                raise Unsupported("in range with a step")
            if not has_sym(a) and not has_sym(list(b)):
                try: return a in b
                except TypeError as e: raise PyRaise(TypeError, e.args)
            return lor(*[self.truth(self.compare("Eq", a, x)) for x in b])
        if isinstance(b, str) and isinstance(a, str): return a in b
        if isinstance(b, str) and isinstance(a, Opaque): raise Unsupported("in")
        if isinstance(b, np.ndarray) and not has_sym(a): return a in b
        if isinstance(b, SArr):
            j = fresh_int("j")
            return z3.Exists([j], t(land(le(0, j), lt(j, b.shape[0]), eq(b.get(j), a))))
        raise Unsupported("'in' on %r" % (b,))

    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, Choice): return lor(land(v.c, self.truth(v.a)), land(lnot(v.c), self.truth(v.b)))
        if isinstance(v, z3.BoolRef): return lit(v)
        if isinstance(v, z3.ArithRef): return ne(v, 0)
        if isinstance(v, SArr):
            if v.pylist: return gt(v.shape[0], 0)
            if v.ndim == 0: return self.truth(v.get())
            d = self.ctx.decide(eq(v.shape[0], 1))
            if d and v.ndim == 1: return self.truth(v.get(0))
            raise Unsupported("truth value of an array")
        if isinstance(v, Instance):
            c, m = v.cls.lookup("__bool__")
            if m is None: c, m = v.cls.lookup("__len__")
            if m is not None: return self.truth(self.call(Bound(v, m), [], {}))
            if v.items is not None: return bool(v.items)
            return True
        if isinstance(v, SymVal): return v.truth(self)
        if hasattr(v, "vtruth"): return v.vtruth(self)
        if isinstance(v, (Func, Bound, Class, Module, Namespace, Builtin, Opaque, SDtype)): return True
        if isinstance(v, np.ndarray) and v.size != 1 and v.ndim:
            raise PyRaise(ValueError, ("truth value of an array",))
        return bool(v)

    def e_Starred(self, e, f): raise Unsupported("starred expression")
    def e_NamedExpr(self, e, f):
        v = self.ev(e.value, f); self.bind(e.target.id, v, f); return v

    def e_Attribute(self, e, f):
        return self.attr(self.ev(e.value, f), e.attr)

    def attr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.distribute(o, lambda x: self.attr(x, name), "attribute %s" % name)
        if isinstance(o, Module):
            if name in o.g: return self.resolve(o.g[name])
            if o.name + "." + name in self.modules: return self.modules[o.name + "." + name]
            for m in getattr(o, "star", []):
                v = m.fallback(name)
                if v is not None: return v
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, Namespace):
            if name in o.d: return o.d[name]
            fb = getattr(o, "fallback", None)
            if fb:
                v = fb(name)
                if v is not None: return v
            raise Unsupported("%s.%s" % (o.name, name))
        if isinstance(o, Instance):
            if name in o.d:
                return self.resolve(o.d[name])
            if name == "__class__": return o.cls
            if name == "__dict__": return o.d
            c, m = o.cls.lookup(name)
            if m is not None or c is not None:
                if isinstance(m, Func):
                    if m.is_property: return self.call(Bound(o, m), [], {})
                    if m.is_static: return m
                    if m.is_class: return Bound(o.cls, m)
                    return Bound(o, m)
                return m
            v = self.native_method(o, name)
            if v is not None: return v
            c, m = o.cls.lookup("__getattr__")
            if m is not None: return self.call(Bound(o, m), [name], {})
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, Class):
            if name == "__name__": return o.name
            c, m = o.lookup(name)
            if c is not None:
                if isinstance(m, Func) and m.is_class: return Bound(o, m)
                return m
            for b in o.native_bases():
                if hasattr(b, "cattr"): return b.cattr(self, name)
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, SuperObj):
            mro = o.inst.cls.mro(); i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, Class):
                    if name in c.ns:
                        m = c.ns[name]
                        return Bound(o.inst, m) if isinstance(m, Func) and not m.is_static else m
                else:
                    v = self.native_method(o.inst, name, base=c)
                    if v is not None: return v
            if name == "__init__": return Builtin("object.__init__", lambda I, a, k: None)
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, SArr): return self.np.array_attr(o, name)
        if isinstance(o, z3.ExprRef): return self.np.scalar_attr(o, name)
        if isinstance(o, SDtype): return self.np.dtype_attr(o, name)
        if isinstance(o, SymVal): return o.attr(self, name)
        if hasattr(o, "vattr"): return o.vattr(self, name)
        if isinstance(o, Func):
            if name == "__name__": return o.name
            if name in o.attrs: return o.attrs[name]
            raise Unsupported("function attribute %s" % name)
        if isinstance(o, Opaque):
            if hasattr(o, name): return getattr(o, name)
            if name in ("format",) : return Builtin("format", lambda I, a, k: Opaque("string"))
            raise Unsupported("attribute %s of %r" % (name, o))
        if isinstance(o, PyRaise):
            if name == "args": return o.eargs
            raise Unsupported("attribute %s of an exception" % name)
        if isinstance(o, (list, dict, set)) and name in MUTATORS:
            return self.native_mutator(o, name)
        if isinstance(o, np.ndarray): return self.np.ndarray_attr(o, name)
        try: v = getattr(o, name)
        except AttributeError as ex: raise PyRaise(AttributeError, ex.args)
        return v

    def native_mutator(self, o, name):
        def run(I, a, k):
            self.ctx.touch(o, lambda: snapshot(o))
            if name in ("remove", "sort", "discard") and (has_sym(o) or has_sym(a)): raise Unsupported("%s with symbolic values" % name)
            if name == "extend" and isinstance(a[0], (SArr, SymIter, SymRange)): a = [self.concrete_iter(a[0])]
            if name in ("pop", "insert", "setdefault") and a and is_sym(a[0]): raise Unsupported("symbolic index")
            try: return getattr(o, name)(*a, **k)
            except (KeyError, IndexError, ValueError) as e: raise PyRaise(type(e), e.args)
        return Builtin("list.%s" % name, run)

    def native_method(self, o, name, base=None):
        for b in ([base] if base is not None else o.cls.native_bases()):
            if hasattr(b, "imethod"):
                v = b.imethod(self, o, name)
                if v is not None: return v
            if b is dict or getattr(b, "is_mapping", False):
                if name in ("keys", "values", "items", "get") : return getattr(o.items, name)
                if name in ("__setitem__",):
                    return Builtin("dict.__setitem__", lambda I, a, k: self.raw_setitem(o, a[0], a[1]))
                if name == "__getitem__": return Builtin("dict.__getitem__", lambda I, a, k: self.raw_getitem(o, a[0]))
                if name == "__contains__": return Builtin("dict.__contains__", lambda I, a, k: a[0] in o.items)
                if name == "__init__":
                    def init(I, a, k):
                        if a: o.items.update(dict(a[0]))
                        o.items.update(k)
                    return Builtin("dict.__init__", init)
                if name == "update":
                    def upd(I, a, k):
                        self.ctx.touch(o, lambda: (dict(o.d), dict(o.items)))
                        for x in a: o.items.update(x.items if isinstance(x, Instance) else x)
                        o.items.update(k)
                    return Builtin("dict.update", upd)
            if isinstance(b, type) and issubclass(b, BaseException):
                if name == "__init__": return Builtin("__init__", lambda I, a, k: o.d.__setitem__("args", tuple(a)))
                if name == "args": return o.d.get("args", ())
        return None

    def raw_setitem(self, o, k, v):
        self.ctx.touch(o, lambda: (dict(o.d), dict(o.items)))
        o.items[k] = v
    def raw_getitem(self, o, k):
        if k not in o.items: raise PyRaise(KeyError, (k,))
        return o.items[k]

    def distribute(self, ch, fn, what):
        """Apply to both alternatives under their conditions"""
        def run(cond, x):
            self.ctx.guards.append(cond)
            try: return fn(x)
            except PyRaise as e:
                self.ctx.prove(False, "no %s for %s" % (e, what))
                return Poison("error")
            finally: self.ctx.guards.pop()
        a = run(ch.c, ch.a); b = run(lnot(ch.c), ch.b)
        if isinstance(a, Poison): self.ctx.fact(lnot(ch.c)); return b
        if isinstance(b, Poison): self.ctx.fact(ch.c); return a
        return self.merge(ch.c, a, b)

    # --- subscripts
    def ev_index(self, e, f):
        if isinstance(e, ast.Slice):
            return slice(self.ev(e.lower, f) if e.lower else None, self.ev(e.upper, f) if e.upper else None, self.ev(e.step, f) if e.step else None)
        if isinstance(e, ast.Tuple): return tuple(self.ev_index(x, f) for x in e.elts)
        return self.ev(e, f)
    def e_Slice(self, e, f): return self.ev_index(e, f)
    def e_Subscript(self, e, f):
        o = self.ev(e.value, f)
        return self.getitem(o, self.ev_index(e.slice, f))

    def getitem(self, o, k, inbounds=False):
        o = self.resolve(o); k = self.resolve(k)
        if isinstance(o, Choice): return self.distribute(o, lambda x: self.getitem(x, k), "subscript")
        if isinstance(o, SArr): return self.np.getitem(o, k, inbounds)
        if isinstance(o, np.ndarray):
            if not has_sym(k):
                try: return o[k]
                except IndexError as e: raise PyRaise(IndexError, e.args)
            return self.np.getitem(self.np.as_array(o), k)
        if isinstance(o, Instance):
            c, m = o.cls.lookup("__getitem__")
            if m is not None: return self.call(Bound(o, m), [k], {})
            if o.items is not None: return self.raw_getitem(o, k)
            raise Unsupported("subscript of %r" % (o,))
        if isinstance(o, SymVal): return o.getitem(self, k)
        if hasattr(o, "vgetitem"): return o.vgetitem(self, k)
        if isinstance(o, (list, tuple, str, bytes, range)):
            if isinstance(k, slice):
                if has_sym(k): raise Unsupported("symbolic slice of a list")
                return o[k]
            if is_sym(k):
                kk = self.known_int(k)
                if kk is None: return self.select(o, k)
                k = kk
            try: return o[k]
            except (IndexError, TypeError) as e: raise PyRaise(type(e), e.args)
        if isinstance(o, dict):
            if is_sym(k):
                kk = self.known_int(k)
                if kk is None: raise Unsupported("symbolic dictionary key")
                k = kk
            try: return o[k]
            except KeyError: raise PyRaise(KeyError, (k,))
            except TypeError as e: raise PyRaise(TypeError, e.args)
        if isinstance(o, Opaque): raise Unsupported("subscript of %r" % (o,))
        if is_sym(o):
            if k == () or k is Ellipsis: return o
            raise Unsupported("subscript of a scalar")
        if isinstance(o, (Namespace, Builtin)) and hasattr(o, "subscript"): return o.subscript(k)
        try: return o[k]
        except (KeyError, IndexError, TypeError, ValueError) as e: raise PyRaise(type(e), e.args)

    def select(self, seq, k):
        """Element of a short sequence at a symbolic position"""
        n = len(seq)
        self.fail_unless(land(le(-n, k), lt(k, n)), "index in range", PyRaise(IndexError, ()))
        out = seq[-1]
        for i in range(n - 2, -1, -1):
            out = self.merge(lor(eq(k, i), eq(k, i - n)), seq[i], out)
        return out

    def setitem(self, o, k, v):
        o = self.resolve(o); k = self.resolve(k)
        if isinstance(o, Choice): raise Unsupported("assignment to an element of a value which differs between ranks")
        if isinstance(o, SArr): return self.np.setitem(o, k, v)
        if isinstance(o, np.ndarray):
            if has_sym(k) or has_sym(v): raise Unsupported("symbolic value stored in a concrete array")
            self.ctx.touch(o, lambda: o.copy())
            try: o[k] = v
            except (IndexError, ValueError) as e: raise PyRaise(type(e), e.args)
            return
        if isinstance(o, Instance):
            c, m = o.cls.lookup("__setitem__")
            if m is not None: self.call(Bound(o, m), [k, v], {}); return
            if o.items is not None: return self.raw_setitem(o, k, v)
        if isinstance(o, SymVal): return o.setitem(self, k, v)
        if hasattr(o, "vsetitem"): return o.vsetitem(self, k, v)
        if isinstance(o, (list, dict)):
            if has_sym(k):
                kk = self.known_int(k) if is_sym(k) else None
                if kk is None: raise Unsupported("symbolic key in assignment")
                k = kk
            self.ctx.touch(o, lambda: snapshot(o))
            try: o[k] = v
            except IndexError as e: raise PyRaise(IndexError, e.args)
            return
        raise Unsupported("item assignment on %r" % (o,))

    # --- comprehensions
    def e_ListComp(self, e, f): return self.comp(e, f, lambda g: self.ev(e.elt, g))
    def e_GeneratorExp(self, e, f):
        r = self.comp(e, f, lambda g: self.ev(e.elt, g))
        return GenList(r) if isinstance(r, list) else r
    def e_SetComp(self, e, f):
        r = self.comp(e, f, lambda g: self.ev(e.elt, g))
        if has_sym(r): raise Unsupported("set of symbolic values")
        return set(r)
    def e_DictComp(self, e, f): return dict(self.comp(e, f, lambda g: (self.ev(e.key, g), self.ev(e.value, g))))

    def comp(self, e, f, elt):
        g = Frame(f.func, f.module, {}, f); g.star = getattr(f, "star", [])
        if f.func is None and f.l is not f.module.g: g.closure = f
        g.func = f.func
        if len(e.generators) == 1 and not e.generators[0].ifs:
            gen = e.generators[0]
            si = self.sym_iter(self.ev(gen.iter, f))
            if si is not None and self.known_int(si[0]) is None:
                return self.np.map_list(si[0], si[1], lambda x: (self.assign(gen.target, x, g), elt(g))[1])
        out = []
        def rec(gens):
            if not gens: out.append(elt(g)); return
            gen = gens[0]
            for v in self.concrete_iter(self.ev(gen.iter, g if gens is not e.generators else f)):
                self.assign(gen.target, v, g)
                ok = True
                for c in gen.ifs:
                    cc = self.truth(self.ev(c, g))
                    if not self.fork_truth(cc): ok = False; break
                if ok: rec(gens[1:])
        rec(e.generators)
        return out

    def fork_truth(self, c):
        c = lit(c)
        if conc(c): return bool(c)
        d = self.ctx.decide(c)
        if d is not None: return d
        if self.forkable(c): return self.ctx.fork(c)
        raise Unsupported("condition which differs between ranks or iterations")

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, f):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            c = f
            while c is not None and not (c.func is not None and getattr(c.func, "cls", None)): c = c.closure
            return SuperObj(c.func.cls, c.l[c.func.node.args.args[0].arg])
        fn = self.ev(e.func, f)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred): args.extend(self.concrete_iter(self.ev(a.value, f)))
            else: args.append(self.ev(a, f))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, f)
                kw.update(d.items if isinstance(d, Instance) else d)
            else: kw[k.arg] = self.ev(k.value, f)
        if fn is builtins.locals or isinstance(fn, Builtin) and fn.name == "locals": return f.l
        where = self.ctx.where
        self.cur_frame = f
        try: return self.call(fn, args, kw)
        finally: self.ctx.where = where

    def call(self, fn, args, kw):
        fn = self.resolve(fn)
        if isinstance(fn, Builtin): return fn.fn(self, args, kw)
        if isinstance(fn, Bound):
            if isinstance(fn.fn, Func): return self.call_func(fn.fn, [fn.self_] + args, kw)
            return self.call(fn.fn, [fn.self_] + args, kw)
        if isinstance(fn, Func): return self.call_func(fn, args, kw)
        if isinstance(fn, Class): return self.instantiate(fn, args, kw)
        if isinstance(fn, Instance):
            c, m = fn.cls.lookup("__call__")
            if m is not None: return self.call(Bound(fn, m), args, kw)
        if isinstance(fn, Opaque):
            if hasattr(fn, "call"): return fn.call(self, args, kw)
            raise Unsupported("call of %r" % fn)
        if hasattr(fn, "vcall"): return fn.vcall(self, args, kw)
        if isinstance(fn, Namespace) and "__call__" in fn.d: return fn.d["__call__"].fn(self, args, kw)
        if has_sym(args) or has_sym(kw):
            h = self.models.get("native", {}).get(fn) if _hashable(fn) else None
            if h is not None: return h(self, args, kw)
            if getattr(fn, "__name__", "") in ("format", "join", "write", "append", "__init__", "get", "items", "keys", "values", "index", "count", "startswith", "endswith", "copy") and hasattr(fn, "__self__"):
                if isinstance(fn.__self__, str): return Opaque("string")
                if isinstance(fn.__self__, dict) and fn.__name__ == "get" and not has_sym(args[0]): return fn(*args, **kw)
                if isinstance(fn.__self__, (list,)) and fn.__name__ == "copy": return fn()
            if isinstance(fn, type) and issubclass(fn, BaseException): return PyRaise(fn, tuple(args))
            if fn in (list, tuple):
                if isinstance(args[0], SArr): return args[0] if args[0].pylist else self.np.to_list(args[0])
                return fn(self.concrete_iter(args[0]))
            raise Unsupported("call of %r with symbolic arguments" % (fn,))
        if isinstance(fn, type) and issubclass(fn, BaseException): return PyRaise(fn, tuple(args))
        if fn is list or fn is tuple:
            return fn(self.concrete_iter(args[0])) if args else fn()
        if not callable(fn): raise PyRaise(TypeError, ("not callable",))
        try: return fn(*args, **kw)
        except (ValueError, KeyError, IndexError, TypeError, AttributeError, ZeroDivisionError, OverflowError, AssertionError, StopIteration) as e:
            raise PyRaise(type(e), e.args)

    def instantiate(self, cls, args, kw):
        key = cls.module.name + "." + cls.name
        if key in self.contracts: return self.contracts[key](self, cls, args, kw)
        for b in cls.native_bases():
            if hasattr(b, "inew"):
                o = b.inew(self, cls, args, kw)
                c, m = cls.lookup("__init__")
                return o
        o = Instance(cls)
        c, m = cls.lookup("__init__")
        if m is not None: self.call_func(m, [o] + args, kw)
        else:
            v = self.native_method(o, "__init__")
            if v is not None: v.fn(self, args, kw)
            elif args or kw: raise PyRaise(TypeError, ("%s() takes no arguments" % cls.name,))
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in cls.native_bases()) and "args" not in o.d:
            o.d["args"] = tuple(args)
        return o

    def bind_args(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        l = {}
        kw = dict(kw)
        for n, v in zip(names, args): l[n] = v
        if len(args) > len(names):
            if a.vararg is None: raise PyRaise(TypeError, ("too many arguments to %s" % fn.name,))
        if a.vararg is not None: l[a.vararg.arg] = tuple(args[len(names):])
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in l: raise PyRaise(TypeError, ("repeated argument %s" % n,))
                l[n] = kw.pop(n)
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n not in l:
                j = i - (len(names) - nd)
                if j < 0: raise PyRaise(TypeError, ("missing argument %s of %s" % (n, fn.name),))
                l[n] = fn.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in l:
                if x.arg not in fn.kwdefaults: raise PyRaise(TypeError, ("missing argument %s" % x.arg,))
                l[x.arg] = fn.kwdefaults[x.arg]
        if a.kwarg is not None: l[a.kwarg.arg] = kw
        elif kw: raise PyRaise(TypeError, ("unexpected arguments %s of %s" % (list(kw), fn.name),))
        return l

    def call_func(self, fn, args, kw, top=False):
        key = fn.module.name + "." + fn.qual
        l = self.bind_args(fn, args, kw)
        if not top and key in self.contracts:
            self.assumed_calls.add(key)
            return self.contracts[key](self, l)
        if self.depth > 60: raise Unsupported("recursion")
        f = Frame(fn, fn.module, l, fn.closure)
        f.key = key
        f.entry = dict(l)
        if isinstance(fn.node, ast.Lambda):
            return self.ev(fn.node.body, f)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node)):
            return self.run_generator(fn, f)
        self.calls.add(key)
        self.depth += 1
        self.frames.append(f)
        where, func = self.ctx.where, self.ctx.func
        self.ctx.func = fn.qual
        try:
            st = self.block(fn.node.body, f, True)
        finally:
            self.depth -= 1; self.frames.pop()
            self.ctx.where, self.ctx.func = where, func
        if isinstance(st, tuple): return st[1]
        return None

    def run_generator(self, fn, f):
        """Generators are run to the end at once"""
        self.calls.add(fn.module.name + "." + fn.qual)
        f.yields = []
        self.depth += 1; self.frames.append(f)
        try: self.block(fn.node.body, f, True)
        finally: self.depth -= 1; self.frames.pop()
        return GenList(f.yields)
    def e_Yield(self, e, f):
        f.yields.append(self.ev(e.value, f) if e.value else None)

    def loop_number(self, f, node):
        """Ordinal of a loop in its function"""
        fn = f.func
        if fn is None: return None
        if fn.loops is None:
            fn.loops = [n for n in preorder(fn.node) if isinstance(n, (ast.For, ast.While))]
        return [i for i, n in enumerate(fn.loops) if n is node][0]


class GenList:
    def __init__(self, items): self.items = list(items)


class SymVal:
    """Base class of modelled values with their own operators"""
    def unary(self, I, op): raise Unsupported("%s on %r" % (op, self))
    def binary(self, I, op, a, b): raise Unsupported("%s on %r" % (op, self))
    def cmp(self, I, op, a, b): raise Unsupported("%s on %r" % (op, self))
    def truth(self, I): return True
    def attr(self, I, name): raise Unsupported("attribute %s of %r" % (name, self))
    def getitem(self, I, k): raise Unsupported("subscript of %r" % self)
    def setitem(self, I, k, v): raise Unsupported("item assignment on %r" % self)


class GuardedEnd(Exception):
    """Execution under the innermost guard cannot go on"""


def preorder(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        yield from preorder(c)


def snapshot(obj):
    if isinstance(obj, Cell): return obj.fn
    if isinstance(obj, list): return list(obj)
    if isinstance(obj, dict): return dict(obj)
    if isinstance(obj, set): return set(obj)
    if isinstance(obj, Instance): return (dict(obj.d), None if obj.items is None else dict(obj.items))
    if isinstance(obj, np.ndarray): return obj.copy()
    if hasattr(obj, "vsnapshot"): return obj.vsnapshot()
    raise Unsupported("storage %r" % (obj,))


def restore(obj, s):
    if isinstance(obj, Cell): obj.fn = s
    elif isinstance(obj, list): obj[:] = s
    elif isinstance(obj, dict): obj.clear(); obj.update(s)
    elif isinstance(obj, set): obj.clear(); obj.update(s)
    elif isinstance(obj, Instance):
        obj.d = dict(s[0])
        if s[1] is not None: obj.items = dict(s[1])
    elif isinstance(obj, np.ndarray): obj[...] = s
    elif hasattr(obj, "vrestore"): obj.vrestore(s)
    else: raise Unsupported("storage %r" % (obj,))


def _hashable(x):
    try: hash(x); return True
    except TypeError: return False


BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow",
       ast.LShift: "lshift", ast.RShift: "rshift", ast.BitAnd: "and_", ast.BitOr: "or_", ast.BitXor: "xor", ast.MatMult: "matmul"}
OPER = {v: v for v in BIN.values()}
INPLACE = {"add": "iadd", "sub": "isub", "mul": "imul", "truediv": "itruediv", "floordiv": "ifloordiv", "mod": "imod", "pow": "ipow",
           "lshift": "ilshift", "rshift": "irshift", "and_": "iand", "or_": "ior", "xor": "ixor"}
