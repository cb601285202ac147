"""Strings of unknown content, and what string.Formatter is assumed to do with a replacement field"""
import z3, string
from terms import *
from interp import *

Str = z3.StringSort()
Obj = z3.DeclareSort("Object")
convert = z3.Function("convert", Obj, Str, Obj)         # str(), repr() or ascii() of a value, by conversion character
fmt = z3.Function("format", Obj, Str, Str)              # format(value, spec)


def s(x):
    if isinstance(x, SymStr): return x.term
    if isinstance(x, str): return z3.StringVal(x)
    raise Unsupported("string expected rather than %r" % (x,))


class SymStr(SymVal):
    def __init__(self, term): self.term = z3.simplify(term)
    def __repr__(self): return "<string>"
    def binary(self, I, op, a, b):
        if op == "add": return SymStr(z3.Concat(s(a), s(b)))
        raise Unsupported("%s on strings" % op)
    def cmp(self, I, op, a, b):
        if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)): return {"Eq": False, "NotEq": True}[op]
        if op == "Eq": return s(a) == s(b)
        if op == "NotEq": return s(a) != s(b)
        raise Unsupported("%s on strings" % op)
    def truth(self, I): return z3.Length(self.term) > 0
    def vlen(self, I): return z3.Length(self.term)
    def vformat(self, I, spec):
        if spec != "": raise Unsupported("format specification for a string of unknown content")
        return self
    def visinstance_of(self, c): return c is str
    def attr(self, I, name):
        if name == "startswith": return Builtin(name, lambda I, a, k: z3.PrefixOf(s(a[0]), self.term))
        if name == "endswith": return Builtin(name, lambda I, a, k: z3.SuffixOf(s(a[0]), self.term))
        raise Unsupported("string method %s" % name)


class Value(SymVal):
    """Some object given by the user"""
    def __init__(self, term): self.term = term
    def __repr__(self): return "<value>"
    def truth(self, I): return z3.Function("truth", Obj, Bool)(self.term)
    def cmp(self, I, op, a, b):
        raise Unsupported("comparison of values")
    def attr(self, I, name): raise Unsupported("attribute %s of a value" % name)
    def vformat(self, I, spec): return SymStr(fmt(self.term, s(spec)))


class Keywords(SymVal):
    """Keyword arguments: the one with the name key may be there and may be None"""
    def __init__(self, key, there, none, value): self.key, self.there, self.none, self.value = key, there, none, value
    def vcontains(self, I, k):
        if k is not self.key: raise Unsupported("another key")
        return self.there
    def getitem(self, I, k):
        if k is not self.key: raise Unsupported("another key")
        if not I.branch(self.there): raise PyRaise(KeyError, ())
        return None if I.branch(self.none) else self.value
    def attr(self, I, name):
        if name == "get":
            def get(I, a, k):
                d = a[1] if len(a) > 1 else k.get("default")
                if a[0] is not self.key: raise Unsupported("another key")
                if not I.branch(self.there): return d
                return None if I.branch(self.none) else self.value
            return Builtin("get", get)
        raise Unsupported("method %s of the keyword arguments" % name)


class Args(SymVal):
    """Positional arguments"""
    def __init__(self, index, value): self.index, self.value = index, value
    def getitem(self, I, k):
        if not (is_sym(k) and k.eq(self.index)): raise Unsupported("another argument")
        return self.value


class Formatter:
    """What the methods of string.Formatter do"""
    def imethod(self, I, o, name):
        if name == "convert_field":
            def conv(I, a, k):
                v, c = a
                if c is None: return v
                if not isinstance(v, Value): raise Unsupported("conversion of %r" % (v,))
                return Value(convert(v.term, s(c)))
            return Builtin(name, conv)
        if name == "format_field": return Builtin(name, lambda I, a, k: b_format(I, a, k))
        if name == "get_value":
            return Builtin(name, lambda I, a, k: (a[1] if is_int(a[0]) else a[2]).getitem(I, a[0]))
        if name == "__init__": return Builtin(name, lambda I, a, k: None)
        return None


def b_format(I, a, k):
    v, spec = a[0], (a[1] if len(a) > 1 else "")
    v = I.resolve(v)
    if hasattr(v, "vformat"): return v.vformat(I, spec)
    if has_sym(v) or isinstance(spec, SymStr): raise Unsupported("format of %r" % (v,))
    return format(v, spec)


def install(I, models):
    models["string"] = Namespace("string", Formatter=Formatter())
    models["builtins"].d["format"] = Builtin("format", b_format) if isinstance(models["builtins"], Namespace) else None
