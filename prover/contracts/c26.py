"""
C26: virgo.util.partial_formatter.PartialFormatter

string.Formatter.vformat() is a trusted contract: the result is the
concatenation, over what parse() finds, of the literal text and of
format_field(convert_field(get_value(key), conversion), spec) for each field
with a simple name.  The methods of the class are verified in this place.
"""
from verify import *
import strmodel
from strmodel import *

MOD = "virgo.util.partial_formatter"
PIPELINE = {"__init__", "get_value", "convert_field", "format_field"}


def setup(v, cfg):
    ctx, I = v.ctx, v.I
    strmodel.install(I, I.models)
    I.load(MOD)
    cls = I.modules[MOD].g["PartialFormatter"]
    other = [n for n in cls.ns if n not in PIPELINE and isinstance(cls.ns[n], Func)]
    if any(hasattr(string.Formatter, n) for n in other): raise Unsupported("the class replaces %s of string.Formatter" % ", ".join(other))
    kw = {} if cfg["ignore"] is None else {"ignore_missing": cfg["ignore"]}
    return I.instantiate(cls, [], kw), cls


def method(v, obj, cls, name, *args):
    """A method of the class, or of string.Formatter if it is not replaced"""
    v.I.calls.add("%s.PartialFormatter.%s" % (MOD, name))
    return v.I.call(v.I.attr(obj, name), list(args), {})


def contract(v, cfg):
    ctx, I = v.ctx, v.I
    v.ctx.allow_errors = v.expect_errors
    obj, cls = setup(v, cfg)
    const = lambda n, so: z3.Const(n, so)
    spec, conv = SymStr(const("spec", Str)), SymStr(const("conversion", Str)) if cfg["conversion"] else None
    value = Value(const("value", Obj))
    if cfg["positional"]:
        key = v.int("index", lo=0)
        there, none = True, False
        kw = Keywords(None, False, False, None); args = Args(key, value)
    else:
        key = SymStr(const("key", Str))
        there, none = const("given", Bool), const("is_none", Bool)
        kw = Keywords(key, there, none, value); args = Args(None, None)
    v.ghost = (there, none)
    x = method(v, obj, cls, "get_value", key, args, kw)
    if cfg["positional"] or not isinstance(key, SymStr): pass
    x = method(v, obj, cls, "convert_field", x, conv)
    out = method(v, obj, cls, "format_field", x, spec)
    if not isinstance(out, (str, SymStr)): v.ensure(False, "the result is a string"); return
    plain = value.term if conv is None else convert(value.term, conv.term)
    supplied = land(there, lnot(none))
    v.ensure(implies(supplied, s(out) == fmt(plain, spec.term)), "a field which is supplied is formatted as string.Formatter does")
    if not cfg["positional"]:
        parts = [z3.StringVal("{"), key.term] + ([z3.StringVal("!"), conv.term] if conv is not None else [])
        same = z3.Concat(*parts, z3.If(z3.Length(spec.term) > 0, z3.Concat(z3.StringVal(":"), spec.term), z3.StringVal("")), z3.StringVal("}"))
        v.ensure(implies(lnot(supplied), s(out) == same), "a field which is not supplied stays as it is, with its conversion and format specification")
        if not cfg["ignore"]: v.ensure(there, "a field which is missing is an error unless missing fields are ignored")


def on_error(v, e):
    there, none = v.ghost
    v.ensure(z3.BoolVal(e.etype is KeyError), "a missing field raises a KeyError")
    v.ensure(z3.BoolVal(not v.cfg["ignore"]), "missing fields raise no error if they are to be ignored")
    v.ensure(lnot(there), "an error only for a field which is missing")


PROPERTY = "C26"
ASSUMPTIONS = ["string.Formatter.vformat() calls get_value, convert_field and format_field in this order for each field with a simple name and concatenates the results with the literal text",
               "the text {name!conversion:spec} is parsed as a field with that name, conversion and specification"]
def tasks():
    for ignore in (None, False, True):
        for conversion in (False, True):
            for positional in (False, True):
                def fn(v, cfg): v.cfg = cfg; contract(v, cfg)
                yield dict(label="PartialFormatter", fn=fn, cfg=dict(ignore=ignore, conversion=conversion, positional=positional), expect_errors=True, on_error=on_error,
                           cfgname="%s%s%s" % ("default" if ignore is None else "ignore_missing=%s" % ignore, ", conversion" if conversion else "", ", positional" if positional else ""))
