"""
Terms of the verification conditions: Python constants where a value is known,
z3 terms where it is not.  Integers are mathematical integers.
"""
import z3, hashlib
import numpy as np

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """The code is outside the subset which can be verified: undecided, not a violation"""


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def is_int(x):
    return (isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))) or (isinstance(x, z3.ArithRef) and x.is_int())


def is_boolish(x):
    return isinstance(x, (bool, np.bool_)) or isinstance(x, z3.BoolRef)


def is_num(x):
    return isinstance(x, (int, float, np.number)) or isinstance(x, z3.ArithRef)


def lit(x):
    """Python value for z3 literals"""
    if isinstance(x, z3.IntNumRef): return x.as_long()
    if isinstance(x, z3.BoolRef):
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x


def t(x, sort=None):
    """z3 term of a value"""
    if isinstance(x, z3.ExprRef):
        if sort is not None and x.sort() != sort:
            if sort == Real and x.sort() == Int: return z3.ToReal(x)
            if sort == Int and x.sort() == Bool: return z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if sort == Real and x.sort() == Bool: return z3.If(x, z3.RealVal(1), z3.RealVal(0))
            raise Unsupported("term %s is not of sort %s" % (x, sort))
        return x
    if isinstance(x, (bool, np.bool_)):
        if sort is None or sort == Bool: return z3.BoolVal(bool(x))
        x = int(x)
    if isinstance(x, (int, np.integer)):
        if sort == Real: return z3.RealVal(int(x))
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        if sort == Int: raise Unsupported("floating point value used as an integer")
        if x != x or x in (float("inf"), float("-inf")): raise Unsupported("floating point special value")
        import fractions
        return z3.RealVal(fractions.Fraction(float(x)))
    raise Unsupported("no term for %r" % (type(x),))


def conc(x):
    return not isinstance(x, z3.ExprRef)


def num(x):
    return int(x) if isinstance(x, (bool, np.bool_)) else x


def arith2(a, b):
    if isinstance(a, z3.BoolRef): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if isinstance(b, z3.BoolRef): b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    a, b = num(a), num(b)
    if isinstance(a, np.integer): a = int(a)
    if isinstance(b, np.integer): b = int(b)
    if is_sym(a) or is_sym(b):
        a, b = t(a), t(b)
        if a.sort() != b.sort(): a, b = t(a, Real), t(b, Real)
    return a, b


def add(a, b):
    a, b = arith2(a, b)
    if conc(a) and conc(b): return a + b
    return a + b
def sub(a, b):
    if type(b) is int and b == 0 and is_sym(a) and a.sort() == Int: return a
    a, b = arith2(a, b); return a - b
_times = z3.Function("times", Real, Real, Real)
_over = z3.Function("over", Real, Real, Real)
def mul(a, b):
    a, b = arith2(a, b)
    if is_sym(a) and is_sym(b) and a.sort() == Real and not z3.is_rational_value(a) and not z3.is_rational_value(b):
        # products of unknown reals are left uninterpreted, apart from being commutative
        return _times(a, b) if str(a) <= str(b) else _times(b, a)
    return a * b
def tdiv(a, b):
    a, b = arith2(a, b)
    if conc(a) and conc(b): return a / b
    a, b = t(a, Real), t(b, Real)
    if z3.is_rational_value(b): return a / b
    return _over(a, b)
_tx, _ty = z3.Reals("_tx _ty")
TIMES_AXIOM = z3.ForAll([_tx, _ty], _times(_tx, _ty) == _times(_ty, _tx), patterns=[_times(_tx, _ty)])
def real_meaning(*es):
    """What the products and quotients of reals in some terms mean"""
    out, seen = {}, set()
    def go(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        for c in e.children(): go(c)
        if z3.is_app(e) and e.decl().eq(_times): out[e.get_id()] = e == e.arg(0) * e.arg(1)
        if z3.is_app(e) and e.decl().eq(_over): out[e.get_id()] = z3.Implies(e.arg(1) != 0, e == e.arg(0) / e.arg(1))
    for e in es: go(t(e))
    return list(out.values())
REAL_MEANING = [z3.ForAll([_tx, _ty], _times(_tx, _ty) == _tx * _ty, patterns=[_times(_tx, _ty)]), z3.ForAll([_tx, _ty], z3.Implies(_ty != 0, _over(_tx, _ty) == _tx / _ty), patterns=[_over(_tx, _ty)])]
def neg(a):
    a, _ = arith2(a, 0); return -a
def lt(a, b):
    a, b = arith2(a, b); return a < b
def le(a, b):
    a, b = arith2(a, b); return a <= b
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)


def eq(a, b):
    if is_boolish(a) and is_boolish(b):
        if conc(a) and conc(b): return bool(a) == bool(b)
        return t(a) == t(b)
    if (is_num(a) or is_boolish(a)) and (is_num(b) or is_boolish(b)):
        a, b = arith2(a, b)
        return a == b
    if is_sym(a) or is_sym(b):
        if is_sym(a) and is_sym(b) and a.sort() == b.sort(): return a == b
        raise Unsupported("comparison of %s and %s" % (a, b))
    return a == b


def ne(a, b): return lnot(eq(a, b))


def lnot(a):
    a = lit(a)
    if conc(a): return not a
    return z3.Not(a)


def land(*xs):
    out = []
    for x in xs:
        x = lit(x)
        if conc(x):
            if not x: return False
        else: out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*xs):
    out = []
    for x in xs:
        x = lit(x)
        if conc(x):
            if x: return True
        else: out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def implies(a, b):
    a, b = lit(a), lit(b)
    if conc(a): return b if a else True
    if conc(b): return True if b else z3.Not(a)
    return z3.Implies(a, b)


def ite(c, a, b):
    c = lit(c)
    if conc(c): return a if c else b
    if a is b: return a
    if conc(a) and conc(b) and type(a) == type(b) and a == b: return a
    if is_boolish(a) and is_boolish(b): return z3.If(c, t(a), t(b))
    a, b = (t(a), t(b)) if is_sym(a) or is_sym(b) or (is_num(a) and is_num(b)) else (a, b)
    if is_sym(a) and is_sym(b):
        if a.sort() != b.sort():
            a, b = arith2(a, b)
        if a.eq(b): return a
        return z3.If(c, a, b)
    raise Unsupported("merge of %r and %r" % (a, b))


def tmax(a, b): return max(a, b) if conc(a) and conc(b) else ite(ge(a, b), a, b)
def tmin(a, b): return min(a, b) if conc(a) and conc(b) else ite(le(a, b), a, b)


def floordiv(a, b):
    """Python's floor division for a positive divisor"""
    a, b = arith2(a, b)
    if conc(a) and conc(b): return a // b
    return t(a, Int) / t(b, Int)
def mod(a, b):
    a, b = arith2(a, b)
    if conc(a) and conc(b): return a % b
    return t(a, Int) % t(b, Int)


def forall(vs, body, patterns=()):
    body = lit(body)
    if conc(body): return body
    if not vs: return body
    return z3.ForAll(list(vs), body, patterns=list(patterns)) if patterns else z3.ForAll(list(vs), body)


def exists(vs, body):
    body = lit(body)
    if conc(body): return body
    return z3.Exists(list(vs), body)


def subst(x, *pairs):
    if not is_sym(x): return x
    return z3.substitute(x, *[(a, t(b, a.sort())) for a, b in pairs])


def consts_in(x, seen=None, out=None):
    """Uninterpreted constants of a term, in order of appearance"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    if not is_sym(x): return out
    stack = [x]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): stack.append(e.body()); continue
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(e)
        stack.extend(reversed(e.children()))
    return out


def contains(x, c):
    return any(y.eq(c) for y in consts_in(x))


_n = [0]
def fresh_name(base):
    _n[0] += 1
    return "%s!%d" % (base, _n[0])
def fresh_int(base="i"):
    return z3.Int(fresh_name(base))


_COMMUTE = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR}


def canonical(x, anonymous=(), bound=()):
    """The same term with the arguments of commutative operators in an order which does not depend on the history of the solver"""
    if not is_sym(x): return x
    anon = {a.get_id(): "?" for a in anonymous}
    for k, b in enumerate(bound): anon[b.get_id()] = "#%d" % k
    memo = {}
    def go(e):
        i = e.get_id()
        if i in memo: return memo[i][:2]
        if z3.is_quantifier(e) or z3.is_var(e):
            r = (e, hashlib.sha1(e.sexpr().encode()).hexdigest())
        else:
            ch = e.children()
            if not ch:
                r = (e, anon.get(i) or str(e))
            else:
                cs = [go(c) for c in ch]
                order = cs
                if e.decl().kind() in _COMMUTE: order = sorted(cs, key=lambda p: p[1])
                if any(not a[0].eq(b) for a, b in zip(order, ch)):
                    e2 = rebuild(e, [c for c, _ in order])
                else: e2 = e
                h = hashlib.sha1((e.decl().name() + str(e.decl().kind()) + ",".join(str(e.decl().params())) + "(" + " ".join(h for _, h in order) + ")").encode()).hexdigest()
                r = (e2, h)
        memo[i] = r + (e,)
        return r
    import sys
    return go(x)[0]


def rebuild(e, ch):
    k = e.decl().kind()
    if k == z3.Z3_OP_AND: return z3.And(*ch)
    if k == z3.Z3_OP_OR: return z3.Or(*ch)
    if k == z3.Z3_OP_ADD: return z3.Sum(*ch) if len(ch) > 2 else ch[0] + ch[1]
    if k == z3.Z3_OP_MUL:
        r = z3.Product(*ch)
        return r
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF): return ch[0] == ch[1]
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*ch)
    return e.decl()(*ch)
