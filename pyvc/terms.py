"""Scalar symbolic proxies and the proof context.

A `Sym` wraps a z3 Int/Real term, a `SymBool` a z3 Bool.  The functions of /repo run natively in
CPython on these proxies; a `bool()` of a symbolic condition forks the execution path (engine.py
re-executes the harness for every feasible path).  Floats are treated as mathematical reals and
machine integers as mathematical integers (stated as an assumption in the evidence)."""
import math
import numbers
import functools
from fractions import Fraction
import numpy as np
import z3


class Unsupported(Exception):
    """The code under proof used something the engine has no semantics for: undecided, not violated."""


class PathEnd(BaseException):
    """The current path needs no further execution (infeasible, or cut by a loop contract)."""


class ProofBudget(BaseException):
    pass


cur = None          # the active engine.Ctx


def ctx():
    if cur is None:
        raise Unsupported('symbolic value used outside a proof context')
    return cur


PI = Fraction(math.pi)


# ---------------------------------------------------------------- conversions
def rv(x):
    """python number -> exact z3 numeral"""
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported('nan/inf constant')
    return z3.RealVal(str(_denoted(x)))


@functools.lru_cache(maxsize=4096)
def _denoted(x):
    """the real number a float constant stands for: its short decimal, a simple fraction or simple multiple of pi that rounds to it,
    else its exact value (mathematical arithmetic: 1/6 of the code is one sixth)"""
    if x.is_integer():
        return int(x)
    r = repr(x)
    f = Fraction(r)
    if len(r.split('e')[0].replace('.', '').replace('-', '').strip('0')) <= 15:
        return f
    e = Fraction(x)
    f = e.limit_denominator(10000)
    if f and float(f) == x:
        return f
    f = (e / PI).limit_denominator(10000)
    if f and float(f * PI) == x:
        return f * PI
    return e


def is_num(x):
    import numpy as np
    return isinstance(x, (numbers.Number, np.bool_)) and not isinstance(x, complex)


def term(x):
    """anything scalar -> z3 arithmetic term"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ExprRef):
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    if is_num(x):
        import numpy as np
        if isinstance(x, (bool, np.bool_)):
            return z3.IntVal(1 if x else 0)
        return rv(x.item() if hasattr(x, 'item') else x)
    import numpy as np
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return rv(x.item())
    raise Unsupported('not a scalar: %r' % (type(x),))


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, z3.ExprRef):
        return x if z3.is_bool(x) else x != 0
    if isinstance(x, Sym):
        return x.t != 0
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if is_num(x):
        return z3.BoolVal(bool(x))
    raise Unsupported('not a boolean: %r' % (type(x),))


def real(t):
    if t.is_int():
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def coerce(a, b):
    if a.is_int() and b.is_int():
        return a, b
    return real(a), real(b)


def wrap(t):
    if isinstance(t, (Sym, SymBool)):
        return t
    if z3.is_bool(t):
        return SymBool(t)
    return Sym(t)


def const_value(t):
    """python value of a constant term, or None"""
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return None


# ---------------------------------------------------------------- operations on terms
def t_add(a, b):
    a, b = coerce(a, b)
    return a + b


def t_sub(a, b):
    a, b = coerce(a, b)
    return a - b


def t_mul(a, b):
    a, b = coerce(a, b)
    return a * b


def t_div(a, b):
    return real(a) / real(b)


def t_floor(a):
    if a.is_int():
        return a
    return z3.ToInt(a)


def t_ceil(a):
    if a.is_int():
        return a
    return -z3.ToInt(-a)


def t_trunc(a):
    if a.is_int():
        return a
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def t_round(a):
    """round half to even"""
    if a.is_int():
        return a
    f = z3.ToInt(a + z3.RealVal('1/2'))
    tie = z3.ToReal(f) == a + z3.RealVal('1/2')
    return z3.If(z3.And(tie, f % 2 != 0), f - 1, f)


def t_floordiv(a, b):
    if a.is_int() and b.is_int():
        bv = const_value(b)
        if bv is not None and bv > 0:
            return a / b
        return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(z3.ToInt(real(a) / real(b)))


def t_mod(a, b):
    if a.is_int() and b.is_int():
        bv = const_value(b)
        if bv is not None and bv > 0:
            return a % b
        return z3.If(b > 0, a % b, -((-a) % (-b)))
    a, b = real(a), real(b)
    return a - b * z3.ToReal(z3.ToInt(a / b))


def t_cdiv(a, b):
    """C integer division (truncation)"""
    q = z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))
    return q


def t_abs(a):
    return z3.If(a >= 0, a, -a)


def t_min(a, b):
    a, b = coerce(a, b)
    return z3.If(a <= b, a, b)


def t_max(a, b):
    a, b = coerce(a, b)
    return z3.If(a >= b, a, b)


def t_ite(c, a, b):
    if z3.is_bool(a) and z3.is_bool(b):
        return z3.If(c, a, b)
    a = z3.If(a, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(a) else a
    b = z3.If(b, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(b) else b
    a, b = coerce(a, b)
    return z3.If(c, a, b)


R = z3.RealSort()
_UF = {}


def uf(name, n=1):
    k = (name, n)
    if k not in _UF:
        _UF[k] = z3.Function(name, *([R] * (n + 1)))
    return _UF[k]


def t_exp(x):
    x = real(x)
    v = const_value(x)
    if v == 0:
        return z3.RealVal(1)
    x = z3.simplify(x)
    e = uf('exp')(x)
    ctx().fact(('exp', x.get_id()), x, lambda: [e > 0, z3.Implies(x <= 0, e <= 1), z3.Implies(x >= 0, e >= 1),
                                    z3.Implies(x < 0, e < 1), z3.Implies(x > 0, e > 1),
                                    z3.Implies(x == 0, e == 1), e >= 1 + x])
    return e


def t_log(x):
    x = z3.simplify(real(x))
    e = uf('log')(x)
    ctx().fact(('log', x.get_id()), x, lambda: [z3.Implies(x >= 1, e >= 0), z3.Implies(z3.And(x > 0, x <= 1), e <= 0),
                                    z3.Implies(x > 0, e <= x - 1), z3.Implies(x > 1, e > 0)])
    return e


def square_root_of(x):
    """|a| when the term x is a*a (also clipped below at 0)"""
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        c, a, b = x.children()
        if const_value(b) == 0 and square_root_of(a) is not None:
            cc = c.children()
            if z3.is_le(c) and const_value(cc[0]) == 0 and cc[1].eq(a) or z3.is_ge(c) and const_value(cc[1]) == 0 and cc[0].eq(a):
                return square_root_of(a)
        return None
    if z3.is_mul(x) and len(x.children()) == 2 and x.children()[0].eq(x.children()[1]):
        a = x.children()[0]
        return t_abs(a)
    return None


def t_sqrt(x):
    x = z3.simplify(real(x))
    v = const_value(x)
    if v is not None and v >= 0:
        r = Fraction(v)
        n, d = math.isqrt(r.numerator), math.isqrt(r.denominator)
        if n * n == r.numerator and d * d == r.denominator:
            return z3.RealVal(str(Fraction(n, d)))
    q = square_root_of(x)
    if q is not None:
        return q
    e = uf('sqrt')(x)
    ctx().fact(('sqrt', x.get_id()), x, lambda: [z3.Implies(x >= 0, z3.And(e >= 0, e * e == x))])
    return e


def t_pow(x, y):
    yv = const_value(y)
    if yv is not None and Fraction(yv).denominator == 1 and abs(yv) <= 6:
        n = int(yv)
        if n == 0:
            return z3.RealVal(1)
        r = x
        for _ in range(abs(n) - 1):
            r = r * x
        if n < 0:
            r = 1 / real(r)
        return r
    x, y = z3.simplify(real(x)), z3.simplify(real(y))
    if yv is not None and Fraction(yv) == Fraction(1, 2):
        return t_sqrt(x)
    e = uf('pow', 2)(x, y)

    def ax():
        out = [z3.Implies(x > 0, e > 0), z3.Implies(x == 1, e == 1)]
        if yv is not None:
            if yv > 0:
                out += [z3.Implies(x == 0, e == 0), z3.Implies(z3.And(x >= 0, x <= 1), z3.And(e >= 0, e <= 1)),
                        z3.Implies(x >= 1, e >= 1), z3.Implies(x > 1, e > 1)]
                if yv >= 1:
                    out += [z3.Implies(x >= 1, e >= x), z3.Implies(z3.And(x >= 0, x <= 1), e <= x)]
                else:
                    out += [z3.Implies(x >= 1, e <= x), z3.Implies(z3.And(x >= 0, x <= 1), e >= x)]
            else:
                out += [z3.Implies(x >= 1, e <= 1), z3.Implies(z3.And(x > 0, x <= 1), e >= 1)]
        else:
            out += [z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), z3.And(e >= 0, e <= 1))]
        return out
    ctx().fact(('pow', x.get_id(), y.get_id()), (x, y), ax)
    return e




def trig_facts(x):
    """pi is the double nearest to pi, as in the code"""
    k = ctx()
    s, c = uf('sin')(x), uf('cos')(x)
    h, p = rv(PI / 2), rv(PI)

    def mk():
        out = [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1,
               z3.Implies(z3.And(x > -h, x < h), c > 0), z3.Implies(z3.And(x > 0, x < p), s > 0),
               z3.Implies(z3.And(x < 0, x > -p), s < 0), z3.Implies(x == 0, z3.And(s == 0, c == 1)),
               z3.Implies(z3.And(x > h, x < 3 * h), c < 0), z3.Implies(z3.And(x > p, x < 2 * p), s < 0)]
        old = k.__dict__.setdefault('trig_args', [])
        for y in old[:8]:
            for n in (-2, 2):
                out.append(z3.Implies(x == y + n * p, z3.And(s == uf('sin')(y), c == uf('cos')(y))))
            for n in (-1, 1):
                out.append(z3.Implies(x == y + n * p, z3.And(s == -uf('sin')(y), c == -uf('cos')(y))))
        old.append(x)
        return out
    k.fact(('trig', x.get_id()), x, mk)


def t_trig(name):
    def f(x):
        x = z3.simplify(real(x))
        if const_value(x) == 0:
            return z3.RealVal(1 if name == 'cos' else 0)
        s, c = uf('sin')(x), uf('cos')(x)
        trig_facts(x)
        if name == 'tan':
            return s / c
        return s if name == 'sin' else c
    return f


t_sin, t_cos, t_tan = t_trig('sin'), t_trig('cos'), t_trig('tan')


def t_arctan2(y, x):
    x, y = z3.simplify(real(x)), z3.simplify(real(y))
    th = uf('arctan2', 2)(y, x)
    s, c = uf('sin')(th), uf('cos')(th)
    r = uf('sqrt')(x * x + y * y)
    pi = rv(PI)
    trig_facts(th)

    def ax():
        return [r >= 0, r * r == x * x + y * y, x == r * c, y == r * s, s * s + c * c == 1,
                th <= pi, th >= -pi]
    ctx().fact(('atan2', x.get_id(), y.get_id()), (x, y), ax)
    return th


def t_unint(name):
    def f(x):
        return uf(name)(z3.simplify(real(x)))
    return f


def t_tanh(x):
    x = z3.simplify(real(x))
    e = uf('tanh')(x)
    ctx().fact(('tanh', x.get_id()), x, lambda: [e > -1, e < 1, z3.Implies(x >= 0, z3.And(e >= 0, e <= x)),
                                     z3.Implies(x <= 0, e <= 0)])
    return e


# ---------------------------------------------------------------- scalar proxies
def _scalar_ok(o):
    import numpy as np
    return isinstance(o, (Sym, SymBool)) or is_num(o) or (isinstance(o, np.ndarray) and o.ndim == 0)


def _bin(op, swap=False):
    def f(self, o):
        if not _scalar_ok(o):
            from . import arrays
            if isinstance(o, list) and op is t_mul:
                if len(o) == 1:
                    return arrays.IMPL['full']((self,), o[0])
                return o * self.__index__()
            if arrays.is_arraylike(o):
                a = arrays.lift(self)
                b = arrays.lift(o)
                return arrays.elementwise(op, *( (b, a) if swap else (a, b)))
            return NotImplemented
        a, b = term(self), term(o)
        if swap:
            a, b = b, a
        return wrap(op(a, b))
    return f


def _guard_zero(op):
    def f(a, b):
        bv = const_value(b)
        if bv is None:
            if not ctx().total_division and ctx().branch(b == 0):
                raise ZeroDivisionError('symbolic division by zero')
        elif bv == 0:
            raise ZeroDivisionError('division by zero')
        return op(a, b)
    return f


def t_eq(a, b):
    a, b = coerce(a, b)
    return a == b


def t_ne(a, b):
    a, b = coerce(a, b)
    return a != b


def t_lt(a, b):
    a, b = coerce(a, b)
    return a < b


def t_le(a, b):
    a, b = coerce(a, b)
    return a <= b


def t_gt(a, b):
    a, b = coerce(a, b)
    return a > b


def t_ge(a, b):
    a, b = coerce(a, b)
    return a >= b


class _Base:
    __array_priority__ = 1e6
    # numbers -----------------------------------------------------------
    __add__, __radd__ = _bin(t_add), _bin(t_add, True)
    __sub__, __rsub__ = _bin(t_sub), _bin(t_sub, True)
    __mul__, __rmul__ = _bin(t_mul), _bin(t_mul, True)
    __truediv__, __rtruediv__ = _bin(_guard_zero(t_div)), _bin(_guard_zero(t_div), True)
    __floordiv__, __rfloordiv__ = _bin(_guard_zero(t_floordiv)), _bin(_guard_zero(t_floordiv), True)
    __mod__, __rmod__ = _bin(_guard_zero(t_mod)), _bin(_guard_zero(t_mod), True)
    __pow__, __rpow__ = _bin(t_pow), _bin(t_pow, True)
    __lt__, __le__, __gt__, __ge__ = _bin(t_lt), _bin(t_le), _bin(t_gt), _bin(t_ge)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, list, tuple, dict, set)):
            return False
        r = _bin(t_eq)(self, o)
        return r

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, list, tuple, dict, set)):
            return True
        return _bin(t_ne)(self, o)

    def __neg__(self):
        return wrap(-term(self))

    def __pos__(self):
        return wrap(term(self))

    def __abs__(self):
        return wrap(t_abs(term(self)))

    def __divmod__(self, o):
        return self // o, self % o

    def __float__(self):
        v = const_value(term(self))
        if v is None:
            raise Unsupported('float() of a symbolic value')
        return float(v)

    def __int__(self):
        v = const_value(term(self))
        if v is None:
            raise Unsupported('int() of a symbolic value')
        return int(v)

    def __index__(self):
        v = const_value(term(self))
        if v is None or int(v) != v:
            v = ctx().unique_value(term(self))
            if v is None:
                raise Unsupported('index() of a symbolic value')
        return int(v)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arrays
        return arrays.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arrays
        return arrays.function_dispatch(func, args, kwargs)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('bool') if isinstance(self, SymBool) else np.dtype('int64' if self.t.is_int() else 'float64')

    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def any(self):
        return SymBool(bterm(self))

    def all(self):
        return SymBool(bterm(self))

    def sum(self, *a, **k):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        from . import arrays
        return wrap(arrays.cast_fn(dt)(self.t))


class Sym(_Base):
    __slots__ = ('t', 'dom')

    def __init__(self, t, dom=None):
        self.t = t
        self.dom = dom

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __hash__(self):
        v = const_value(self.t)
        if v is not None:
            return hash(v)
        return hash(self.t)

    def __repr__(self):
        return 'Sym(%s)' % z3.simplify(self.t)

    def __format__(self, spec):
        return repr(self)

    def __round__(self, n=None):
        if n is None or n == 0:
            return Sym(t_round(self.t))
        p = 10 ** n
        return Sym(real(t_round(real(self.t) * p)) / p)

    def __trunc__(self):
        return Sym(t_trunc(self.t))

    def __floor__(self):
        return Sym(t_floor(self.t))

    def __ceil__(self):
        return Sym(t_ceil(self.t))

    def is_integer(self):
        return SymBool(z3.IsInt(real(self.t)))

    def __and__(self, o):
        from . import arrays
        return arrays.elementwise(arrays._and, arrays.lift(self), arrays.lift(o))
    __rand__ = __and__

    def __or__(self, o):
        from . import arrays
        return arrays.elementwise(arrays._or, arrays.lift(self), arrays.lift(o))
    __ror__ = __or__

    def __invert__(self):
        return Sym(-self.t - 1)

    def __lshift__(self, o):
        return Sym(self.t * (2 ** int(o)))

    def __rshift__(self, o):
        return Sym(self.t / (2 ** int(o)))


class SymBool(_Base):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return 'SymBool(%s)' % z3.simplify(self.t)

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def _b(op):
        def f(self, o):
            from . import arrays
            if arrays.is_arraylike(o):
                return arrays.elementwise(op, arrays.lift(self), arrays.lift(o))
            return SymBool(op(self.t, bterm(o)))
        return f
    __and__ = __rand__ = _b(lambda a, b: z3.And(_tb(a), _tb(b)))
    __or__ = __ror__ = _b(lambda a, b: z3.Or(_tb(a), _tb(b)))
    __xor__ = __rxor__ = _b(lambda a, b: z3.Xor(_tb(a), _tb(b)))

    def __eq__(self, o):
        import numpy as np
        if isinstance(o, (SymBool, bool, np.bool_)):
            return SymBool(self.t == bterm(o))
        return _Base.__eq__(self, o)

    def __ne__(self, o):
        import numpy as np
        if isinstance(o, (SymBool, bool, np.bool_)):
            return SymBool(self.t != bterm(o))
        return _Base.__ne__(self, o)


def _tb(t):
    return t if z3.is_bool(t) else t != 0


# formula helpers usable by contracts in both modes
def And(*a):
    a = [bool(x) if isinstance(x, np.bool_) else x for x in a]
    if all(isinstance(x, bool) for x in a):
        return all(a)
    return SymBool(z3.And(*[bterm(x) for x in a]))


def Or(*a):
    a = [bool(x) if isinstance(x, np.bool_) else x for x in a]
    if all(isinstance(x, bool) for x in a):
        return any(a)
    return SymBool(z3.Or(*[bterm(x) for x in a]))


def Not(a):
    if isinstance(a, SymBool):
        return SymBool(z3.Not(a.t))
    return not a


def Implies(a, b):
    if not isinstance(a, SymBool) and not isinstance(b, SymBool):
        return (not a) or bool(b)
    return SymBool(z3.Implies(bterm(a), bterm(b)))


def Ite(c, a, b):
    if isinstance(c, SymBool):
        return wrap(t_ite(c.t, a.t if isinstance(a, (Sym, SymBool)) else (z3.BoolVal(a) if isinstance(a, bool) else term(a)),
                          b.t if isinstance(b, (Sym, SymBool)) else (z3.BoolVal(b) if isinstance(b, bool) else term(b))))
    return a if c else b
