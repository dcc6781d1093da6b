"""Builtins / math / datetime as seen by the /repo modules while they run symbolically."""
import builtins
import datetime as _dt
import math as _math
import numbers
import sys
import types
from fractions import Fraction
import numpy as _np
import z3
from . import terms as T
from .terms import Sym, SymBool, Unsupported, term, bterm, wrap, ctx, const_value
from .arrays import SymArray, Dom, NP, has_sym, lift, IV

EPOCH = _dt.datetime(1970, 1, 1)


# ------------------------------------------------------------------ datetime
def td_term(x):
    if isinstance(x, SymTimedelta):
        return x.s
    if isinstance(x, _dt.timedelta):
        return T.rv(Fraction(x.days * 86400 + x.seconds) + Fraction(x.microseconds, 10**6))
    raise Unsupported('timedelta op with %r' % type(x))


def dt_term(x):
    if isinstance(x, SymDatetime):
        return x.s
    if isinstance(x, _dt.datetime):
        return td_term(x - EPOCH)
    raise Unsupported('datetime op with %r' % type(x))


class SymTimedelta:
    def __init__(self, s):
        self.s = T.real(s)

    def total_seconds(self):
        return Sym(self.s)

    @property
    def seconds(self):
        d = z3.ToInt(self.s / 86400)
        return Sym(z3.ToInt(self.s - 86400 * z3.ToReal(d)))

    @property
    def days(self):
        return Sym(z3.ToInt(self.s / 86400))

    @property
    def microseconds(self):
        return Sym(z3.ToInt((self.s - z3.ToReal(z3.ToInt(self.s))) * 1000000))

    def __add__(self, o):
        if isinstance(o, (SymTimedelta, _dt.timedelta)):
            return SymTimedelta(self.s + td_term(o))
        if isinstance(o, (SymDatetime, _dt.datetime)):
            return SymDatetime(self.s + dt_term(o))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return SymTimedelta(self.s - td_term(o))

    def __rsub__(self, o):
        if isinstance(o, (SymDatetime, _dt.datetime)):
            return SymDatetime(dt_term(o) - self.s)
        return SymTimedelta(td_term(o) - self.s)

    def __mul__(self, o):
        return SymTimedelta(self.s * T.real(term(o)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (SymTimedelta, _dt.timedelta)):
            return Sym(self.s) / Sym(td_term(o))
        return SymTimedelta((Sym(self.s) / o).t)

    def __rtruediv__(self, o):
        return Sym(td_term(o)) / Sym(self.s)

    def __floordiv__(self, o):
        if isinstance(o, (SymTimedelta, _dt.timedelta)):
            return Sym(z3.ToInt(((Sym(self.s)) / Sym(td_term(o))).t))
        raise Unsupported('timedelta // number')

    def __rfloordiv__(self, o):
        return Sym(z3.ToInt(((Sym(td_term(o))) / Sym(self.s)).t))

    def __mod__(self, o):
        return SymTimedelta((Sym(self.s) % Sym(td_term(o))).t)

    def __neg__(self):
        return SymTimedelta(-self.s)

    def __abs__(self):
        return SymTimedelta(T.t_abs(self.s))

    def __bool__(self):
        return ctx().branch(self.s != 0)

    def __repr__(self):
        return 'SymTimedelta(%s)' % z3.simplify(self.s)

    def __hash__(self):
        return hash(self.s)

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self


class SymDatetime:
    def __init__(self, s):
        self.s = T.real(s)

    def __add__(self, o):
        return SymDatetime(self.s + td_term(o))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymTimedelta, _dt.timedelta)):
            return SymDatetime(self.s - td_term(o))
        if isinstance(o, (SymDatetime, _dt.datetime)):
            return SymTimedelta(self.s - dt_term(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, (_dt.datetime,)):
            return SymTimedelta(dt_term(o) - self.s)
        return NotImplemented

    def replace(self, **k):
        if set(k) <= {'microsecond', 'tzinfo'} and k.get('microsecond', 0) == 0:
            if 'microsecond' in k:
                return SymDatetime(z3.ToReal(z3.ToInt(self.s)))
            return self
        raise Unsupported('datetime.replace')

    tzinfo = None

    def isoformat(self, *a, **k):
        return repr(self)

    def __repr__(self):
        return 'SymDatetime(%s)' % z3.simplify(self.s)

    def __hash__(self):
        return hash(self.s)

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('datetime.' + n)


def _cmp(conv, op, types):
    def f(self, o):
        if not builtins.isinstance(o, types):
            return NotImplemented
        return SymBool(op(self.s, conv(o)))
    return f


for _c, _conv, _t in ((SymTimedelta, td_term, (SymTimedelta, _dt.timedelta)),
                      (SymDatetime, dt_term, (SymDatetime, _dt.datetime))):
    for _n, _o in (('lt', T.t_lt), ('le', T.t_le), ('gt', T.t_gt), ('ge', T.t_ge), ('eq', T.t_eq), ('ne', T.t_ne)):
        setattr(_c, '__%s__' % _n, _cmp(_conv, _o, _t))


class _TypeShim(type):
    """type-like stand-in: isinstance/dtype use keep working, calls accept symbolic arguments"""
    def __new__(mcs, real, call, inst, attrs=None):
        d = {'_real': real, '_call': staticmethod(call), '_inst': staticmethod(inst)}
        d.update(attrs or {})
        return super().__new__(mcs, real.__name__, (object,), d)

    def __init__(cls, *a, **k):
        pass

    def __call__(cls, *a, **k):
        return cls._call(*a, **k)

    def __instancecheck__(cls, x):
        return cls._inst(x)

    def __subclasscheck__(cls, x):
        return builtins.issubclass(getattr(x, '_real', x), cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(type.__getattribute__(cls, '_real'), n)


def _int(x=0, *a):
    if isinstance(x, Sym):
        return Sym(T.t_trunc(x.t), dom=x.dom)
    if isinstance(x, SymBool):
        return Sym(term(x))
    if isinstance(x, SymArray):
        return _int(x.item())
    return builtins.int(x, *a)


def _float(x=0.0):
    if isinstance(x, Sym):
        return Sym(T.real(x.t))
    if isinstance(x, SymBool):
        return Sym(T.real(term(x)))
    if isinstance(x, SymArray):
        return _float(x.item())
    return builtins.float(x)


def _bool(x=False):
    if isinstance(x, SymBool):
        return x
    return builtins.bool(x)


sint = _TypeShim(int, _int, lambda x: builtins.isinstance(x, int) or (builtins.isinstance(x, Sym) and x.t.is_int()),
                 {'dtype': _np.dtype(int)})
sfloat = _TypeShim(float, _float, lambda x: builtins.isinstance(x, float) or (builtins.isinstance(x, Sym) and x.t.is_real()),
                   {'dtype': _np.dtype(float)})


def _timedelta(*a, **k):
    if has_sym(a) or has_sym(k):
        names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
        mult = {'days': 86400, 'seconds': 1, 'microseconds': Fraction(1, 10**6), 'milliseconds': Fraction(1, 1000),
                'minutes': 60, 'hours': 3600, 'weeks': 7 * 86400}
        s = z3.RealVal(0)
        for n, v in list(zip(names, a)) + list(k.items()):
            s = s + T.real(term(v)) * T.rv(mult[n])
        return SymTimedelta(s)
    return _dt.timedelta(*a, **k)


stimedelta = _TypeShim(_dt.timedelta, _timedelta, lambda x: builtins.isinstance(x, (_dt.timedelta, SymTimedelta)))
sdatetime = _TypeShim(_dt.datetime, lambda *a, **k: _dt.datetime(*a, **k),
                      lambda x: builtins.isinstance(x, (_dt.datetime, SymDatetime)))


class _DTMod:
    datetime = sdatetime
    timedelta = stimedelta

    def __getattr__(self, n):
        return getattr(_dt, n)


def s_len(x):
    if isinstance(x, SymArray):
        if not x.dims:
            raise TypeError('len() of unsized object')
        d = x.dims[0]
        if isinstance(d, int):
            return d
        return Sym(d.length(), dom=d)
    if hasattr(x, '_sym_len_'):
        return x._sym_len_()
    m = getattr(type(x), '__len__', None)
    if isinstance(m, types.FunctionType):
        return m(x)
    return builtins.len(x)


def s_isinstance(x, cls):
    if isinstance(cls, tuple):
        return builtins.any(s_isinstance(x, c) for c in cls)
    if isinstance(x, (Sym, SymBool)):
        real = getattr(cls, '_real', cls)
        if real in (int, numbers.Integral, _np.integer):
            return isinstance(x, SymBool) or x.t.is_int()
        if real in (float, _np.floating, _np.float64):
            return isinstance(x, Sym) and x.t.is_real()
        if real in (numbers.Number, numbers.Real, numbers.Rational, numbers.Complex, object, _np.number):
            return True
        if real in (bool, _np.bool_):
            return isinstance(x, SymBool)
        return builtins.isinstance(x, cls)
    if isinstance(x, SymArray):
        real = getattr(cls, '_real', cls)
        return real in (_np.ndarray, object, SymArray)
    if isinstance(x, SymDatetime):
        real = getattr(cls, '_real', cls)
        return real in (_dt.datetime, _dt.date, SymDatetime, object)
    if isinstance(x, SymTimedelta):
        real = getattr(cls, '_real', cls)
        return real in (_dt.timedelta, SymTimedelta, object)
    return builtins.isinstance(x, cls)


def _minmax(kind):
    op = T.t_min if kind == 'min' else T.t_max
    real = getattr(builtins, kind)

    def f(*a, **k):
        vals = list(a[0]) if len(a) == 1 and not isinstance(a[0], SymArray) else a
        if len(a) == 1 and isinstance(a[0], SymArray):
            return getattr(a[0], kind)()
        if 'key' in k or not builtins.any(isinstance(v, (Sym, SymDatetime, SymTimedelta)) for v in vals):
            return real(vals, **k) if len(a) == 1 else real(*a, **k)
        r = None
        for v in vals:
            if r is None:
                r = v
                continue
            if isinstance(v, (SymDatetime, _dt.datetime)) or isinstance(r, SymDatetime):
                r = SymDatetime(op(dt_term(r), dt_term(v)))
            elif isinstance(v, (SymTimedelta, _dt.timedelta)) or isinstance(r, SymTimedelta):
                r = SymTimedelta(op(td_term(r), td_term(v)))
            else:
                r = wrap(op(term(r), term(v)))
        return r
    return f


s_min, s_max = _minmax('min'), _minmax('max')


def s_sum(x, start=0):
    if isinstance(x, SymArray):
        return x.sum(axis=0) if x.ndim > 1 else x.sum()
    r = start
    for v in x:
        r = r + v
    return r


def s_round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def s_range(*a):
    if has_sym(a):
        from .loops import SymRange
        vals = [const_value(term(v)) for v in a]
        if builtins.all(v is not None for v in vals):
            return builtins.range(*[int(v) for v in vals])
        return SymRange(*a)
    return builtins.range(*a)


def s_any(x):
    if isinstance(x, SymArray):
        return x.any(axis=None) if x.ndim == 1 else builtins.any(iter(x))
    return builtins.any(x)


def s_all(x):
    if isinstance(x, SymArray):
        return x.all(axis=None) if x.ndim == 1 else builtins.all(iter(x))
    return builtins.all(x)


class _Math:
    _m = {'exp': T.t_exp, 'log': T.t_log, 'sqrt': T.t_sqrt, 'sin': T.t_sin, 'cos': T.t_cos, 'tan': T.t_tan,
          'floor': T.t_floor, 'ceil': T.t_ceil, 'trunc': T.t_trunc, 'fabs': T.t_abs, 'tanh': T.t_tanh,
          'radians': lambda a: T.real(a) * T.rv(T.PI / 180), 'degrees': lambda a: T.real(a) * T.rv(180 / T.PI),
          'log10': lambda x: T.t_log(x) / T.rv(_math.log(10)),
          'acos': T.t_unint('arccos'), 'asin': T.t_unint('arcsin'), 'cosh': T.t_unint('cosh'), 'sinh': T.t_unint('sinh')}
    _m2 = {'pow': T.t_pow, 'atan2': T.t_arctan2, 'hypot': lambda a, b: T.t_sqrt(T.real(a) * T.real(a) + T.real(b) * T.real(b)),
           'fmod': lambda a, b: T.t_sub(a, T.t_mul(b, T.t_trunc(T.t_div(a, b))))}

    def __getattr__(self, n):
        real = getattr(_math, n)
        if n in self._m:
            f = self._m[n]
            return lambda x: wrap(f(term(x))) if has_sym(x) else real(x)
        if n in self._m2:
            f = self._m2[n]
            return lambda x, y: wrap(f(term(x), term(y))) if has_sym((x, y)) else real(x, y)
        if n in ('isnan', 'isinf'):
            return lambda x: False if has_sym(x) else real(x)
        if callable(real):
            def g(*a):
                if has_sym(a):
                    raise Unsupported('math.' + n)
                return real(*a)
            return g
        return real


MATH = _Math()

def _loops():
    from . import loops
    return loops


BUILTINS = {'len': s_len, 'isinstance': s_isinstance, 'int': sint, 'float': sfloat, 'bool': None, 'min': s_min,
            'max': s_max, 'sum': s_sum, 'round': s_round, 'range': s_range, 'any': s_any, 'all': s_all,
            'zip': lambda *a, **k: _loops().s_zip(*a, **k), 'enumerate': lambda x, start=0: _loops().s_enumerate(x, start)}
del BUILTINS['bool']


class Patcher:
    """Installs the shims in module globals and undoes it."""

    def __init__(self):
        self.undo = []

    def set(self, obj, name, val):
        if isinstance(obj, dict):
            d = obj
            old = d.get(name, Patcher)
            d[name] = val
            self.undo.append(('d', d, name, old))
            return
        d = getattr(obj, '__dict__', None)
        if d is not None and name in d:
            old = d[name]
        else:
            old = Patcher
        setattr(obj, name, val)
        self.undo.append(('a', obj, name, old))

    def restore(self):
        for kind, o, n, old in reversed(self.undo):
            if kind == 'd':
                if old is Patcher:
                    o.pop(n, None)
                else:
                    o[n] = old
            else:
                if old is Patcher:
                    try:
                        delattr(o, n)
                    except AttributeError:
                        pass
                else:
                    setattr(o, n, old)
        self.undo = []


def patch_modules(P, prefix='gnome'):
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == prefix or name.startswith(prefix + '.')):
            continue
        f = getattr(mod, '__file__', '') or ''
        if not f.endswith('.py'):
            continue
        patch_globals(P, mod.__dict__)


def patch_globals(P, g):
    for k, v in list(g.items()):
        if v is _np:
            P.set(g, k, NP)
        elif v is _np.random:
            P.set(g, k, NP.random)
        elif v is _math:
            P.set(g, k, MATH)
        elif v is _dt:
            P.set(g, k, _DTMod())
        elif v is _dt.datetime:
            P.set(g, k, sdatetime)
        elif v is _dt.timedelta:
            P.set(g, k, stimedelta)
        elif builtins.callable(v) and getattr(v, '__module__', None) == 'math' and getattr(_math, getattr(v, '__name__', ''), None) is v:
            P.set(g, k, getattr(MATH, v.__name__))
    for k, v in BUILTINS.items():
        if k not in g:
            P.set(g, k, v)
