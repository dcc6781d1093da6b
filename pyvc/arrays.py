"""Symbolic numpy arrays of unbounded length.

A SymArray is a (view on a) buffer whose content is a function index -> term.  An axis is either a
concrete int or a `Dom`: the index set {0..n-1} of a Space of symbolic size, optionally restricted by
a boolean mask (result of x[mask]; indices stay those of the parent).  numpy's ufunc / function
protocols dispatch here, so numpy code of /repo runs unchanged."""
import builtins
import math
import numpy as _np
import z3
from . import terms as T
from .terms import Sym, SymBool, Unsupported, term, bterm, wrap, ctx, const_value
from .engine import Space

IV = z3.IntVal


class Dom:
    __slots__ = ('space', 'pred', '_len')

    def __init__(self, space, pred=None):
        self.space, self.pred, self._len = space, pred, None

    def inside(self, i):
        c = z3.And(i >= 0, i < self.space.n)
        if self.pred is not None:
            c = z3.And(c, self.pred(i))
        return c

    def length(self):
        if self.pred is None:
            return self.space.n
        if self._len is None:
            c = ctx()
            k = c.int_const('count')
            pred, sp = self.pred, self.space
            c.keep.append(self)
            sk = sp.register(c.int_const('wit'))
            c.add(z3.And(k >= 0, k <= sp.n))
            c.add(z3.Implies(k > 0, z3.And(sk >= 0, sk < sp.n, pred(sk))))
            c.universal(sp, lambda i: z3.Implies(k == 0, z3.Not(pred(i))))
            c.sums[k.get_id()] = (k, (self,), lambda ix: z3.If(pred(ix[0]), IV(1), IV(0)), True)
            self._len = k
        return self._len


def dlen(d):
    return IV(d) if isinstance(d, int) else d.length()


def same_dom(a, b):
    if a is b:
        return True
    if a.pred is None and b.pred is None:
        if a.space is b.space:
            return True
        x = z3.simplify(a.space.n == b.space.n)
        if z3.is_true(x):
            return True
        return ctx().check_sat(z3.Not(x)) == z3.unsat
    if a.space is not b.space and not z3.is_true(z3.simplify(a.space.n == b.space.n)):
        return False
    k = a.space.gen(ctx())
    pa = a.pred(k) if a.pred else z3.BoolVal(True)
    pb = b.pred(k) if b.pred else z3.BoolVal(True)
    pa, pb = z3.simplify(pa), z3.simplify(pb)
    if pa.eq(pb):
        return True
    return ctx().check_sat(z3.And(k >= 0, k < a.space.n), pa != pb) == z3.unsat


class Buffer:
    __slots__ = ('dims', 'fn', 'dtype')

    def __init__(self, dims, fn, dtype):
        self.dims, self.fn, self.dtype = tuple(dims), fn, _np.dtype(dtype)


def memo(fn):
    cache = {}

    def g(ix, raw=False):
        key = tuple(i.get_id() for i in ix)
        r = cache.get(key)
        if r is None:
            v = fn(ix)
            cache[key] = (v, ix)
            return v
        return r[0]
    return g


def cast_fn(dtype):
    dt = _np.dtype(dtype)
    if dt.kind == 'b':
        return lambda t: t if z3.is_bool(t) else t != 0
    if dt.kind in 'iu':
        return lambda t: z3.If(t, IV(1), IV(0)) if z3.is_bool(t) else T.t_trunc(t)
    if dt.kind == 'f':
        return lambda t: T.real(z3.If(t, IV(1), IV(0)) if z3.is_bool(t) else t)
    return lambda t: t


def sort_dtype(t):
    if z3.is_bool(t):
        return _np.dtype(bool)
    return _np.dtype('int64') if t.is_int() else _np.dtype('float64')


class SymArray:
    __array_priority__ = 1e7

    def __init__(self, buf, dims=None, spec=None):
        self.buf = buf
        self.dims = tuple(buf.dims if dims is None else dims)
        self.spec = spec

    # ---- construction
    @classmethod
    def make(cls, dims, fn, dtype):
        return cls(Buffer(dims, memo(fn), dtype))

    # ---- raw access
    def _bidx(self, ix):
        if self.spec is None:
            return tuple(ix)
        out = []
        for s in self.spec:
            if s[0] == 'fix':
                out.append(s[1])
            elif s[0] == 'ax':
                t = ix[s[1]]
                out.append(t if s[2] is None else z3.simplify(t + s[2]))
            elif s[0] == 'sel':
                v = const_value(ix[s[1]])
                if v is None:
                    r = IV(s[2][-1])
                    for k in range(len(s[2]) - 2, -1, -1):
                        r = z3.If(ix[s[1]] == k, IV(s[2][k]), r)
                    out.append(r)
                else:
                    out.append(IV(s[2][int(v)]))
        return tuple(out)

    def at(self, ix):
        return self.buf.fn(self._bidx(ix))

    def snapshot(self):
        fn = self.buf.fn
        if self.spec is None:
            return fn
        me = self
        return lambda ix: fn(me._bidx(ix))

    def store(self, cond, val):
        """x[ix] = val(ix) where cond(ix)"""
        old = self.buf.fn
        cast = cast_fn(self.buf.dtype)
        spec, dims = self.spec, self.dims
        if spec is None:
            def fn(ix):
                c = z3.simplify(cond(ix))
                if z3.is_true(c):
                    return cast(val(ix))
                if z3.is_false(c):
                    return old(ix)
                return T.t_ite(c, cast(val(ix)), old(ix))
        else:
            def fn(bix):
                ix = [IV(0)] * len(dims)
                cs = []
                for b, s in zip(bix, spec):
                    if s[0] == 'fix':
                        cs.append(b == s[1])
                    elif s[0] == 'ax':
                        o = s[1]
                        ix[o] = b if s[2] is None else z3.simplify(b - s[2])
                        if s[2] is not None or s[3]:
                            cs.append(z3.And(ix[o] >= 0, ix[o] < dlen_root(dims[o])))
                    else:
                        v = const_value(b)
                        if v is None:
                            raise Unsupported('store through strided view at symbolic index')
                        if int(v) in s[2]:
                            ix[s[1]] = IV(s[2].index(int(v)))
                        else:
                            cs.append(z3.BoolVal(False))
                ix = tuple(ix)
                c = z3.simplify(z3.And(*cs)) if cs else z3.BoolVal(True)
                if z3.is_false(c):
                    return old(bix)
                c = z3.simplify(z3.And(c, cond(ix)))
                if z3.is_false(c):
                    return old(bix)
                if z3.is_true(c):
                    return cast(val(ix))
                return T.t_ite(c, cast(val(ix)), old(bix))
        self.buf.fn = memo(fn)

    # ---- attributes
    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def shape(self):
        return tuple(d if isinstance(d, int) else Sym(d.length(), dom=d) for d in self.dims)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s * r
        return r

    @property
    def T(self):
        return transpose(self)

    def __len__(self):
        if not self.dims:
            raise TypeError('len() of unsized object')
        if isinstance(self.dims[0], int):
            return self.dims[0]
        v = const_value(self.dims[0].length())
        if v is None:
            v = ctx().unique_value(self.dims[0].length())
        if v is None:
            raise Unsupported('builtin len() of an array of symbolic length')
        return v

    def __iter__(self):
        if isinstance(self.dims[0], int):
            return iter([self[k] for k in range(self.dims[0])])
        v = const_value(self.dims[0].length())
        if v is None:
            v = ctx().unique_value(self.dims[0].length())
        if v is not None:
            return iter([self[k] for k in range(v)])
        from .loops import find_contract, start
        con = find_contract(2)
        return start(con, self.dims[0], lambda k: self[k])

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self.dims):
            return bool(wrap(self.at(tuple(IV(0) for _ in self.dims))))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __repr__(self):
        return 'SymArray(%s,%s)' % (self.dims, self.dtype)

    def __hash__(self):
        return id(self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, m):
        return self.copy()

    # ---- methods
    def copy(self, *a, **k):
        return SymArray(Buffer(self.dims, self.snapshot(), self.dtype))

    def astype(self, dt, **k):
        c = cast_fn(dt)
        f = self.snapshot()
        return SymArray.make(self.dims, lambda ix: c(f(ix)), dt)

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, **k):
        return reduce_('sum', self, axis)

    def any(self, axis=None, **k):
        return reduce_('any', self, axis)

    def all(self, axis=None, **k):
        return reduce_('all', self, axis)

    def max(self, axis=None, **k):
        return reduce_('max', self, axis)

    def min(self, axis=None, **k):
        return reduce_('min', self, axis)

    def prod(self, axis=None, **k):
        return reduce_('prod', self, axis)

    def mean(self, axis=None, **k):
        s = reduce_('sum', self, axis)
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def nonzero(self):
        return IMPL['nonzero'](self)

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = elementwise(T.t_max, lift(r), lift(lo))
        if hi is not None:
            r = elementwise(T.t_min, lift(r), lift(hi))
        return r

    def item(self, *a):
        if not a and all(isinstance(d, int) and d == 1 for d in self.dims):
            return wrap(self.at(tuple(IV(0) for _ in self.dims)))
        return self[a]

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self):
        return reshape(self, (-1,))
    flatten = ravel

    def tolist(self):
        if self.ndim == 1 and isinstance(self.dims[0], int):
            return [self[k] for k in range(self.dims[0])]
        raise Unsupported('tolist')

    def squeeze(self, *a):
        if self.ndim == 2 and self.dims[0] == 1:
            return self[0]
        if self.ndim == 2 and self.dims[1] == 1:
            return self[:, 0]
        return self

    def view(self, *a):
        if not a:
            return SymArray(self.buf, self.dims, self.spec)
        raise Unsupported('dtype view')

    def cumsum(self, *a, **k):
        if self.ndim == 1 and isinstance(self.dims[0], int):
            out, acc = [], None
            for k_ in range(self.dims[0]):
                acc = self[k_] if acc is None else acc + self[k_]
                out.append(acc)
            return from_list(out)
        raise Unsupported('cumsum over symbolic length')

    def resize(self, *a, **k):
        raise Unsupported('ndarray.resize')

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ---- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a symbolic array to a concrete ndarray')

    def __float__(self):
        if all(isinstance(d, int) and d == 1 for d in self.dims):
            return float(self.item())
        raise TypeError('only length-1 arrays can be converted')


def dlen_root(d):
    return IV(d) if isinstance(d, int) else d.space.n


def _binop(op, swap=False):
    def f(self, o):
        if not (is_arraylike(o) or T._scalar_ok(o)):
            return NotImplemented
        a, b = self, lift(o)
        return elementwise(op, b, a) if swap else elementwise(op, a, b)
    return f


def _iop(op):
    def f(self, o):
        r = elementwise(op, self, lift(o))
        if self.dtype.kind in 'iu' and r.dtype.kind == 'f':
            raise TypeError('UFuncTypeError: cannot cast ufunc output from float64 to integer')
        self[...] = r
        return self
    return f


def num(f):
    def g(*a):
        return f(*[z3.If(x, IV(1), IV(0)) if z3.is_bool(x) else x for x in a])
    g.__name__ = getattr(f, '__name__', 'op')
    return g


def _or(a, b):
    if z3.is_bool(a) and z3.is_bool(b):
        return z3.Or(a, b)
    a, b = num(lambda x: x)(a), num(lambda x: x)(b)
    return a + b - _and(a, b)


def _and(a, b):
    """bitwise and; on integers one side must be a non-negative constant (a >= 0 assumed two's complement)"""
    if z3.is_bool(a) and z3.is_bool(b):
        return z3.And(a, b)
    a, b = num(lambda x: x)(a), num(lambda x: x)(b)
    v = const_value(b)
    if v is None:
        a, b = b, a
        v = const_value(b)
    if z3.is_const(a) and str(a) == 'probe_i':
        return a
    if v is None or v < 0:
        raise Unsupported('bitwise and on symbolic integers')
    r = IV(0)
    k = 0
    while (1 << k) <= v:
        if v & (1 << k):
            r = r + ((a / (1 << k)) % 2) * (1 << k)
        k += 1
    return z3.simplify(r)


def _xor(a, b):
    if z3.is_bool(a) and z3.is_bool(b):
        return z3.Xor(a, b)
    raise Unsupported('bitwise xor on ints')


def _inv(a):
    return z3.Not(a) if z3.is_bool(a) else -a - 1


def _eq(a, b):
    if z3.is_bool(a) and z3.is_bool(b):
        return a == b
    return num(T.t_eq)(a, b)


def _ne(a, b):
    if z3.is_bool(a) and z3.is_bool(b):
        return a != b
    return num(T.t_ne)(a, b)


_OPS = {'add': num(T.t_add), 'sub': num(T.t_sub), 'mul': num(T.t_mul), 'truediv': num(T.t_div),
        'floordiv': num(T.t_floordiv), 'mod': num(T.t_mod), 'pow': num(T.t_pow),
        'lt': num(T.t_lt), 'le': num(T.t_le), 'gt': num(T.t_gt), 'ge': num(T.t_ge), 'eq': _eq, 'ne': _ne,
        'and': _and, 'or': _or, 'xor': _xor}
for _n, _f in _OPS.items():
    setattr(SymArray, '__%s__' % _n, _binop(_f))
    if _n not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        setattr(SymArray, '__r%s__' % _n, _binop(_f, True))
        setattr(SymArray, '__i%s__' % _n, _iop(_f))
SymArray.__neg__ = lambda s: elementwise(num(lambda a: -a), s)
SymArray.__pos__ = lambda s: s
SymArray.__abs__ = lambda s: elementwise(num(T.t_abs), s)
SymArray.__invert__ = lambda s: elementwise(_inv, s)


def is_arraylike(o):
    return isinstance(o, (SymArray, _np.ndarray, list, tuple))


def has_sym(o, depth=3):
    if isinstance(o, (Sym, SymBool, SymArray)):
        return True
    if depth and isinstance(o, (list, tuple)):
        return builtins.any(has_sym(x, depth - 1) for x in o)
    if depth and isinstance(o, dict):
        return builtins.any(has_sym(x, depth - 1) for x in o.values())
    return isinstance(o, slice) and has_sym((o.start, o.stop, o.step))


def pyterm(v):
    """scalar (python/np/Sym/SymBool) -> term keeping booleans"""
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, (bool, _np.bool_)):
        return z3.BoolVal(bool(v))
    return term(v)


def has_sum(t, memo_):
    k = t.get_id()
    if k not in memo_:
        memo_[k] = k in ctx().sums or builtins.any([has_sum(x, memo_) for x in t.children()])
    return memo_[k]


def name_scalars(t):
    """give a name (constant with a defining equation) to every nonlinear scalar built from array sums, so that
    sums of arrays multiplied by it stay linear in the sums"""
    c = ctx()
    if not c.sums or not z3.is_app(t) or t.num_args() == 0:
        return t
    m = {}
    if not has_sum(t, m):
        return t
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL) or (
            k == z3.Z3_OP_MUL and builtins.sum(1 for x in t.children() if const_value(x) is None) == 1):
        ch = [name_scalars(x) for x in t.children()]
        return t.decl()(*ch) if builtins.any(not a.eq(b) for a, b in zip(ch, t.children())) else t
    if t.get_id() in c.named:
        return c.named[t.get_id()][1]
    compare_quotients(t)
    v = c.int_const('let') if t.is_int() else c.real_const('let')
    c.keep.append(t)
    c.named[t.get_id()] = (t, v)
    c.add(v == t)
    if z3.is_app_of(t, z3.Z3_OP_DIV):
        c.add(z3.Implies(t.arg(1) != 0, v * t.arg(1) == t.arg(0)))
    return v


def compare_quotients(t):
    """monotonicity of sums, for every quotient sum/sum inside t: pointwise comparison of the summands"""
    c = ctx()
    seen = set()

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_DIV) and x.arg(0).get_id() in c.sums and x.arg(1).get_id() in c.sums:
            compare_sums(x.arg(0), x.arg(1))
        for ch in x.children():
            walk(ch)
    walk(t)


def compare_sums(s, s2):
    c = ctx()
    (_, da, fa, _x), (_, db, fb, _y) = c.sums[s.get_id()], c.sums[s2.get_id()]
    if len(da) != 1 or len(db) != 1 or da[0].space is not db[0].space or ('cmp', s.get_id(), s2.get_id()) in c.facts:
        return
    c.facts[('cmp', s.get_id(), s2.get_id())] = True
    d, d2 = da[0], db[0]
    k = d.space.gen(c)
    mine = z3.If(d.inside(k), T.real(fa((k,))), z3.RealVal(0))
    h = z3.If(d2.inside(k), T.real(fb((k,))), z3.RealVal(0))
    if c.check_sat(k >= 0, k < d.space.n, mine > h) == z3.unsat:
        c.add(T.real(s) <= T.real(s2))
    elif c.check_sat(k >= 0, k < d.space.n, mine < h) == z3.unsat:
        c.add(T.real(s) >= T.real(s2))


def free_of(t, vs, memo_):
    k = t.get_id()
    if k not in memo_:
        memo_[k] = not builtins.any(t.eq(v) for v in vs) and builtins.all([free_of(x, vs, memo_) for x in t.children()])
    return memo_[k]


def pull_factor(t, vs):
    """t == coef * rest with coef free of the index variables vs (None if nothing to pull)"""
    m = {}

    def split(x):
        if free_of(x, vs, m):
            return [x], []
        if z3.is_app_of(x, z3.Z3_OP_MUL):
            a, b = [], []
            for ch in x.children():
                a2, b2 = split(ch)
                a += a2
                b += b2
            return a, b
        if z3.is_app_of(x, z3.Z3_OP_DIV) and free_of(x.arg(1), vs, m):
            a, b = split(x.arg(0))
            return a + [z3.RealVal(1) / x.arg(1)], b
        return [], [x]
    if not t.is_real():
        return None
    a, b = split(t)
    if not a or not b:
        return None
    prod = lambda l: l[0] if len(l) == 1 else z3.Product(*l)
    return prod(a), prod(b)


def lift(o):
    """anything -> SymArray"""
    if isinstance(o, SymArray):
        return o
    if isinstance(o, (Sym, SymBool)):
        t = o.t
        if not z3.is_bool(t):
            t = name_scalars(t)
        return SymArray(Buffer((), lambda ix, raw=False: t, sort_dtype(t)))
    if isinstance(o, (list, tuple)):
        return from_list(o)
    a = _np.asarray(o)
    if a.dtype == object:
        return from_list(a.tolist())
    if a.dtype.kind not in 'bifu':
        raise Unsupported('array of dtype %s' % a.dtype)
    if a.ndim == 0:
        t = pyterm(a.item())
        return SymArray(Buffer((), lambda ix, raw=False: t, a.dtype))
    flat = a

    def fn(ix):
        vs = [const_value(i) for i in ix]
        if builtins.all(v is not None for v in vs):
            vs = [int(v) for v in vs]
            if builtins.any(v < 0 or v >= n for v, n in zip(vs, flat.shape)):
                return pyterm(flat.dtype.type(0).item())
            x = flat[tuple(vs)].item()
            if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
                return z3.Real('nonfinite_const')
            return pyterm(x)
        k = [j for j, v in enumerate(vs) if v is None][0]
        r = None
        for q in range(flat.shape[k] - 1, -1, -1):
            sub = fn(tuple(IV(q) if j == k else ix[j] for j in range(len(ix))))
            r = sub if r is None else T.t_ite(ix[k] == q, sub, r)
        if r is None:
            return pyterm(flat.dtype.type(0).item())
        return r
    return SymArray.make(tuple(int(n) for n in a.shape), fn, a.dtype)


def from_list(o, dtype=None):
    parts = [lift(x) for x in o]
    if not parts:
        return lift(_np.array([], dtype=dtype or float))
    return stack0(parts, dtype)


def result_dtype(parts):
    ks = [p.dtype for p in parts]
    return _np.result_type(*ks)


def stack0(parts, dtype=None):
    nd = parts[0].ndim
    parts = [p for p in parts]
    dims = broadcast_dims([p.dims for p in parts])
    dt = dtype or result_dtype(parts)
    c = cast_fn(dt)
    fns = [p.snapshot() for p in parts]

    def fn(ix):
        v = const_value(ix[0])
        if v is not None and 0 <= v < len(fns):
            return c(fns[int(v)](ix[1:]))
        r = c(fns[-1](ix[1:]))
        for k in range(len(fns) - 2, -1, -1):
            r = T.t_ite(ix[0] == k, c(fns[k](ix[1:])), r)
        return r
    return SymArray.make((len(parts),) + tuple(dims), fn, dt)


def broadcast_dims(dl):
    nd = builtins.max([len(d) for d in dl] or [0])
    out = []
    for k in range(nd):
        cur = 1
        for d in dl:
            j = k - (nd - len(d))
            if j < 0:
                continue
            x = d[j]
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = x
            elif isinstance(cur, int) and isinstance(x, int):
                if cur != x:
                    raise ValueError('operands could not be broadcast together')
            elif isinstance(cur, Dom) and isinstance(x, Dom):
                if not same_dom(cur, x):
                    raise Unsupported('broadcast of axes not provably equal')
            else:
                d_, n_ = (cur, x) if isinstance(cur, Dom) else (x, cur)
                if ctx().check_sat(d_.length() != n_) == z3.unsat and d_.pred is None:
                    cur = n_
                else:
                    raise Unsupported('broadcast of symbolic with concrete axis')
        out.append(cur)
    return tuple(out)


def bcast_get(a, dims):
    """index function of a against the broadcast dims"""
    f = a.snapshot()
    off = len(dims) - a.ndim
    ad = a.dims

    def g(ix):
        sub = []
        for j, d in enumerate(ad):
            sub.append(IV(0) if (isinstance(d, int) and d == 1) else ix[j + off])
        return f(tuple(sub))
    return g


def elementwise(op, *arrs, dtype=None):
    arrs = [lift(a) for a in arrs]
    dims = broadcast_dims([a.dims for a in arrs])
    gs = [bcast_get(a, dims) for a in arrs]

    def fn(ix):
        return op(*[g(ix) for g in gs])
    if not dims:
        return wrap(fn(()))
    if dtype is None:
        probe = op(*[_probe(a.dtype) for a in arrs])
        dtype = sort_dtype(probe)
    return SymArray.make(dims, fn, dtype)


def _probe(dt):
    k = dt.kind
    return z3.Bool('probe_b') if k == 'b' else z3.Int('probe_i') if k in 'iu' else z3.Real('probe_r')


# ------------------------------------------------------------------ indexing
def _as_index(v, d):
    """python/Sym index on axis d -> term (bounds-checked, negative handled)"""
    root = getattr(v, 'root', None)
    if root is not None and isinstance(d, Dom) and d.space is root[0].space and (d is root[0] or same_dom(d, root[0])):
        return root[1]
    n = dlen(d)
    if isinstance(d, Dom) and d.pred is not None:
        tv = const_value(term(v))
        if tv is None or int(tv) not in (0, -1):
            raise Unsupported('integer index into a masked array')
        # the first (or last) selected element
        c = ctx()
        if c.branch(n == 0):
            raise IndexError('index %d is out of bounds for axis 0 with size 0' % int(tv))
        j = d.space.register(c.int_const('first' if int(tv) == 0 else 'last'))
        c.add(d.inside(j))
        c.universal(d.space, (lambda i: z3.Implies(d.inside(i), i >= j)) if int(tv) == 0 else (lambda i: z3.Implies(d.inside(i), i <= j)))
        return j
    t = term(v)
    if not t.is_int():
        raise IndexError('non-integer index')
    tv = const_value(t)
    if tv is not None:
        t2 = IV(int(tv)) if tv >= 0 else z3.simplify(n + int(tv))
    else:
        neg = ctx().check_sat(t < 0)
        t2 = t if neg == z3.unsat else z3.If(t < 0, t + n, t)
    ok = z3.simplify(z3.And(t2 >= 0, t2 < n))
    if not z3.is_true(ok):
        if not ctx().branch(ok):
            raise IndexError('index out of bounds')
    return t2


def _slice_bounds(s, d):
    """-> (start term, length dim) for step 1"""
    n = dlen(d)
    if isinstance(d, Dom) and d.pred is not None:
        if s.start is None and s.stop is None:
            return None
        raise Unsupported('slice of a masked array')

    def norm(v, default):
        if v is None:
            return default
        t = term(v)
        tv = const_value(t)
        nv = const_value(n)
        if tv is not None and nv is not None:
            tv = int(tv)
            return IV(builtins.max(0, builtins.min(int(nv), tv + int(nv) if tv < 0 else tv)))
        c = ctx()
        if tv is None or tv < 0:
            st = c.check_sat(t < 0) if tv is None else z3.sat
            if st != z3.unsat:
                sn = c.check_sat(t >= 0) if tv is None else z3.unsat
                t = t + n if sn == z3.unsat else z3.If(t < 0, t + n, t)
        if c.check_sat(t < 0) != z3.unsat:
            t = z3.If(t < 0, IV(0), t)
        if c.check_sat(t > n) != z3.unsat:
            t = z3.If(t > n, n, t)
        return z3.simplify(t)
    a, b = norm(s.start, IV(0)), norm(s.stop, n)
    ln = z3.simplify(b - a)
    if const_value(ln) is None and ctx().check_sat(ln < 0) != z3.unsat:
        ln = z3.simplify(z3.If(ln < 0, IV(0), ln))
    return a, ln


def _is_mask(k):
    return (isinstance(k, SymArray) and k.dtype.kind == 'b') or (isinstance(k, _np.ndarray) and k.dtype == bool)


def _is_idxarr(k):
    return (isinstance(k, SymArray) and k.dtype.kind in 'iu' and k.ndim >= 1) or \
        (isinstance(k, _np.ndarray) and k.dtype.kind in 'iu' and k.ndim >= 1) or \
        (isinstance(k, list) and len(k) > 0)


def _norm_key(a, key):
    if isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], SymArray):
        key = key[0]
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    if builtins.any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        used = builtins.sum(0 if k is None or k is Ellipsis else (k.ndim if _is_mask(k) else 1) for k in key)
        key[p:p + 1] = [slice(None)] * (a.ndim - used)
    used = builtins.sum(0 if k is None else (k.ndim if _is_mask(k) else 1) for k in key)
    key += [slice(None)] * (a.ndim - used)
    return key


def basic_view(a, key):
    """ints / slices / newaxis only -> view"""
    spec0 = a.spec if a.spec is not None else [('ax', i, None, False) for i in range(a.ndim)]
    repl = {}
    dims = []
    ax = 0
    for k in key:
        if k is None:
            dims.append(1)
            continue
        d = a.dims[ax]
        if isinstance(k, slice):
            step = k.step
            if step is not None and has_sym(step):
                step = term(step)
                step = const_value(step)
            if step not in (None, 1):
                if not isinstance(d, int):
                    raise Unsupported('strided slice of a symbolic axis')
                sel = list(range(d))[k]
                repl[ax] = ('sel', len(dims), sel)
                dims.append(len(sel))
            elif k.start is None and k.stop is None:
                repl[ax] = ('ax', len(dims), None, False)
                dims.append(d)
            else:
                b = _slice_bounds(k, d)
                start, ln = b
                lv, sv = const_value(ln), const_value(start)
                cut = True
                if lv is not None:
                    nd = int(lv)
                elif isinstance(d, Dom) and sv == 0 and z3.is_true(z3.simplify(ln == d.space.n)):
                    nd, cut = d, False
                else:
                    links = []
                    if isinstance(d, Dom):
                        st_ = start
                        links = [(d.space, (lambda t, st_=st_: t - st_))]
                    sp = ctx().space(ln, 'slice', links)
                    if isinstance(d, Dom):
                        pass
                    nd = Dom(sp)
                repl[ax] = ('ax', len(dims), None if sv == 0 else start, cut and not (isinstance(d, int) and nd == d))
                dims.append(nd)
        else:
            repl[ax] = ('fix', _as_index(k, d))
        ax += 1
    spec = []
    for s in spec0:
        if s[0] == 'fix':
            spec.append(s)
            continue
        r = repl[s[1]]
        if s[0] == 'sel':
            if r[0] == 'fix':
                v = const_value(r[1])
                spec.append(('fix', IV(s[2][int(v)])))
            elif r[0] == 'ax' and r[2] is None and not r[3]:
                spec.append(('sel', r[1], s[2]))
            else:
                lst = s[2]
                o = int(const_value(r[2])) if r[0] == 'ax' and r[2] is not None else 0
                if r[0] == 'sel':
                    spec.append(('sel', r[1], [lst[q] for q in r[2]]))
                else:
                    spec.append(('sel', r[1], lst[o:o + dims[r[1]]]))
            continue
        off = s[2]
        if r[0] == 'fix':
            spec.append(('fix', r[1] if off is None else z3.simplify(r[1] + off)))
        elif r[0] == 'ax':
            o2 = r[2]
            o = off if o2 is None else (o2 if off is None else z3.simplify(off + o2))
            spec.append(('ax', r[1], o, s[3] or r[3]))
        else:
            o = 0 if off is None else int(const_value(off))
            spec.append(('sel', r[1], [q + o for q in r[2]]))
    return SymArray(a.buf, dims, spec)


def getitem(a, key):
    if isinstance(key, _np.ndarray) and key.dtype == bool:
        key = lift(key)
    key = _norm_key(a, key)
    if not builtins.any(_is_mask(k) or _is_idxarr(k) for k in key):
        v = basic_view(a, key)
        if not v.dims:
            return wrap(v.at(()))
        return v
    adv = [k for k in key if _is_mask(k) or _is_idxarr(k)]
    if len(adv) == 1 and _is_mask(adv[0]):
        m = lift(adv[0])
        if m.ndim == 2 and a.ndim == 2:
            return FlatMasked(a.snapshot(), broadcast_dims([a.dims, m.dims]), m.snapshot(), a.dtype)
        if m.ndim != 1:
            raise Unsupported('n-d boolean mask')
        p = [i for i, k in enumerate(key) if k is adv[0]][0]
        v = basic_view(a, [slice(None) if k is adv[0] else k for k in key])
        # position of the masked axis in the view
        q = builtins.sum(1 for k in key[:p] if k is None or isinstance(k, slice))
        return compress(v, m, q)
    if len(adv) == 1:
        ia = lift(adv[0])
        p = [i for i, k in enumerate(key) if k is adv[0]][0]
        v = basic_view(a, [slice(None) if k is adv[0] else k for k in key])
        q = builtins.sum(1 for k in key[:p] if k is None or isinstance(k, slice))
        return gather(v, ia, q)
    # several index arrays: x[i, j] with equal-shaped arrays
    ias = [lift(k) if (_is_idxarr(k)) else k for k in key]
    if builtins.all(isinstance(k, SymArray) and k.dtype.kind in 'iu' for k in ias) and len(ias) == a.ndim:
        dims = broadcast_dims([k.dims for k in ias])
        gs = [bcast_get(k, dims) for k in ias]
        f = a.snapshot()
        ad = a.dims
        for k in ias:
            pass
        return SymArray.make(dims, lambda ix: f(tuple(_wrapneg(g(ix), d) for g, d in zip(gs, ad))), a.dtype)
    raise Unsupported('fancy indexing %r' % (key,))


def _wrapneg(t, d):
    return z3.simplify(z3.If(t < 0, t + dlen_root(d), t))


def mask_dom(d, m):
    """Dom d restricted by the 1-d mask m"""
    mf = m.snapshot()
    if isinstance(d, int):
        vals = [const_value(mf((IV(k),))) for k in range(d)]
        if builtins.all(v is not None for v in vals):
            return [k for k in range(d) if vals[k]]
        sp = ctx().space(IV(d), 'conc')
        return Dom(sp, lambda i: mf((i,)))
    p0 = d.pred
    md = m.dims[0]
    if isinstance(md, int):
        raise Unsupported('concrete mask on symbolic axis')
    if not same_dom(d, md):
        raise Unsupported('mask axis not provably equal to array axis')
    if p0 is None:
        return Dom(d.space, lambda i: mf((i,)))
    return Dom(d.space, lambda i: z3.And(p0(i), mf((i,))))


def compress(v, m, q):
    d = mask_dom(v.dims[q], m)
    if isinstance(d, list):
        f = v.snapshot()
        dims = v.dims[:q] + (len(d),) + v.dims[q + 1:]

        def fn(ix):
            k = const_value(ix[q])
            if k is None:
                raise Unsupported('symbolic index into selection')
            return f(ix[:q] + (IV(d[int(k)]),) + ix[q + 1:])
        return SymArray.make(dims, fn, v.dtype)
    dims = v.dims[:q] + (d,) + v.dims[q + 1:]
    return SymArray(Buffer(dims, v.snapshot(), v.dtype))


def gather(v, ia, q):
    sel = getattr(ia, 'sel', None)
    if sel is not None:
        if not isinstance(v.dims[q], Dom) or not same_dom(v.dims[q], sel[0]):
            raise Unsupported('positions of a selection used on another array')
        return compress(v, sel[1], q)
    f = v.snapshot()
    g = ia.snapshot()
    d = v.dims[q]
    nd = ia.ndim
    ctx().gathers = getattr(ctx(), 'gathers', 0) + 1
    dims = v.dims[:q] + ia.dims + v.dims[q + 1:]

    def fn(ix):
        t = g(ix[q:q + nd])
        tv = const_value(t)
        if tv is None or tv < 0:
            t = _wrapneg(t, d)
        return f(ix[:q] + (t,) + ix[q + nd:])
    return SymArray.make(dims, fn, v.dtype)


def is_identity(ia):
    if ia.ndim != 1 or isinstance(ia.dims[0], int):
        return False
    k = z3.Int('ident_probe')
    return z3.simplify(ia.snapshot()((k,))).eq(k)


def setitem(a, key, val):
    if isinstance(key, _np.ndarray) and key.dtype == bool:
        key = lift(key)
    key = _norm_key(a, key)
    if isinstance(val, FlatMasked):
        m = [k for k in key if _is_mask(k)]
        if len(m) != 1 or lift(m[0]).ndim != 2:
            raise Unsupported('FlatMasked store')
        mm = lift(m[0]).snapshot()
        a.store(lambda ix: mm(ix), val.fn)
        return
    val = lift(val)
    adv = [k for k in key if _is_mask(k) or _is_idxarr(k)]
    if not adv:
        v = basic_view(a, key)
        _check_bcast(val, v)
        g = bcast_get(val, v.dims)
        v.store(lambda ix: z3.BoolVal(True), g)
        return
    if len(adv) != 1:
        raise Unsupported('store with several index arrays')
    k = adv[0]
    if _is_mask(k):
        m = lift(k)
        if m.ndim == 2:
            if val.dims not in ((), (1,)):
                raise Unsupported('2-d mask store of an array')
            mm, g = m.snapshot(), bcast_get(val, ())if not val.dims else (lambda ix: val.at((IV(0),)))
            t = g(())
            a.store(lambda ix: mm(ix), lambda ix: t)
            return
        p = [i for i, kk in enumerate(key) if kk is k][0]
        v = basic_view(a, [slice(None) if kk is k else kk for kk in key])
        q = builtins.sum(1 for kk in key[:p] if kk is None or isinstance(kk, slice))
        d = mask_dom(v.dims[q], m)
        if isinstance(d, list):
            for n_, pos in enumerate(d):
                kk = [slice(None)] * v.ndim
                kk[q] = pos
                x = val
                if val.ndim == v.ndim and val.dims[q] not in (1,):
                    kv = [slice(None)] * v.ndim
                    kv[q] = n_
                    x = val[tuple(kv)]
                elif val.ndim == 1 and v.ndim == 1 and val.dims[0] != 1:
                    x = val[n_]
                elif val.ndim == 1 and val.dims[0] == 1:
                    x = val[0]
                setitem(v, tuple(kk), x)
            return
        tdims = v.dims[:q] + (d,) + v.dims[q + 1:]
        if val.dims:
            broadcast_dims([tdims, val.dims])
        g = bcast_get(val, tdims)
        mf = m.snapshot()
        v.store(lambda ix: mf((ix[q],)), g)
        return
    ia = lift(k)
    p = [i for i, kk in enumerate(key) if kk is k][0]
    v = basic_view(a, [slice(None) if kk is k else kk for kk in key])
    q = builtins.sum(1 for kk in key[:p] if kk is None or isinstance(kk, slice))
    sel = getattr(ia, 'sel', None)
    if sel is not None:
        if not isinstance(v.dims[q], Dom) or not same_dom(v.dims[q], sel[0]):
            raise Unsupported('positions of a selection used on another array')
        kk = [slice(None)] * v.ndim
        kk[q] = sel[1]
        setitem(v, tuple(kk), val)
        return
    if is_identity(ia):
        d = ia.dims[0]
        tdims = v.dims[:q] + (d,) + v.dims[q + 1:]
        if val.dims:
            broadcast_dims([tdims, val.dims])
        g = bcast_get(val, tdims)
        v.store(lambda ix: d.inside(ix[q]), g)
        return
    if ia.ndim == 1 and isinstance(ia.dims[0], int):
        for n_ in range(ia.dims[0]):
            kk = [slice(None)] * v.ndim
            kk[q] = wrap(ia.at((IV(n_),)))
            x = val
            if val.ndim == v.ndim and val.dims[q] != 1:
                kv = [slice(None)] * v.ndim
                kv[q] = n_
                x = val[tuple(kv)]
            setitem(v, tuple(kk), x)
        return
    raise Unsupported('scatter store')


def _check_bcast(val, v):
    """val must broadcast *into* v.dims"""
    if not val.dims:
        return
    if builtins.any(isinstance(d, Dom) for d in val.dims + v.dims) or val.dims != v.dims:
        off = len(v.dims) - len(val.dims)
        if off < 0:
            if builtins.all(isinstance(d, int) and d == 1 for d in val.dims[:-off]):
                raise Unsupported('broadcast drop')
            raise ValueError('could not broadcast')
        for j, d in enumerate(val.dims):
            w = v.dims[j + off]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(d, int) and isinstance(w, int):
                if d != w:
                    raise ValueError('could not broadcast input array')
                continue
            if isinstance(d, Dom) and isinstance(w, Dom):
                if not same_dom(d, w):
                    raise Unsupported('store: axis lengths not provably equal')
                continue
            dd, n = (d, w) if isinstance(d, Dom) else (w, d)
            if dd.pred is not None or ctx().check_sat(dd.length() != n) != z3.unsat:
                raise Unsupported('store: symbolic/concrete axis mismatch')


class FlatMasked:
    """x[mask2d]: values kept on the 2-d index, usable in element-wise ops and x[mask2d] = ..."""
    __array_priority__ = 2e7

    def __init__(self, fn, dims, mask, dtype):
        self.fn, self.dims, self.mask, self.dtype = fn, dims, mask, dtype

    def _op(self, op, o, swap):
        f = self.fn
        if isinstance(o, FlatMasked):
            g = o.fn
            h = lambda ix: op(f(ix), g(ix))
        elif T._scalar_ok(o):
            t = pyterm(o)
            h = (lambda ix: op(t, f(ix))) if swap else (lambda ix: op(f(ix), t))
        else:
            raise Unsupported('op on FlatMasked')
        return FlatMasked(h, self.dims, self.mask, self.dtype)


for _n, _f in _OPS.items():
    setattr(FlatMasked, '__%s__' % _n, (lambda f: lambda s, o: s._op(f, o, False))(_f))
    setattr(FlatMasked, '__r%s__' % _n, (lambda f: lambda s, o: s._op(f, o, True))(_f))


def transpose(a):
    if a.ndim == 1:
        return a
    if a.ndim != 2:
        raise Unsupported('transpose n-d')
    spec0 = a.spec if a.spec is not None else [('ax', i, None, False) for i in range(a.ndim)]
    spec = [s if s[0] == 'fix' else (s[0], 1 - s[1]) + tuple(s[2:]) for s in spec0]
    return SymArray(a.buf, a.dims[::-1], spec)


def reshape(a, shape):
    shape = list(shape)
    # (n,) -> (n,1) / (1,n) / (-1,) / (-1, k)
    if len(shape) == 1 and a.ndim == 1:
        return a
    if len(shape) == 2 and a.ndim == 1:
        if shape[1] == 1 if isinstance(shape[1], int) else False:
            return a[:, None]
        if isinstance(shape[0], int) and shape[0] == 1:
            return a[None, :]
        if isinstance(shape[1], int) and shape[1] == -1 and ctx().check_sat(term(shape[0]) != dlen(a.dims[0])) == z3.unsat:
            return a[:, None]
    if len(shape) == 2 and a.ndim == 2:
        if not has_sym(shape) and shape == [-1, a.dims[1]]:
            return a
    if len(shape) == a.ndim:
        ok = True
        for s, d in zip(shape, a.dims):
            if isinstance(s, int) and s == -1:
                continue
            t = term(s)
            if not z3.is_true(z3.simplify(t == dlen(d))):
                ok = ok and ctx().check_sat(t != dlen(d)) == z3.unsat
        if ok:
            return a
    if len(shape) == 1 and a.ndim == 2:
        if a.dims[0] == 1:
            return a[0]
        if a.dims[1] == 1:
            return a[:, 0]
    if builtins.all(isinstance(d, int) for d in a.dims) and not has_sym(shape):
        n = 1
        for d in a.dims:
            n *= d
        idx = _np.arange(n).reshape(a.dims).ravel()
        f = a.snapshot()
        src = list(_np.ndindex(*a.dims))
        flat = [wrap(f(tuple(IV(int(q)) for q in s))) for s in src]
        tgt = _np.arange(n).reshape(shape)
        return nested(flat, tgt, a.dtype)
    if len(shape) == 2 and a.ndim == 1 and isinstance(shape[1], int) and shape[1] > 1:
        raise Unsupported('reshape (n,)->(m,k)')
    raise Unsupported('reshape %r -> %r' % (a.dims, shape))


def nested(flat, tgt, dtype):
    def b(t):
        if t.ndim == 1:
            return [flat[int(k)] for k in t]
        return [b(x) for x in t]
    return from_list(b(tgt), dtype)


# ------------------------------------------------------------------ reductions
def reduce_(kind, a, axis=None, keepdims=False):
    if isinstance(a, FlatMasked):
        f, m = a.fn, a.mask
        z = {'sum': 0, 'any': False, 'all': True}.get(kind)
        if z is None:
            raise Unsupported('reduce FlatMasked ' + kind)
        zt = pyterm(z)
        a = SymArray.make(a.dims, lambda ix: T.t_ite(m(ix), f(ix), zt), a.dtype)
    a = lift(a)
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = [x % a.ndim for x in axis]
    else:
        axes = [axis % a.ndim]
    if kind == 'sum' and a.ndim == 1 and a.dtype.kind == 'b' and isinstance(a.dims[0], Dom):
        d = mask_dom(a.dims[0], a)       # counting a mask: the size of that selection
        return Sym(d.length(), dom=d)
    # fold concrete axes first, then symbolic ones
    for ax in sorted([x for x in axes if isinstance(a.dims[x], int)], reverse=True):
        a = fold_axis(kind, a, ax)
        axes = [x if x < ax else x - 1 for x in axes if x != ax]
    if len(axes) > 1 and len(axes) == a.ndim and kind in ('any', 'all', 'max', 'min'):
        a = sym_axes_all(kind, a)
        axes = []
    for ax in sorted(axes, reverse=True):
        a = sym_axis(kind, a, ax)
    if isinstance(a, SymArray) and not a.dims:
        return wrap(a.at(()))
    return a


def _comb(kind):
    if kind == 'sum':
        return num(T.t_add), lambda t: z3.If(t, IV(1), IV(0)) if z3.is_bool(t) else t
    if kind == 'prod':
        return num(T.t_mul), lambda t: t
    if kind == 'max':
        return num(T.t_max), lambda t: t
    if kind == 'min':
        return num(T.t_min), lambda t: t
    if kind == 'any':
        return lambda x, y: z3.Or(x, y), lambda t: t if z3.is_bool(t) else t != 0
    if kind == 'all':
        return lambda x, y: z3.And(x, y), lambda t: t if z3.is_bool(t) else t != 0
    raise Unsupported('reduction ' + kind)


def fold_axis(kind, a, ax):
    n = a.dims[ax]
    op, pre = _comb(kind)
    f = a.snapshot()
    dims = a.dims[:ax] + a.dims[ax + 1:]
    dt = a.dtype
    if kind in ('any', 'all'):
        dt = _np.dtype(bool)
    elif kind == 'sum' and dt.kind == 'b':
        dt = _np.dtype('int64')
    if n == 0:
        z = {'sum': 0.0 if dt.kind == 'f' else 0, 'prod': 1.0, 'any': False, 'all': True}
        if kind not in z:
            raise ValueError('zero-size array to reduction operation')
        zt = pyterm(z[kind])
        return SymArray.make(dims, lambda ix: zt, dt)

    def fn(ix):
        r = None
        for k in range(n):
            t = pre(f(ix[:ax] + (IV(k),) + ix[ax:]))
            r = t if r is None else op(r, t)
        return r
    return SymArray.make(dims, fn, dt)


def sym_axis(kind, a, ax):
    c = ctx()
    d = a.dims[ax]
    f = a.snapshot()
    rest = a.dims[:ax] + a.dims[ax + 1:]
    op, pre = _comb(kind)
    if rest:
        if kind in ('sum', 'any', 'all'):
            return row_reduce(kind, a, ax)
        if kind in ('max', 'min') and all(isinstance(x, int) for x in rest):
            import itertools
            tab = {}
            for ix in itertools.product(*[range(x) for x in rest]):
                one = SymArray.make((d,), lambda i, ix=ix: f(tuple(IV(x) for x in ix[:ax]) + (i[0],) + tuple(IV(x) for x in ix[ax:])), a.dtype)
                tab[ix] = sym_axis(kind, one, 0).snapshot()(())

            def pick(ix):
                items = sorted(tab.items())
                r = items[-1][1]
                for key, v in reversed(items[:-1]):
                    r = z3.If(z3.And(*[i == IV(x) for i, x in zip(ix, key)]), v, r)
                return z3.simplify(r)
            return SymArray.make(rest, pick, a.dtype)
        raise Unsupported('partial symbolic reduction ' + kind)
    g = lambda i: pre(f((i,)))
    sp = d.space
    if kind in ('any', 'all'):
        b = c.bool_const(kind)
        sk = sp.register(c.int_const('wit'))
        if kind == 'any':
            c.add(z3.Implies(b, z3.And(d.inside(sk), g(sk))))
            c.universal(sp, lambda i: z3.Implies(z3.And(z3.Not(b), d.inside(i)), z3.Not(g(i))))
        else:
            c.add(z3.Implies(z3.Not(b), z3.And(d.inside(sk), z3.Not(g(sk)))))
            c.universal(sp, lambda i: z3.Implies(z3.And(b, d.inside(i)), g(i)))
        return SymArray(Buffer((), lambda ix, raw=False: b, bool))
    if kind in ('max', 'min'):
        n = d.length()
        if c.branch(n == 0):
            raise ValueError('zero-size array to reduction operation %s which has no identity' % kind)
        sk = sp.register(c.int_const('wit'))
        v = g(sk)
        m = c.int_const(kind) if v.is_int() else c.real_const(kind)
        c.add(z3.And(d.inside(sk), m == v))
        c.universal(sp, lambda i: z3.Implies(d.inside(i), g(i) <= m if kind == 'max' else g(i) >= m))
        return SymArray(Buffer((), lambda ix, raw=False: m, a.dtype))
    if kind == 'sum':
        s = make_sum(d, g)
        return SymArray(Buffer((), lambda ix, raw=False: s, sort_dtype(s)))
    raise Unsupported('symbolic reduction ' + kind)


def universal_nd(dims, u):
    """u(*ix) -> z3 Bool holds for every ix in dims (each a Dom or an int); u must not add the range"""
    import itertools
    c = ctx()
    syms = [k for k, d in enumerate(dims) if isinstance(d, Dom)]
    concs = [range(d) if isinstance(d, int) else [None] for d in dims]

    def allconc(tv):
        out = []
        for ix in itertools.product(*concs):
            out.append(u(*[tv[k] if k in tv else IV(v) for k, v in enumerate(ix)]))
        return z3.And(*out) if out else z3.BoolVal(True)

    def rec(pos, tv):
        if pos == len(syms):
            return allconc(tv)
        d = dims[syms[pos]]
        if pos == len(syms) - 1:
            c.universal(d.space, lambda t: z3.Implies(z3.And(*[dims[k].inside(x) for k, x in tv.items()] + [d.inside(t)]),
                                                      allconc({**tv, syms[pos]: t})))
            return None
        seen = set()

        def first(t):
            if t.get_id() not in seen:
                seen.add(t.get_id())
                c.keep.append(t)
                rec(pos + 1, {**tv, syms[pos]: t})
            return z3.BoolVal(True)
        c.universal(d.space, first)
    if not syms:
        c.add(allconc({}))
    else:
        rec(0, {})


def sym_axes_all(kind, a):
    c = ctx()
    f = a.snapshot()
    op, pre = _comb(kind)
    dims = a.dims
    g = lambda *ix: pre(f(tuple(ix)))
    sk = [d.space.register(c.int_const('wit')) for d in dims]
    ins = lambda ix: z3.And(*[d.inside(i) for d, i in zip(dims, ix)])
    if kind in ('any', 'all'):
        b = c.bool_const(kind)
        if kind == 'any':
            c.add(z3.Implies(b, z3.And(ins(sk), g(*sk))))
            universal_nd(dims, lambda *ix: z3.Implies(z3.Not(b), z3.Not(g(*ix))))
        else:
            c.add(z3.Implies(z3.Not(b), z3.And(ins(sk), z3.Not(g(*sk)))))
            universal_nd(dims, lambda *ix: z3.Implies(b, g(*ix)))
        return SymArray(Buffer((), lambda ix, raw=False: b, bool))
    if c.branch(z3.Or(*[d.length() == 0 for d in dims])):
        raise ValueError('zero-size array to reduction operation %s which has no identity' % kind)
    v = g(*sk)
    m = c.int_const(kind) if v.is_int() else c.real_const(kind)
    c.add(z3.And(ins(sk), m == v))
    universal_nd(dims, lambda *ix: g(*ix) <= m if kind == 'max' else g(*ix) >= m)
    return SymArray(Buffer((), lambda ix, raw=False: m, a.dtype))


def make_sum(d, g):
    """Sum over i in d of g(i): an atom with defining record"""
    c = ctx()
    canon = z3.Int('canon!%s' % d.space.name)
    gcan = z3.simplify(g(canon))
    if z3.is_app_of(gcan, z3.Z3_OP_ITE) and not free_of(gcan.arg(0), [canon], {}):
        # sum over ite(m, x, y) = sum over m of x + sum over not m of y
        g0, cond = g, gcan.arg(0)

        def side(n):
            return lambda i: (g0(i), z3.substitute(gcan.arg(n), (canon, i)))[1]

        def prd(neg):
            def p(i):
                q = z3.substitute(cond, (canon, i))
                q = z3.Not(q) if neg else q
                return z3.And(d.pred(i), q) if d.pred is not None else q
            return p
        return T.t_add(make_sum(Dom(d.space, prd(False)), side(1)), make_sum(Dom(d.space, prd(True)), side(2)))
    pf = pull_factor(gcan, [canon])
    if pf is not None:
        g0, rest = g, pf[1]

        def g2(i):
            g0(i)
            return z3.substitute(rest, (canon, i))
        return T.t_mul(pf[0], make_sum(d, g2))
    k = d.space.gen(c)
    c.saturate()
    gk = z3.simplify(g(k))
    if const_value(gk) == 0:
        return gk
    isint = gk.is_int()
    canon = z3.Int('canon!%s' % d.space.name)
    gc = z3.simplify(z3.If(d.inside(canon), g(canon), IV(0) if isint else z3.RealVal(0)))
    hk = ('sumkey', gc.get_id())
    if hk in c.facts:
        return c.facts[hk]
    s = c.int_const('sum') if isint else c.real_const('sum')
    c.facts[hk] = s
    c.keep.append(gc)
    c.sums[s.get_id()] = (s, (d,), lambda ix: g(ix[0]), True)
    c.keep.append(s)
    c.add(z3.Implies(d.space.n <= 0, s == 0))
    zero = IV(0) if isint else z3.RealVal(0)
    if c.check_sat(d.inside(k), gk < 0) == z3.unsat:
        c.add(s >= 0)
        d.space.register(IV(0))
        c.universal(d.space, lambda i: z3.Implies(d.inside(i), s >= g(i)))
        wit = d.space.witness(c.int_const('wit'))
        c.add(z3.Implies(s > 0, z3.And(d.inside(wit), g(wit) > 0)))
    elif c.check_sat(d.inside(k), gk > 0) == z3.unsat:
        c.add(s <= 0)
    return s


def row_reduce(kind, a, ax):
    """reduction over a symbolic axis leaving other axes: an uninterpreted function of the rest"""
    c = ctx()
    d = a.dims[ax]
    f = a.snapshot()
    rest = a.dims[:ax] + a.dims[ax + 1:]
    dt = a.dtype
    if kind != 'sum':
        raise Unsupported('row reduction ' + kind)
    isint = dt.kind in 'iub'
    if not isint:
        cn = tuple(z3.Int('canon!%s' % (r.space.name if isinstance(r, Dom) else k)) for k, r in enumerate(rest))
        cj = z3.Int('canonj!%s' % d.space.name)
        pf = pull_factor(z3.simplify(f(cn[:ax] + (cj,) + cn[ax:])), [cj])
        if pf is not None:
            sub = lambda t, ix, j: z3.substitute(t, *(list(zip(cn, ix)) + [(cj, j)]))

            def g3(ix):
                f(ix)
                return sub(pf[1], ix[:ax] + ix[ax + 1:], ix[ax])
            inner = row_reduce(kind, SymArray.make(a.dims, g3, dt), ax)
            fi = inner.snapshot()
            return SymArray.make(rest, lambda ix: T.t_mul(sub(pf[0], ix, cj), fi(ix)), dt)
    canon = tuple(z3.Int('canon!%s' % (r.space.name if isinstance(r, Dom) else k)) for k, r in enumerate(rest))
    cj = z3.Int('canonj!%s' % d.space.name)
    gc = z3.simplify(T.t_ite(d.inside(cj), _comb('sum')[1](f(canon[:ax] + (cj,) + canon[ax:])), IV(0)))
    hk = ('rowkey', gc.get_id(), tuple(id(r.space) if isinstance(r, Dom) else r for r in rest))
    if hk in c.facts:
        fn0, dt0 = c.facts[hk]
        return SymArray.make(rest, fn0, dt0)
    c.keep.append(gc)
    R = z3.Function(c.fresh('rowsum'), *([z3.IntSort()] * len(rest)), z3.IntSort() if isint else z3.RealSort())
    pre = _comb('sum')[1]

    def g(ix, j):
        return pre(f(ix[:ax] + (j,) + ix[ax:]))
    c.rowsums[R.name()] = (R, rest, d, g)
    done = {}
    gi = tuple(r.space.gen(c) if isinstance(r, Dom) else IV(0) for r in rest)
    gj = d.space.gen(c)
    c.saturate()
    if builtins.all(isinstance(r, Dom) for r in rest):
        gk = z3.simplify(g(gi, gj))
        nonneg = c.check_sat(d.inside(gj), *[r.inside(i) for r, i in zip(rest, gi)], gk < 0) == z3.unsat
    else:
        nonneg = False

    def fn(ix):
        key = tuple(i.get_id() for i in ix)
        t = R(*ix)
        if key not in done:
            done[key] = ix
            rin = [r.inside(i) for r, i in zip(rest, ix) if isinstance(r, Dom)]
            c.add(z3.Implies(d.space.n <= 0, t == 0))
            if nonneg:
                c.add(z3.Implies(z3.And(*rin), t >= 0))
                c.universal(d.space, lambda j: z3.Implies(z3.And(*rin, d.inside(j)), t >= g(ix, j)))
                wit = d.space.witness(c.int_const('wit'))
                c.add(z3.Implies(z3.And(t > 0, *rin), z3.And(d.inside(wit), g(ix, wit) > 0)))
        return t
    rdt = _np.dtype('int64') if isint else dt
    c.facts[hk] = (fn, rdt)
    return SymArray.make(rest, fn, rdt)


# ------------------------------------------------------------------ numpy functions
def _u1(f, dtype=None):
    return lambda a, **k: elementwise(num(f), lift(a))


UF = {
    'add': _OPS['add'], 'subtract': _OPS['sub'], 'multiply': _OPS['mul'], 'divide': _OPS['truediv'],
    'true_divide': _OPS['truediv'], 'floor_divide': _OPS['floordiv'], 'remainder': _OPS['mod'], 'mod': _OPS['mod'],
    'power': _OPS['pow'], 'float_power': _OPS['pow'],
    'less': _OPS['lt'], 'less_equal': _OPS['le'], 'greater': _OPS['gt'], 'greater_equal': _OPS['ge'],
    'equal': _eq, 'not_equal': _ne,
    'bitwise_and': _and, 'bitwise_or': _or, 'bitwise_xor': _xor, 'invert': _inv,
    'logical_and': lambda a, b: z3.And(T._tb(a), T._tb(b)), 'logical_or': lambda a, b: z3.Or(T._tb(a), T._tb(b)),
    'logical_xor': lambda a, b: z3.Xor(T._tb(a), T._tb(b)), 'logical_not': lambda a: z3.Not(T._tb(a)),
    'negative': num(lambda a: -a), 'positive': num(lambda a: a), 'absolute': num(T.t_abs), 'fabs': num(T.t_abs),
    'exp': num(T.t_exp), 'log': num(T.t_log), 'sqrt': num(T.t_sqrt), 'square': num(lambda a: a * a),
    'log10': num(lambda x: T.t_log(x) / T.rv(math.log(10))), 'log1p': num(lambda x: T.t_log(1 + T.real(x))),
    'expm1': num(lambda x: T.t_exp(x) - 1),
    'sin': num(T.t_sin), 'cos': num(T.t_cos), 'tan': num(T.t_tan), 'tanh': num(T.t_tanh), 'arctan2': num(T.t_arctan2),
    'arctan': num(lambda x: T.t_arctan2(x, z3.RealVal(1))),
    'cosh': num(T.t_unint('cosh')), 'sinh': num(T.t_unint('sinh')), 'cbrt': num(T.t_unint('cbrt')),
    'arccos': num(T.t_unint('arccos')), 'arcsin': num(T.t_unint('arcsin')),
    'minimum': num(T.t_min), 'maximum': num(T.t_max), 'fmin': num(T.t_min), 'fmax': num(T.t_max),
    'floor': num(lambda a: T.real(T.t_floor(a))), 'ceil': num(lambda a: T.real(T.t_ceil(a))),
    'trunc': num(lambda a: T.real(T.t_trunc(a))), 'rint': num(lambda a: T.real(T.t_round(a))),
    'deg2rad': num(lambda a: T.real(a) * T.rv(T.PI / 180)), 'radians': num(lambda a: T.real(a) * T.rv(T.PI / 180)),
    'rad2deg': num(lambda a: T.real(a) * T.rv(180 / T.PI)), 'degrees': num(lambda a: T.real(a) * T.rv(180 / T.PI)),
    'isnan': lambda a: z3.BoolVal(False), 'isinf': lambda a: z3.BoolVal(False), 'isfinite': lambda a: z3.BoolVal(True),
    'sign': num(lambda a: z3.If(a > 0, IV(1), z3.If(a < 0, IV(-1), IV(0)))),
    'reciprocal': num(lambda a: 1 / T.real(a)),
    'hypot': num(lambda a, b: T.t_sqrt(T.real(a) * T.real(a) + T.real(b) * T.real(b))),
}


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    where = kw.pop('where', None)
    kw.pop('casting', None)
    kw.pop('dtype', None)
    if method == 'reduce':
        m = {'add': 'sum', 'logical_or': 'any', 'logical_and': 'all', 'maximum': 'max', 'minimum': 'min',
             'multiply': 'prod', 'bitwise_or': 'any', 'bitwise_and': 'all'}
        if name in m:
            return reduce_(m[name], inputs[0], kw.get('axis', 0))
        raise Unsupported('reduce ' + name)
    if method == 'outer' and name == 'multiply':
        return lift(inputs[0])[:, None] * lift(inputs[1])[None, :]
    if method == '__call__' and len(inputs) > ufunc.nin:
        out, inputs = inputs[ufunc.nin], inputs[:ufunc.nin]
    if method != '__call__' or name not in UF:
        raise Unsupported('ufunc %s.%s' % (name, method))
    if builtins.any(isinstance(i, FlatMasked) for i in inputs):
        a = inputs
        if len(a) == 2:
            if isinstance(a[0], FlatMasked):
                return a[0]._op(UF[name], a[1], False)
            return a[1]._op(UF[name], a[0], True)
        f = a[0].fn
        return FlatMasked(lambda ix: UF[name](f(ix)), a[0].dims, a[0].mask, a[0].dtype)
    r = elementwise(UF[name], *[lift(i) for i in inputs])
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if not isinstance(o, SymArray):
            raise Unsupported('ufunc out= concrete array')
        if where is not None and where is not True:
            w = lift(where)
            r = elementwise(lambda c_, x, y: T.t_ite(c_, x, y), w, lift(r), o)
        o[...] = r
        return o
    return r


IMPL = {}


def impl(*names):
    def d(f):
        for n in names:
            IMPL[n] = f
        return f
    return d


def _shape(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(shape)
    return (shape,)


def _dim_of(s):
    if isinstance(s, Sym):
        v = const_value(s.t)
        if v is not None:
            return int(v)
        if s.dom is not None:
            return s.dom
        c = ctx()
        if c.branch(s.t < 0):
            raise ValueError('negative dimensions are not allowed')
        v = c.unique_value(s.t)
        if v is not None:
            return v
        for sp in c.spaces:
            if z3.simplify(sp.n).eq(z3.simplify(s.t)):
                return Dom(sp)
        return Dom(c.space(s.t, 'dim'))
    return int(s)


def _full(shape, v, dtype):
    dims = tuple(_dim_of(s) for s in _shape(shape))
    dt = _np.dtype(dtype)
    t = cast_fn(dt)(pyterm(v))
    return SymArray.make(dims, lambda ix: t, dt)


@impl('zeros')
def _zeros(shape, dtype=float, *a, **k):
    return _full(shape, 0, dtype or float)


@impl('empty')
def _empty(shape, dtype=float, *a, **k):
    dims = tuple(_dim_of(s) for s in _shape(shape))
    dt = _np.dtype(dtype or float)
    c = ctx()
    srt = z3.BoolSort() if dt.kind == 'b' else z3.IntSort() if dt.kind in 'iu' else z3.RealSort()
    F = z3.Function(c.fresh('empty'), *([z3.IntSort()] * len(dims)), srt) if dims else None
    return SymArray.make(dims, lambda ix: F(*ix), dt)


@impl('ones')
def _ones(shape, dtype=float, *a, **k):
    return _full(shape, 1, dtype or float)


@impl('full')
def _fullf(shape, fill_value, dtype=None, *a, **k):
    if isinstance(fill_value, SymArray) or (not T._scalar_ok(fill_value)):
        r = _empty(shape, dtype or float)
        r[...] = fill_value
        return r
    t = pyterm(fill_value)
    return _full(shape, fill_value, dtype or sort_dtype(t))


@impl('zeros_like')
def _zl(a, dtype=None, **k):
    a = lift(a)
    dt = dtype or a.dtype
    t = cast_fn(dt)(IV(0))
    if not a.dims:
        return wrap(t)
    return SymArray.make(a.dims, lambda ix: t, dt)


@impl('empty_like')
def _el(a, dtype=None, **k):
    a = lift(a)
    return _empty(a.shape, dtype or a.dtype)


@impl('ones_like')
def _ol(a, dtype=None, **k):
    a = lift(a)
    dt = dtype or a.dtype
    t = cast_fn(dt)(IV(1))
    return SymArray.make(a.dims, lambda ix: t, dt)


@impl('full_like')
def _fl(a, fill_value, dtype=None, **k):
    a = lift(a)
    dt = dtype or a.dtype
    t = cast_fn(dt)(pyterm(fill_value))
    return SymArray.make(a.dims, lambda ix: t, dt)


@impl('asarray', 'ascontiguousarray', 'asanyarray')
def _asarray(a, dtype=None, copy=None, **k):
    if isinstance(a, SymArray) and not copy and (dtype is None or _np.dtype(dtype) == a.dtype):
        return a                                   # aliases its argument
    return _array(a, dtype, copy)


@impl('array')
def _array(a, dtype=None, copy=None, **k):
    r = lift(a)
    if not r.dims and isinstance(a, SymArray):
        pass
    if dtype is not None and _np.dtype(dtype) != r.dtype:
        return r.astype(dtype)
    if isinstance(a, SymArray) and copy is not False:
        return a.copy()
    return r


@impl('copy')
def _copy(a, **k):
    return lift(a).copy()


@impl('linspace')
def _linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    if not endpoint or k:
        raise Unsupported('linspace options')
    a, b = T.real(pyterm(a)), T.real(pyterm(b))
    d = _dim_of(num)
    if isinstance(d, int):
        n = IV(d)
        if d < 2:
            return SymArray.make((d,), lambda ix: a, _np.dtype(float))
        return SymArray.make((d,), lambda ix: T.t_add(a, T.t_div(T.t_mul(T.t_sub(b, a), T.real(ix[0])), T.real(IV(d - 1)))), _np.dtype(float))
    n = dlen(d)
    if ctx().branch(n <= 1):
        return SymArray.make((d,), lambda ix: a, _np.dtype(float))
    return SymArray.make((d,), lambda ix: T.t_add(a, T.t_div(T.t_mul(T.t_sub(b, a), T.real(ix[0])), T.real(n - 1))), _np.dtype(float))


@impl('arange')
def _arange(*a, dtype=None, **k):
    start, stop = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) > 2 and const_value(term(a[2])) != 1:
        raise Unsupported('arange step')
    n = stop - start
    d = _dim_of(n if isinstance(n, Sym) else Sym(IV(n)))
    st = term(start)
    return SymArray.make((d,), lambda ix: T.t_add(st, ix[0]), dtype or 'int64')


@impl('where')
def _where(c, x=None, y=None):
    if x is None and y is None:
        return IMPL['nonzero'](c)
    return elementwise(lambda b, p, q: T.t_ite(T._tb(b), p, q), lift(c), lift(x), lift(y))


@impl('choose')
def _choose(a, choices, out=None, mode='raise'):
    a = lift(a)
    if a.dtype.kind != 'b' or len(choices) != 2 or out is not None:
        raise Unsupported('choose')
    return _where(a, choices[1], choices[0])


@impl('nonzero')
def _nonzero(a):
    a = lift(a)
    if a.ndim != 1:
        raise Unsupported('nonzero of n-d array')
    m = a if a.dtype.kind == 'b' else (a != 0)
    d = mask_dom(m.dims[0], m)
    if isinstance(d, list):
        return (_np.array(d, dtype=int),)
    par = m.dims[0]
    if isinstance(par, Dom) and par.pred is not None:
        # positions within a selection: their values are opaque, but indexing an array over that selection is the same as masking it
        R = z3.Function(ctx().fresh('rank'), z3.IntSort(), z3.IntSort())
        a = SymArray.make((d,), lambda ix: R(ix[0]), 'int64')
        a.sel = (par, m.copy())
        return (a,)
    return (SymArray.make((d,), lambda ix: ix[0], 'int64'),)


@impl('flatnonzero')
def _fnz(a):
    return _nonzero(a)[0]


@impl('any')
def _any(a, axis=None, **k):
    return reduce_('any', a, axis)


@impl('all')
def _all(a, axis=None, **k):
    return reduce_('all', a, axis)


@impl('sum', 'nansum')
def _sum(a, axis=None, **k):
    return reduce_('sum', a, axis)


@impl('max', 'amax', 'nanmax')
def _max(a, axis=None, **k):
    return reduce_('max', a, axis)


@impl('min', 'amin', 'nanmin')
def _min(a, axis=None, **k):
    return reduce_('min', a, axis)


@impl('prod')
def _prod(a, axis=None, **k):
    return reduce_('prod', a, axis)


@impl('mean')
def _mean(a, axis=None, **k):
    return lift(a).mean(axis)


@impl('count_nonzero')
def _cnz(a, axis=None):
    a = lift(a)
    m = a if a.dtype.kind == 'b' else (a != 0)
    return reduce_('sum', m, axis)


@impl('clip')
def _clip(a, a_min=None, a_max=None, out=None, **k):
    r = lift(a).clip(a_min, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


@impl('abs')
def _abs(a):
    return elementwise(num(T.t_abs), lift(a))


@impl('round', 'around')
def _round(a, decimals=0, **k):
    if decimals != 0:
        p = 10 ** decimals
        return elementwise(num(lambda x: T.real(T.t_round(T.real(x) * p)) / p), lift(a))
    return elementwise(num(lambda x: T.real(T.t_round(x))), lift(a))


@impl('isclose')
def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return elementwise(num(lambda x, y: T.t_abs(T.t_sub(T.real(x), T.real(y))) <= T.rv(atol) + T.rv(rtol) * T.t_abs(T.real(y))), lift(a), lift(b))


@impl('allclose')
def _allclose(a, b, **k):
    return reduce_('all', _isclose(a, b, **k))


@impl('array_equal')
def _aeq(a, b):
    return reduce_('all', lift(a) == lift(b))


@impl('concatenate')
def _concat(arrs, axis=0, **k):
    arrs = [lift(a) for a in arrs]
    if axis in (1, -1) and arrs[0].ndim == 2:
        return transpose(_concat([transpose(a) for a in arrs]))
    if axis not in (0, None) and not (axis == -1 and arrs[0].ndim == 1):
        raise Unsupported('concatenate axis')
    arrs = [a for a in arrs if not (isinstance(a.dims[0], int) and a.dims[0] == 0)] or arrs[:1]
    if len(arrs) == 1:
        return arrs[0].copy()
    dt = result_dtype(arrs)
    c = cast_fn(dt)
    fns = [a.snapshot() for a in arrs]
    rest = broadcast_dims([a.dims[1:] for a in arrs])
    for a in arrs:
        if isinstance(a.dims[0], Dom) and a.dims[0].pred is not None:
            raise Unsupported('concatenate of masked array')
    lens = [dlen(a.dims[0]) for a in arrs]
    offs = [IV(0)]
    for l in lens:
        offs.append(z3.simplify(offs[-1] + l))
    tot = offs[-1]
    tv = const_value(tot)
    cx = ctx()
    if tv is not None:
        d0 = int(tv)
    else:
        sp = None
        for s in cx.spaces:
            if z3.simplify(s.n).eq(tot):
                sp = s
        if sp is None:
            sp = cx.space(tot, 'cat')
        for a, o in zip(arrs, offs):
            if isinstance(a.dims[0], Dom):
                a.dims[0].space.links.append((sp, lambda t, o=o: t - o))
                sp.links.append((a.dims[0].space, lambda t, o=o: t + o))
        d0 = Dom(sp)

    def fn(ix):
        r = None
        for k in range(len(fns) - 1, -1, -1):
            t = c(fns[k]((z3.simplify(ix[0] - offs[k]),) + ix[1:]))
            r = t if r is None else T.t_ite(ix[0] < offs[k + 1], t, r)
        return r
    return SymArray.make((d0,) + rest, fn, dt)


@impl('append')
def _append(a, b, axis=None):
    a = lift(a)
    b = lift(b)
    if not b.dims:
        b = from_list([wrap(b.at(()))])
    return _concat((a, b), axis=0)


@impl('hstack')
def _hstack(arrs, **k):
    arrs = [lift(a) for a in arrs]
    return _concat(arrs, axis=0 if arrs[0].ndim == 1 else 1)


@impl('vstack', 'row_stack')
def _vstack(arrs, **k):
    arrs = [lift(a) for a in arrs]
    arrs = [a[None, :] if a.ndim == 1 else a for a in arrs]
    if builtins.all(a.dims[0] == 1 for a in arrs):
        return stack0([a[0] for a in arrs])
    return _concat(arrs)


@impl('column_stack')
def _cstack(arrs):
    arrs = [lift(a) for a in arrs]
    arrs = [a.reshape(1) if a.ndim == 0 else a for a in arrs]
    if builtins.all(a.ndim == 1 for a in arrs):
        return transpose(stack0(arrs))
    return transpose(_concat([transpose(a[:, None] if a.ndim == 1 else a) for a in arrs]))


@impl('stack')
def _stack(arrs, axis=0):
    r = stack0([lift(a) for a in arrs])
    if axis in (-1, 1) and r.ndim == 2:
        return transpose(r)
    if axis != 0:
        raise Unsupported('stack axis')
    return r


@impl('delete')
def _delete(a, idx, axis=None):
    a = lift(a)
    ia = lift(idx)
    if isinstance(a.dims[0], Dom) and is_identity(ia):
        d, di = a.dims[0], ia.dims[0]
        p0 = d.pred
        nd = Dom(d.space, lambda i: z3.And(p0(i) if p0 else z3.BoolVal(True), z3.Not(di.inside(i))))
        return SymArray(Buffer((nd,) + a.dims[1:], a.snapshot(), a.dtype))
    if isinstance(a.dims[0], Dom) and ia.dtype.kind == 'b':
        m = elementwise(_inv, ia)
        return compress(a, m, 0)
    raise Unsupported('np.delete')


@impl('transpose')
def _tr(a, *k):
    return transpose(lift(a))


@impl('expand_dims')
def _exd(a, axis):
    a = lift(a)
    key = [slice(None)] * a.ndim
    key.insert(axis if axis >= 0 else a.ndim + 1 + axis, None)
    return a[tuple(key)]


@impl('outer')
def _outer(a, b):
    return lift(a)[:, None] * lift(b)[None, :]


@impl('dot')
def _dot(a, b):
    a, b = lift(a), lift(b)
    if a.ndim == 1 and b.ndim == 1:
        return reduce_('sum', a * b)
    if a.ndim == 2 and b.ndim == 2 and isinstance(b.dims[0], int) and isinstance(b.dims[1], int) and a.dims[1] == b.dims[0]:
        cols = []
        for j in range(b.dims[1]):
            acc = a[:, 0] * b[0, j]
            for k in range(1, b.dims[0]):
                acc = acc + a[:, k] * b[k, j]
            cols.append(acc)
        return _stack(cols, axis=1)
    if a.ndim == 2 and b.ndim == 1 and isinstance(b.dims[0], int):
        acc = a[:, 0] * b[0]
        for k in range(1, b.dims[0]):
            acc = acc + a[:, k] * b[k]
        return acc
    raise Unsupported('dot')


@impl('matmul')
def _matmul(a, b):
    return _dot(a, b)


@impl('atleast_2d')
def _al2(*arrs):
    out = []
    for a in arrs:
        a = lift(a)
        out.append(reshape(a, (1, 1)) if a.ndim == 0 else a[None, :] if a.ndim == 1 else a)
    return out[0] if len(out) == 1 else out


@impl('atleast_1d')
def _al1(*arrs):
    out = []
    for a in arrs:
        a = lift(a)
        out.append(reshape(a, (1,)) if a.ndim == 0 else a)
    return out[0] if len(out) == 1 else out


def _norm(x, ord=None, axis=None, keepdims=False):
    x = lift(x)
    if ord not in (None, 2):
        raise Unsupported('norm ord')
    if axis is None and x.ndim != 1:
        raise Unsupported('matrix norm')
    s = reduce_('sum', x * x, axis if axis is not None else None, keepdims)
    return NP.sqrt(s)


@impl('apply_along_axis')
def _aaa(f, axis, a, *args, **k):
    a = lift(a)
    if f is NP.linalg.norm or getattr(f, '__name__', '') in ('norm', '_norm'):
        return _norm(a, axis=axis)
    raise Unsupported('apply_along_axis')


IMPL['norm'] = _norm


class _Linalg:
    def norm(self, x, *a, **k):
        return _norm(x, *a, **k) if has_sym(x) else _np.linalg.norm(x, *a, **k)

    def __getattr__(self, n):
        return getattr(_np.linalg, n)


class _Random:
    """numpy.random under its documented contract: uniform(low, high) draws from [low, high) (low when low == high),
    rand()/random() from [0, 1); normal and friends are unconstrained reals"""
    def _fresh(self, dims, pred):
        c = ctx()
        if not dims:
            v = c.real_const('rnd')
            p = pred(v, ())
            if p is not None:
                c.add(p)
            return Sym(v)
        F = z3.Function(c.fresh('rnd'), *([z3.IntSort()] * len(dims)), z3.RealSort())

        def fn(ix, raw=False):
            if not raw:
                for d, i in zip(dims, ix):
                    if isinstance(d, Dom):
                        d.space.register(i)
            return F(*ix)
        arr = SymArray(Buffer(list(dims), fn, _np.dtype(float)))
        universal_nd(list(dims), lambda *ix: pred(F(*ix), ix) if pred(F(*ix), ix) is not None else z3.BoolVal(True))
        return arr

    def _dims(self, size):
        if size is None:
            return []
        if not isinstance(size, (tuple, list)):
            size = (size,)
        return [_dim_of(x) if isinstance(x, Sym) else int(x) for x in size]

    def uniform(self, low=0.0, high=1.0, size=None):
        if not has_sym((low, high, size)):
            return _np.random.uniform(low, high, size)
        l, h = lift(low), lift(high)
        dims = self._dims(size) if size is not None else list((l * 1.0 + h * 1.0 if (l.ndim or h.ndim) else l).dims)
        gl, gh = bcast_get(l, dims), bcast_get(h, dims)

        def pred(v, ix):
            a, b = T.real(gl(ix)), T.real(gh(ix))
            # crossed bounds: the installed (legacy) generator draws between them
            return z3.And(z3.Implies(a <= b, z3.And(v >= a, v <= b)), z3.Implies(a < b, v < b), z3.Implies(a > b, z3.And(v <= a, v >= b)))
        return self._fresh(dims, pred)

    def rand(self, *size):
        if not has_sym(size):
            return _np.random.rand(*size)
        return self._fresh(self._dims(size), lambda v, ix: z3.And(v >= 0, v < 1))

    def random(self, size=None):
        if not has_sym(size):
            return _np.random.random(size)
        return self._fresh(self._dims(size), lambda v, ix: z3.And(v >= 0, v < 1))
    random_sample = random

    def normal(self, loc=0.0, scale=1.0, size=None):
        if not has_sym((loc, scale, size)):
            return _np.random.normal(loc, scale, size)
        return self._fresh(self._dims(size) if size is not None else list((lift(loc) * 1.0 + lift(scale)).dims), lambda v, ix: None)

    def randn(self, *size):
        if not has_sym(size):
            return _np.random.randn(*size)
        return self._fresh(self._dims(size), lambda v, ix: None)

    def __getattr__(self, n):
        f = getattr(_np.random, n)

        def g(*a, **k):
            if has_sym(a) or has_sym(k):
                raise Unsupported('numpy.random.' + n)
            return f(*a, **k)
        return g if callable(f) and not isinstance(f, type) else f


@impl('shape')
def _shp(a):
    return lift(a).shape


@impl('ndim')
def _nd(a):
    return lift(a).ndim


@impl('size')
def _sz(a, axis=None):
    a = lift(a)
    return a.size if axis is None else a.shape[axis]


@impl('copyto')
def _copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        dst[...] = _where(where, src, dst)


@impl('reshape')
def _rs(a, shape, **k):
    return reshape(lift(a), _shape(shape))


@impl('ravel')
def _rv(a, **k):
    return reshape(lift(a), (-1,))


@impl('repeat')
def _repeat(a, n, axis=None):
    a = lift(a)
    if not a.dims:
        return _fullf((n,), wrap(a.at(())))
    if a.dims[0] == 1:
        return _bto(a, (n,) + a.shape[1:])
    raise Unsupported('repeat')


@impl('tile')
def _tile(a, reps):
    a = lift(a)
    reps = _shape(reps)
    if a.ndim == 1 and len(reps) == 2 and isinstance(reps[1], int) and reps[1] == 1:
        return _bto(a[None, :], (reps[0], a.shape[0]))
    if not a.dims or a.dims == (1,):
        return _fullf(reps, wrap(a.at(tuple(IV(0) for _ in a.dims))))
    raise Unsupported('tile')


@impl('broadcast_to')
def _bto(a, shape):
    a = lift(a)
    dims = tuple(_dim_of(s) for s in _shape(shape))
    g = bcast_get(a, dims)
    return SymArray.make(dims, g, a.dtype)


@impl('interp')
def _interp(x, xp, fp, **k):
    raise Unsupported('np.interp')


@impl('diff')
def _diff(a, n=1, axis=-1, **k):
    a = lift(a)
    return a[1:] - a[:-1]


@impl('nan_to_num')
def _ntn(a, **k):
    return lift(a)


@impl('isscalar')
def _iss(a):
    return isinstance(a, (Sym, SymBool)) or _np.isscalar(a)


@impl('may_share_memory', 'shares_memory')
def _msm(a, b):
    return isinstance(a, SymArray) and isinstance(b, SymArray) and a.buf is b.buf


@impl('result_type')
def _rt(*a):
    return _np.dtype(float)


@impl('einsum')
def _einsum(*a, **k):
    raise Unsupported('einsum')


def function_dispatch(func, args, kwargs):
    n = func.__name__
    if n in IMPL:
        return IMPL[n](*args, **kwargs)
    raise Unsupported('numpy.%s' % n)


class _RClass:
    def __getitem__(self, key):
        if has_sym(key):
            if isinstance(key, tuple):
                return _concat([lift(k) if lift(k).dims else from_list([k]) for k in key])
        return _np.r_[key]


class _CClass:
    def __getitem__(self, key):
        if has_sym(key):
            return _cstack(list(key))
        return _np.c_[key]


class NPShim:
    """`np` as seen by the /repo modules while they run symbolically."""
    r_ = _RClass()
    c_ = _CClass()
    linalg = _Linalg()
    random = _Random()

    def __getattr__(self, name):
        real = getattr(_np, name)
        if name in ('float64', 'float32', 'int32', 'int64', 'int16', 'int8', 'uint8', 'double', 'int_', 'float_', 'intp'):
            return _NPType(real)
        if isinstance(real, _np.ufunc):
            def u(*a, **k):
                if has_sym(a) or has_sym(k):
                    return ufunc_dispatch(real, '__call__', a, k)
                return real(*a, **k)
            u.reduce = lambda *a, **k: ufunc_dispatch(real, 'reduce', a, k) if has_sym(a) else real.reduce(*a, **k)
            u.outer = lambda *a, **k: ufunc_dispatch(real, 'outer', a, k) if has_sym(a) else real.outer(*a, **k)
            return u
        if callable(real) and not isinstance(real, type) and (name in IMPL):
            def w(*a, **k):
                if has_sym(a) or has_sym(k):
                    return IMPL[name](*a, **k)
                return real(*a, **k)
            return w
        if callable(real) and not isinstance(real, type) and name not in ('dtype', 'errstate', 'seterr'):
            def w2(*a, **k):
                if has_sym(a) or has_sym(k):
                    raise Unsupported('numpy.%s' % name)
                return real(*a, **k)
            return w2
        return real


class _NPType(type):
    """np.float64 & co: usable as dtype, in isinstance and as a conversion."""
    def __new__(mcs, real):
        return super().__new__(mcs, real.__name__, (object,), {'_real': real, 'dtype': _np.dtype(real)})

    def __init__(cls, real):
        pass

    def __call__(cls, *a):
        if a and has_sym(a[0]):
            if isinstance(a[0], SymArray):
                return a[0].astype(cls._real)
            return wrap(cast_fn(cls._real)(a[0].t))
        return cls._real(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


NP = NPShim()
