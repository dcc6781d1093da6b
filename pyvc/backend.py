"""The two back ends a harness runs on: Symbolic (proof) and Concrete (replay and bounded search)."""
import builtins
import datetime as _dt
import math
import random as _random
from fractions import Fraction
import numpy as np
import z3
from . import terms as T
from . import arrays as A
from . import shims
from .terms import Sym, SymBool, Unsupported, PathEnd, term, bterm, wrap, And, Or, Not, Implies, Ite
from .engine import Obligation

EPOCH = shims.EPOCH


def opaque_conds(c, e):
    """replace every maximal boolean subterm of e by a fresh constant -> (e', pairs to substitute back)"""
    pairs, seen = [], {}

    def walk(t):
        if t.get_id() in seen:
            return
        seen[t.get_id()] = t
        if z3.is_bool(t):
            if not (z3.is_true(t) or z3.is_false(t)):
                pairs.append((t, c.bool_const('cond')))
            return
        for ch in t.children():
            walk(ch)
    walk(e)
    if not pairs:
        return e, []
    return z3.substitute(e, *pairs), [(b, a) for a, b in pairs]


class Discard(BaseException):
    """concrete mode: input does not satisfy the precondition"""


class Failed(Exception):
    def __init__(self, name, detail=''):
        super().__init__(name)
        self.name, self.detail = name, detail


class Dim:
    def __init__(self, n, dom=None):
        self.n, self.dom = n, dom


class Base:
    And, Or, Not, Implies, Ite = staticmethod(And), staticmethod(Or), staticmethod(Not), staticmethod(Implies), staticmethod(Ite)

    def __init__(self):
        self.P = shims.Patcher()

    def patch(self, obj, name, val):
        self.P.set(obj, name, val)

    def cleanup(self):
        self.P.restore()

    def eq(self, a, b):
        return self.And(self.le(a, b), self.le(b, a)) if not self.symbolic else (a == b)


class Symbolic(Base):
    symbolic = True

    def __init__(self, c):
        super().__init__()
        self.c = c
        self.covers = c.ex.reached

    def setup_modules(self, prefixes=('gnome',)):
        for p in prefixes:
            shims.patch_modules(self.P, p)

    # inputs
    def _nm(self, name):
        k = self.c.names.get(name, 0)
        self.c.names[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, gen=None, nice=None):
        name = self._nm(name)
        v = z3.Real(name)
        self.c.inputs.append((name, 'real', v))
        self._rng(v, lo, hi, lo_open, hi_open)
        return Sym(v)

    def _rng(self, v, lo, hi, lo_open=False, hi_open=False):
        if lo is not None:
            self.c.assume_term(v > term(lo) if lo_open else v >= term(lo))
        if hi is not None:
            self.c.assume_term(v < term(hi) if hi_open else v <= term(hi))

    def int(self, name, lo=None, hi=None, gen=None, small=None):
        name = self._nm(name)
        v = z3.Int(name)
        self.c.inputs.append((name, 'int', v))
        self._rng(v, lo, hi)
        return Sym(v)

    def bool(self, name):
        name = self._nm(name)
        v = z3.Bool(name)
        self.c.inputs.append((name, 'bool', v))
        return SymBool(v)

    def choice(self, name, options):
        """a concrete option; forks"""
        name = self._nm(name)
        v = z3.Int(name)
        self.c.inputs.append((name, 'choice', v))
        self.c.assume_term(z3.And(v >= 0, v < len(options)))
        for k in range(len(options) - 1):
            if self.c.branch(v == k):
                return options[k]
        self.c.assume_term(v == len(options) - 1)
        return options[-1]

    def dim(self, name, lo=0, hi=None, conc=6):
        name = self._nm(name)
        v = z3.Int(name)
        self.c.inputs.append((name, 'dim', v))
        self._rng(v, lo, hi)
        d = A.Dom(self.c.space(v, name))
        return Dim(Sym(v, dom=d), d)

    def array(self, name, dims, dtype=float, lo=None, hi=None, lo_open=False, hi_open=False, choices=None, gen=None, **k):
        name = self._nm(name)
        dims = [d.dom if isinstance(d, Dim) else (d.dom if isinstance(d, Sym) and d.dom is not None else int(d)) for d in dims]
        dt = np.dtype(dtype)
        srt = z3.BoolSort() if dt.kind == 'b' else z3.IntSort() if dt.kind in 'iu' else z3.RealSort()
        F = z3.Function(name, *([z3.IntSort()] * len(dims)), srt)
        doms = [d for d in dims]

        def fn(ix, raw=False):
            if not raw:
                for d, i in zip(doms, ix):
                    if isinstance(d, A.Dom):
                        d.space.register(i)
            return F(*ix)
        self.c.inputs.append((name, 'array', (dims, fn)))
        arr = A.SymArray(A.Buffer(dims, fn, dt))
        if lo is not None or hi is not None or choices is not None:
            def u(*ix):
                t = F(*ix)
                cs = []
                if lo is not None:
                    cs.append(t > term(lo) if lo_open else t >= term(lo))
                if hi is not None:
                    cs.append(t < term(hi) if hi_open else t <= term(hi))
                if choices is not None:
                    cs.append(z3.Or(*[t == term(x) for x in choices]))
                return z3.And(*cs)
            self._universal(dims, u)
        return arr

    def _universal(self, dims, u):
        """u(*ix) for all ix in dims"""
        A.universal_nd(dims, u)

    def assume_forall(self, dims, f):
        dims = [d.dom if isinstance(d, Dim) else d for d in dims]
        self._universal(dims, lambda *ix: bterm(f(*[Sym(i) for i in ix])))

    def datetime(self, name, lo=None, hi=None, whole=False):
        name = self._nm(name)
        v = z3.Int(name) if whole else z3.Real(name)
        self.c.inputs.append((name, 'int' if whole else 'real', v))
        return shims.SymDatetime(v)

    def timedelta(self, name, lo=None, hi=None, whole=False, lo_open=False):
        s = self.int(name, lo, hi) if whole else self.real(name, lo, hi, lo_open=lo_open)
        return shims.SymTimedelta(s.t)

    def secs(self, x):
        """datetime/timedelta -> seconds"""
        if isinstance(x, (shims.SymDatetime, _dt.datetime)):
            return Sym(shims.dt_term(x))
        return Sym(shims.td_term(x))

    # contract statements
    def assume(self, cond):
        self.c.assume(cond)

    def prove(self, name, cond, detail='', **k):
        return self.c.prove(name, cond, **k)

    def cover(self, name):
        if name not in self.covers and self.c.feasible() == z3.sat:
            self.covers.add(name)

    def at(self, a, *ix):
        return wrap(A.lift(a).at(tuple(term(i) for i in ix)))

    def forall(self, name, dims, f, **k):
        ds = []
        for d in dims:
            d = d.dom if isinstance(d, Dim) else d
            if isinstance(d, Sym):
                d = d.dom or A._dim_of(d)
            ds.append(d)
        ix, rng = [], []
        for d in ds:
            v = self.c.int_const('k')
            if isinstance(d, A.Dom):
                d.space.register(v)
                rng.append(d.inside(v))
            else:
                rng.append(z3.And(v >= 0, v < d))
            ix.append(Sym(v))
        self.c.saturate()
        body = bterm(f(*ix))
        return self.c.prove(name, SymBool(z3.Implies(z3.And(*rng), body)), **k)

    def forall_sum_eq(self, name, dims, f):
        """for all ix: lhs == rhs with f(*ix) -> (lhs, rhs) containing row sums"""
        ds = [d.dom if isinstance(d, Dim) else d for d in dims]
        ix = [d.space.register(self.c.int_const('k')) for d in ds]
        a, b = f(*[Sym(i) for i in ix])
        self.c.saturate()
        return self._pointwise(name, T.t_sub(T.real(term(a)), T.real(term(b))), z3.And(*[d.inside(i) for d, i in zip(ds, ix)]))

    def close(self, a, b, tol=1e-9):
        a, b = T.real(term(a)), T.real(term(b))
        e = T.t_eq(a, b)
        v = z3.simplify(a - b)
        ab = lambda x: z3.If(x >= 0, x, -x)
        self.c.__dict__.setdefault('close_atoms', []).append((e, ab(v) <= T.rv(min(tol, 1e-9)) * (1 + ab(a))))
        return T.wrap(e)

    def le(self, a, b, tol=1e-9):
        return T.wrap(T.t_le(term(a), term(b)))

    def lt(self, a, b):
        return T.wrap(T.t_lt(term(a), term(b)))

    # sums
    def sum_eq(self, name, a, b):
        """prove a == b where both are linear in array-sum atoms"""
        return self.lin_zero(name, T.t_sub(term(a), term(b)))

    def lin_zero(self, name, e):
        c = self.c
        e = T.real(e)
        c.saturate()
        e0 = e
        if c.named:
            e = z3.substitute(e, *list(c.named.values()))
        # a == (a/b)*b for the named quotients: lets the decomposition see a plain removed amount as fraction*sum
        subs = []
        for t, v in c.named.values():
            if z3.is_app_of(t, z3.Z3_OP_DIV) and T.const_value(t.arg(0)) is None and c.check_sat(t.arg(1) == 0) == z3.unsat:
                subs.append((t.arg(0), v * t.arg(1)))
        attempts = ([z3.substitute(e, *subs)] if subs else []) + [e]
        n0 = len(c.ex.obls)
        for n, attempt in enumerate(attempts):
            del c.ex.obls[n0:]
            if self._lin_zero1(name, attempt, e0):
                return True
        return False

    def _lin_zero1(self, name, e, e0):
        c = self.c
        r = self._decompose(e)
        if r is None:
            c.ex.record(Obligation(name, 'unknown', 'sum-linearity', detail='not linear in the sums: %s' % e, path=c.ex.paths))
            return None
        sums, c0, coefs, bk = r
        c0 = bk(c0)
        coefs = [bk(k) for k in coefs]
        if not sums:
            return c.prove(name, SymBool(e0 == 0))
        ok = c.prove(name + '/const', SymBool(c0 == 0))
        if not ok:
            return ok
        groups = {}
        for s, k in zip(sums, coefs):
            _, dims, fn, _x = c.sums[s.get_id()]
            groups.setdefault(id(dims[0].space), []).append((k, dims[0], fn))
        for g in groups.values():
            sp = g[0][1].space
            i = sp.register(c.int_const('sumidx'))
            c.saturate()
            tot = z3.RealVal(0)
            for k, d, fn in g:
                tot = tot + k * z3.If(d.inside(i), T.real(fn((i,))), z3.RealVal(0))
            ok = self._pointwise(name + '/summand', tot, z3.And(i >= 0, i < sp.n)) and ok
        return ok

    def _decompose(self, e):
        """e == c0 + sum coef*atom -> (atoms, c0, coefs, un-opaque) or None"""
        c = self.c
        e, back = opaque_conds(c, e)
        bk = (lambda t: z3.substitute(t, *back)) if back else (lambda t: t)
        sums = self._atoms(e)
        zero = [(s, z3.RealVal(0) if s.is_real() else z3.IntVal(0)) for s in sums]
        c0 = z3.simplify(z3.substitute(e, *zero)) if sums else e
        coefs = []
        for s in sums:
            z2 = [(q, (z3.RealVal(1) if q.is_real() else z3.IntVal(1)) if q.eq(s) else (z3.RealVal(0) if q.is_real() else z3.IntVal(0))) for q in sums]
            coefs.append(z3.simplify(z3.substitute(e, *z2) - c0, som=True))
        lin = c0
        for s, k in zip(sums, coefs):
            lin = lin + k * T.real(s)
        if sums:
            d = z3.simplify(e - lin, som=True)
            if not (z3.is_rational_value(d) and d.numerator_as_long() == 0) and c.check_sat(e != lin) != z3.unsat:
                return None
        return sums, c0, coefs, bk

    def _pointwise(self, name, tot, rng):
        """prove tot == 0 under rng, expanding row sums linearly"""
        c = self.c
        apps = {}

        def walk(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().name() in c.rowsums:
                apps[t.get_id()] = t
                return
            for ch in t.children():
                walk(ch)
        seen = set()
        r = c.check_sat(rng, tot != 0)
        if r == z3.unsat:
            c.ex.record(Obligation(name, 'discharged', 'z3-linear', path=c.ex.paths))
            return True
        tot0 = tot
        tot, back = opaque_conds(c, tot)
        bk = (lambda t: z3.substitute(t, *back)) if back else (lambda t: t)
        walk(tot)
        if not apps:
            return c.prove(name, SymBool(z3.Implies(rng, tot0 == 0)))
        apps = list(apps.values())
        zs = [(a, z3.RealVal(0) if a.is_real() else z3.IntVal(0)) for a in apps]
        c0 = z3.simplify(z3.substitute(tot, *zs))
        ok = c.prove(name + '/rowconst', SymBool(z3.Implies(rng, bk(c0) == 0)))
        d = None
        inner = z3.RealVal(0)
        for a in apps:
            z2 = [(q, (z3.RealVal(1) if q.is_real() else z3.IntVal(1)) if q.eq(a) else (z3.RealVal(0) if q.is_real() else z3.IntVal(0))) for q in apps]
            k = bk(z3.simplify(z3.substitute(tot, *z2) - c0))
            R, rest, dd, g = c.rowsums[a.decl().name()]
            if d is None:
                d = dd
                j = d.space.register(c.int_const('sumidx'))
                c.saturate()
            inner = inner + k * z3.If(dd.inside(j), T.real(g(tuple(a.children()), j)), z3.RealVal(0))
        ok2 = c.prove(name + '/rowsummand', SymBool(z3.Implies(z3.And(rng, j >= 0, j < d.space.n), inner == 0)))
        return bool(ok) and bool(ok2)

    def _atoms(self, e):
        out, seen = {}, set()

        def walk(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if t.get_id() in self.c.sums:
                out[t.get_id()] = self.c.sums[t.get_id()][0]
            for ch in t.children():
                walk(ch)
        walk(e)
        return list(out.values())

    def loop(self, func, contract):
        """register the contract of the loop in function `func`"""
        self.c.loop_contracts[func] = contract

    def sum_le(self, name, a, b):
        """lemma: a[i] <= b[i] for every i (proved) hence sum(a) <= sum(b) (kept as a fact)"""
        c = self.c
        d = a.dims[0]
        i = d.space.register(c.int_const('k'))
        c.saturate()
        r = c.prove(name, SymBool(z3.Implies(d.inside(i), a.at((i,)) <= b.at((i,)))))
        if r:
            sa, sb = term(a.sum()), term(b.sum())
            c.add(sa <= sb)
        return r

    def sum_lemma(self, name, a, b):
        """prove a == b over sums and keep it as a fact"""
        r = self.sum_eq(name, a, b)
        if r:
            self.c.add(T.t_eq(term(a), term(b)))
        return r


class Concrete(Base):
    symbolic = False

    def __init__(self, values=None, rng=None):
        super().__init__()
        self.values = values
        self.rng = rng or _random.Random(0)
        self.names = {}
        self.log = {}
        self.proved = 0
        self.covers = set()
        self.failures = []

    def setup_modules(self, prefixes=('gnome',)):
        pass

    def _nm(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    def _get(self, name, gen):
        name = self._nm(name)
        if self.values is not None and name in self.values and self.values[name] is not None:
            v = self.values[name]
        else:
            v = gen()
        self.log[name] = v
        return v

    def _rand(self, lo, hi, lo_open=False, hi_open=False):
        r = self.rng
        l = -1000.0 if lo is None else float(lo)
        h = (l + 2000.0 if lo is not None else 1000.0) if hi is None else float(hi)
        m = r.random()
        if m < 0.08 and lo is not None and not lo_open:
            return l
        if m < 0.16 and hi is not None and not hi_open:
            return h
        if m < 0.22 and l < 0 < h:
            return 0.0
        if m < 0.45:
            # small / integer-ish values
            v = float(r.randint(int(math.ceil(l)), int(math.floor(h)))) if math.floor(h) >= math.ceil(l) else r.uniform(l, h)
            if m < 0.35 and l <= 0:
                v = float(r.randint(max(int(math.ceil(l)), -5), min(int(math.floor(h)), 5))) if min(int(math.floor(h)), 5) >= max(int(math.ceil(l)), -5) else v
        elif m < 0.6 and l >= 0 and h > 0:
            lo_ = max(l, h * 1e-9)
            v = math.exp(r.uniform(math.log(lo_), math.log(h)))
        else:
            v = r.uniform(l, h)
        if (lo_open and v <= l) or (hi_open and v >= h):
            v = (l + h) / 2 if m < 0.5 else r.uniform(l + (h - l) * 1e-6, h - (h - l) * 1e-6)
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, gen=None, nice=None):
        v = self._get(name, (lambda: gen(self.rng)) if gen else (lambda: self._rand(*(nice or (lo, hi)), lo_open, hi_open)))
        v = float(v)
        if (lo is not None and (v < lo or (lo_open and v <= lo))) or (hi is not None and (v > hi or (hi_open and v >= hi))):
            raise Discard()
        return v

    def int(self, name, lo=None, hi=None, gen=None, small=None):
        def g():
            if gen:
                return gen(self.rng)
            l = -20 if lo is None else int(lo)
            h = (l + 40) if hi is None else int(hi)
            if small is not None:
                h = builtins.min(h, l + small)
            return self.rng.randint(l, h)
        v = int(self._get(name, g))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard()
        return v

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))

    def choice(self, name, options):
        return options[int(self._get(name, lambda: self.rng.randrange(len(options))))]

    def dim(self, name, lo=0, hi=None, conc=6):
        def g():
            h = lo + conc if hi is None else builtins.min(hi, lo + conc)
            return self.rng.randint(lo, h)
        n = int(self._get(name, g))
        if n > 100000:
            raise Discard()
        return Dim(n, n)

    def array(self, name, dims, dtype=float, lo=None, hi=None, lo_open=False, hi_open=False, choices=None, gen=None, **k):
        shape = tuple(d.n if isinstance(d, Dim) else int(d) for d in dims)
        dt = np.dtype(dtype)

        def g():
            n = int(np.prod(shape)) if shape else 1
            def one():
                if gen:
                    return gen(self.rng)
                if choices is not None:
                    return self.rng.choice(list(choices))
                if dt.kind == 'b':
                    return self.rng.random() < 0.5
                if dt.kind in 'iu':
                    l = -20 if lo is None else int(lo)
                    h = l + 40 if hi is None else int(hi)
                    return self.rng.randint(l, h)
                return self._rand(lo, hi, lo_open, hi_open)
            return {'shape': list(shape), 'data': [one() for _ in range(n)]}
        v = self._get(name, g)
        if isinstance(v, dict):
            if list(v['shape']) != list(shape):
                raise Discard()
            data = v['data']
        else:
            data = v
        data = [float(x) if isinstance(x, Fraction) else x for x in data]
        return np.array(data, dtype=dt).reshape(shape)

    def assume_forall(self, dims, f):
        import itertools
        for ix in itertools.product(*[range(d.n if isinstance(d, Dim) else int(d)) for d in dims]):
            if not f(*ix):
                raise Discard()

    def datetime(self, name, lo=0, hi=None, whole=False):
        v = self._get(name, lambda: self.rng.randint(946684800, 946684800 + 10 * 86400))
        v = Fraction(v)
        try:
            r = EPOCH + _dt.timedelta(seconds=int(v // 1), microseconds=int((v % 1) * 10**6))
        except OverflowError:
            raise Discard()
        if r.year < 1900:
            raise Discard()
        return r

    def timedelta(self, name, lo=None, hi=None, whole=False, lo_open=False):
        v = self.int(name, lo, hi) if whole else self.real(name, lo, hi, lo_open=lo_open)
        try:
            return _dt.timedelta(seconds=v)
        except OverflowError:
            raise Discard()

    def secs(self, x):
        if isinstance(x, _dt.datetime):
            return (x - EPOCH).total_seconds()
        return x.total_seconds()

    def assume(self, cond):
        if not bool(cond):
            raise Discard()

    def prove(self, name, cond, detail='', **k):
        self.proved += 1
        if not bool(cond):
            raise Failed(name, str(detail)[:400])
        return True

    def cover(self, name):
        self.covers.add(name)

    def at(self, a, *ix):
        a = np.asarray(a)
        return a[tuple(ix)].item() if len(ix) == a.ndim else a[tuple(ix)]

    def forall(self, name, dims, f, **k):
        import itertools
        for ix in itertools.product(*[range(d.n if isinstance(d, Dim) else int(d)) for d in dims]):
            self.proved += 1
            if not bool(f(*ix)):
                raise Failed(name, 'at index %r' % (ix,))
        return True

    def forall_sum_eq(self, name, dims, f):
        return self.forall(name, dims, lambda *ix: self.close(*f(*ix)))

    def close(self, a, b, tol=1e-9):
        a, b = float(a), float(b)
        return abs(a - b) <= tol * builtins.max(1.0, abs(a), abs(b))

    def le(self, a, b, tol=1e-9):
        a, b = float(a), float(b)
        return a <= b + tol * builtins.max(1.0, abs(a), abs(b))

    def lt(self, a, b):
        return float(a) < float(b)

    def sum_eq(self, name, a, b, tol=1e-7):
        a, b = float(a), float(b)
        self.proved += 1
        if not abs(a - b) <= tol * builtins.max(1.0, abs(a), abs(b)):
            raise Failed(name, '%r != %r' % (a, b))
        return True

    def sum_lemma(self, name, a, b):
        return True

    def loop(self, func, contract):
        pass
