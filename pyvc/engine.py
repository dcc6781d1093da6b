"""Verification-condition generation by path exploration, and discharge by z3 (cvc5 as second back end).

One `Ctx` is one path of one harness.  `explore` re-executes the harness until every feasible
combination of branch decisions was visited.  Obligations are (path condition + facts) => goal."""
import os
import subprocess
import sys
import tempfile
import time
import traceback
import z3
from . import terms
from .terms import SymBool, Sym, PathEnd, ProofBudget, Unsupported, bterm, term
from .nlabs import Abstraction

CVC5 = '/opt/veriftools/bin/cvc5'
for _p in ('/usr/bin/cvc5', '/usr/local/bin/cvc5', '/opt/veriftools/bin/cvc5'):
    if os.path.exists(_p):
        CVC5 = _p
        break


class Space:
    """Root index set {0..n-1} of an array axis of symbolic length."""
    count = 0

    def __init__(self, n, name='S', links=()):
        Space.count += 1
        self.n = n                     # z3 Int term
        self.name = '%s%d' % (name, Space.count)
        self.idx = {}                  # ast id -> index term
        self.idx1 = {}                 # secondary (witness) index terms, instantiated only on demand
        self._gen = None
        self.links = list(links)       # (other space, fn: other index -> index here)

    def register(self, t):
        t = z3.simplify(t)
        if t.get_id() not in self.idx:
            self.idx[t.get_id()] = t
        return t

    def witness(self, t):
        t = z3.simplify(t)
        self.idx1[t.get_id()] = t
        return t

    def gen(self, c):
        """one generic index per space, for element-wise lemmas"""
        if self._gen is None:
            self._gen = self.register(c.int_const('gen'))
        return self._gen

    def candidates(self, level=0, seen=None):
        seen = seen or set()
        if id(self) in seen:
            return {}
        seen.add(id(self))
        out = dict(self.idx)
        if level:
            out.update(self.idx1)
        else:
            for k in self.idx1:
                out.pop(k, None)
        for sp, fn in self.links:
            for t in list(sp.candidates(level, seen).values()):
                u = z3.simplify(fn(t))
                out.setdefault(u.get_id(), u)
        return out


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'detail', 'values', 'path')

    def __init__(self, name, status, backend='', t=0.0, values=None, detail='', path=0):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.values, self.detail, self.path = values, detail, path
        self.model = None


class Ctx:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.decisions = []
        self.alts = []
        self.asserted = []             # every hypothesis of the path, in order
        self.full_n = 0
        self.level = 0
        self.full_lvl = False
        self._full = None
        self.lin = z3.Solver()
        self.lin.set('timeout', ex.branch_timeout)
        self.abs = Abstraction(self._emit)
        self.pending = []
        self.pc = []
        self.facts = {}
        self.factlist = []
        self.keep = []
        self.universals = []           # (space, fn, done-set)
        self.spaces = []
        self.inputs = []               # (name, kind, payload) in creation order
        self.names = {}
        self.sums = {}                 # const id -> (const, dims, fn)
        self.rowsums = {}
        self.named = {}
        self.loop_contracts = {}
        self.fresh_n = 0
        self.total_division = False
        self.facts_off = 0
        self.notes = []

    # -- naming
    def fresh(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def int_const(self, base):
        return z3.Int(self.fresh(base))

    def real_const(self, base):
        return z3.Real(self.fresh(base))

    def bool_const(self, base):
        return z3.Bool(self.fresh(base))

    # -- facts
    def fact(self, key, keepalive, mk):
        if key in self.facts:
            return
        self.facts[key] = True
        self.keep.append(keepalive)
        for f in mk():
            self.add(f)

    def _emit(self, ax):
        self.pending.append(ax)

    def _lin_add(self, f):
        g = self.abs.conv(f)
        p, self.pending = self.pending, []
        for q in p:
            self.lin.add(q)
        self.lin.add(g)

    def add(self, f):
        self.factlist.append(f)
        self.asserted.append(f)
        self._lin_add(f)

    def full(self):
        """the solver holding every hypothesis unabstracted, kept in step lazily"""
        if self._full is None:
            self._full = z3.Solver()
            self._full.set('timeout', self.ex.branch_timeout)
        while self.full_n < len(self.asserted):
            self._full.add(self.asserted[self.full_n])
            self.full_n += 1
        return self._full

    def space(self, n, name='S', links=()):
        s = Space(n, name, links)
        self.spaces.append(s)
        return s

    def universal(self, space, fn):
        """fn(index term) -> z3 Bool holds for every index 0<=i<n of the space"""
        self.universals.append((space, fn, set()))

    def saturate(self, rounds=4, cap=None):
        n0 = len(self.asserted)
        for _ in range(rounds):
            new = False
            for space, fn, done in list(self.universals):
                cands = space.candidates(self.level)
                if len(cands) > 400:
                    continue
                for k, t in list(cands.items()):
                    if k in done:
                        continue
                    if cap and len(self.asserted) - n0 > cap:
                        self.level = 0
                        return
                    done.add(k)
                    self.keep.append(t)
                    new = True
                    f = fn(t)
                    self.add(z3.Implies(z3.And(t >= 0, t < space.n), f))
            if not new:
                return

    # -- branching
    def _lin_check(self, extra, timeout, model=False):
        """check on the linear abstraction; axioms created for `extra` survive the scope"""
        gs = [self.abs.conv(e) for e in extra]
        p, self.pending = self.pending, []
        for q in p:
            self.lin.add(q)
        self.lin.push()
        try:
            for g in gs:
                self.lin.add(g)
            self.lin.set('timeout', timeout)
            t0 = time.time()
            r = self.lin.check()
            self.ex.solver_time += time.time() - t0
            m = None
            if r == z3.sat and model and not self.abs.nl_used:
                m = self._small_model(self.lin)
            return r, m
        finally:
            self.lin.pop()

    def check_sat(self, *extra, timeout=None, full=False):
        """unsat is exact; without `full`, sat may be an artefact of the linear abstraction (over-approximation)"""
        self.saturate()
        timeout = timeout or self.ex.branch_timeout
        r, _ = self._lin_check(extra, timeout)
        if r == z3.unsat or not full:
            return r
        if r == z3.sat and not self.abs.nl_used:
            return r
        s = self.full()
        s.push()
        try:
            for e in extra:
                s.add(e)
            s.set('timeout', timeout)
            t0 = time.time()
            r = s.check()
            self.ex.solver_time += time.time() - t0
            return r
        finally:
            s.pop()

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.ex.tick()
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.assume_term(cond if d else z3.Not(cond))
            return d
        st = self.check_sat(cond)
        if st == z3.unsat:
            self.decisions.append(False)
            self.assume_term(z3.Not(cond))
            # if both are infeasible the path itself is infeasible: harmless
            return False
        sf = self.check_sat(z3.Not(cond))
        if sf == z3.unsat:
            self.decisions.append(True)
            self.assume_term(cond)
            return True
        self.ex.push(self.decisions + [False])
        self.decisions.append(True)
        self.assume_term(cond)
        return True

    def assume_term(self, t):
        self.pc.append(t)
        self.asserted.append(t)
        self._lin_add(t)

    def assume(self, cond):
        t = z3.simplify(bterm(cond))
        if z3.is_true(t):
            return
        self.assume_term(t)
        if z3.is_false(t):
            raise PathEnd()

    def unique_value(self, t):
        self.saturate()
        s = self.full()
        s.set('timeout', self.ex.branch_timeout)
        if s.check() != z3.sat:
            return None
        v = s.model().eval(t, model_completion=True)
        if self.check_sat(t != v) == z3.unsat:
            return v.as_long() if z3.is_int_value(v) else None
        return None

    def feasible(self):
        return self.check_sat()

    # -- obligations
    def prove(self, name, goal, timeout=None):
        self.ex.tick()
        timeout = timeout or self.ex.prove_timeout
        g = z3.simplify(bterm(goal))
        if z3.is_true(g):
            self.ex.record(Obligation(name, 'discharged', 'simplifier', 0.0, path=self.ex.paths))
            return True
        self.saturate()
        t0 = time.time()
        neg = z3.Not(g)
        values, backend = None, 'z3-linear'
        r, values = self._lin_check([neg], min(timeout, 5000), model=True)
        if r != z3.unsat and self.abs.nl_used and self._som_check(neg, 4000) == z3.unsat:
            r, backend = z3.unsat, 'z3-linear-som'
        if r != z3.unsat and self.level == 0 and any(sp.idx1 for sp in self.spaces):
            self.level = 1
            self.saturate(cap=4000)
            r, values = self._lin_check([neg], min(timeout, 8000), model=True)
        if r == z3.sat and self.abs.nl_used:
            r = z3.unknown
        if r == z3.unknown and self.abs.nl_used:
            if self._som_check(neg, min(timeout, 8000)) == z3.unsat:
                r, backend = z3.unsat, 'z3-linear-som'
        smt = None
        if r == z3.unknown:
            s = self.full()
            s.push()
            s.add(neg)
            s.set('timeout', timeout)
            r, backend = s.check(), 'z3-nra'
            if r == z3.sat:
                values = self._small_model(s)
            if r == z3.unknown:
                smt = s.to_smt2()
                r2, m2 = self._retry(s.assertions(), timeout)
                if r2 is not None:
                    r, values, backend = r2, m2, 'z3-nra2'
            s.pop()
        if r == z3.unknown and smt is not None:
            rc = cvc5(smt, timeout)
            if rc == 'unsat':
                r, backend = z3.unsat, 'cvc5'
        if r == z3.sat and self.__dict__.get('close_atoms'):
            # equal up to rounding of folded constants?
            g2 = z3.substitute(bterm(goal), *[(x, y) for x, y in self.close_atoms if not z3.is_true(x) and not z3.is_false(x)])
            if self._quick_unsat(z3.Not(g2), 8000):
                r, backend = z3.unsat, 'z3-tolerance'
        dt = time.time() - t0
        if r == z3.unsat:
            self.ex.record(Obligation(name, 'discharged', backend, dt, path=self.ex.paths))
            return True
        if r == z3.sat:
            self.ex.record(Obligation(name, 'refuted', backend, dt, values=values,
                                      detail=str(z3.simplify(g))[:1500], path=self.ex.paths))
            return False
        self.ex.record(Obligation(name, 'unknown', 'z3+cvc5', dt, detail=str(g)[:6000], path=self.ex.paths))
        return None

    def _quick_unsat(self, neg, timeout):
        if z3.is_false(z3.simplify(neg)):
            return True
        if self._lin_check([neg], timeout)[0] == z3.unsat or self._som_check(neg, timeout) == z3.unsat:
            return True
        s = self.full()
        s.push()
        s.add(neg)
        s.set('timeout', timeout)
        r = s.check()
        s.pop()
        return r == z3.unsat

    def _som_check(self, neg, timeout):
        """abstraction after expansion to sums of monomials (polynomial identities)"""
        s = z3.Solver()
        s.set('timeout', timeout)
        ab = Abstraction(s.add)
        for f in self.asserted + [neg]:
            s.add(ab.conv(z3.simplify(f, som=True)))
        t0 = time.time()
        r = s.check()
        self.ex.solver_time += time.time() - t0
        return r

    def _retry(self, assertions, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        s.set('smt.arith.solver', 2)
        s.add(*assertions)
        t0 = time.time()
        r = s.check()
        self.ex.solver_time += time.time() - t0
        if r == z3.unsat:
            return r, None
        if r == z3.sat:
            return r, self.concretise(s.model())
        return None, None

    def _small_model(self, s):
        m = s.model()
        dims = [x for x in self.inputs if x[1] == 'dim']
        best = m
        for lim in (3, 8):
            if not dims:
                break
            s.push()
            for _, _, c in dims:
                s.add(c <= lim)
            s.set('timeout', 3000)
            if s.check() == z3.sat:
                best = s.model()
                s.pop()
                break
            s.pop()
        try:
            return self.concretise(best)
        except Exception as e:                                     # noqa
            return {'__error__': repr(e)}

    def concretise(self, m):
        from fractions import Fraction

        def val(t):
            v = m.eval(t, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return Fraction(v.numerator_as_long(), v.denominator_as_long())
            if z3.is_algebraic_value(v):
                a = v.approx(20)
                return Fraction(a.numerator_as_long(), a.denominator_as_long())
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            return None
        out = {}
        for name, kind, p in self.inputs:
            if kind in ('real', 'int', 'bool', 'dim', 'choice'):
                out[name] = val(p)
            elif kind == 'array':
                dims, fn = p
                sizes = [d if isinstance(d, int) else val(d.space.n) for d in dims]
                tot = 1
                for z in sizes:
                    tot *= z
                if tot > 20000:
                    raise ValueError('counter-model too large')
                import itertools
                flat = [val(fn(tuple(z3.IntVal(k) for k in ix), raw=True))
                        for ix in itertools.product(*[range(z) for z in sizes])]
                out[name] = {'shape': sizes, 'data': flat}
        return out


def cvc5(smt, timeout):
    if not os.path.exists(CVC5):
        return 'unknown'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(smt)
        p = f.name
    try:
        r = subprocess.run([CVC5, '--tlimit=%d' % timeout, '--nl-ext-tplanes', p], capture_output=True, text=True,
                           timeout=timeout / 1000.0 + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
        return o
    except Exception:                                              # noqa
        return 'unknown'
    finally:
        os.unlink(p)


class Explorer:
    def __init__(self, max_paths=2000, time_budget=240.0, branch_timeout=1500, prove_timeout=15000):
        self.max_paths = max_paths
        self.time_budget = time_budget
        self.branch_timeout = branch_timeout
        self.prove_timeout = prove_timeout
        self.work = [[]]
        self.paths = 0
        self.obls = []
        self.solver_time = 0.0
        self.undecided = []            # (reason)
        self.path_exceptions = []      # (exception, values)
        self.reached = set()
        self.t0 = time.time()

    def tick(self):
        if time.time() - self.t0 > self.time_budget:
            raise ProofBudget('time budget')

    def push(self, d):
        self.work.append(d)

    def record(self, o):
        self.obls.append(o)

    def run(self, harness, make_backend):
        while self.work:
            if self.paths >= self.max_paths:
                self.undecided.append('path limit %d' % self.max_paths)
                break
            prefix = self.work.pop()
            self.paths += 1
            c = Ctx(self, prefix)
            terms.cur = c
            B = make_backend(c)
            try:
                harness(B)
                if c.feasible() != z3.unsat:
                    self.reached.add('end')
            except PathEnd:
                pass
            except Unsupported as e:
                if c.feasible() != z3.unsat:
                    self.undecided.append('unsupported: %s @ %s' % (e, _where(e)))
            except ProofBudget as e:
                self.undecided.append('budget: %s' % e)
                break
            except Exception as e:                                 # noqa
                c.level = 1
                if c.check_sat(timeout=8000, full=True) == z3.sat:
                    values = None
                    c.saturate()
                    fs = c.full()
                    if fs.check() == z3.sat:
                        values = c._small_model(fs)
                    self.path_exceptions.append((type(e).__name__ + ': ' + str(e)[:300], _where(e), values))
                elif c.check_sat(timeout=8000, full=True) != z3.unsat:
                    self.undecided.append('exception on a path of unknown feasibility: %r' % e)
            finally:
                B.cleanup()
                terms.cur = None


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/pyvc/' not in f.filename] or tb
    f = fr[-1]
    return '%s:%s %s' % (f.filename.split('/gnome/')[-1], f.lineno, f.line)
