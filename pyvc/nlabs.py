"""Sound linear abstraction of non-linear arithmetic: products and quotients become uninterpreted
symbols constrained by sign / magnitude axioms.  `unsat` of the abstraction implies `unsat`."""
import z3
from fractions import Fraction
from .terms import const_value, rv

RR = z3.RealSort()
NL = z3.Function('nl*', RR, RR, RR)
NLI = z3.Function('nli*', z3.IntSort(), z3.IntSort(), z3.IntSort())
INV = z3.Function('inv', RR, RR)
IDIV = z3.Function('idiv*', z3.IntSort(), z3.IntSort(), z3.IntSort())
IMOD = z3.Function('imod*', z3.IntSort(), z3.IntSort(), z3.IntSort())


def is_numeral(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def fr(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


class Abstraction:
    def __init__(self, emit):
        self.memo = {}
        self.keep = []
        self.emit = emit               # callback for axioms
        self.nl_used = False
        self.done = set()

    def conv(self, t):
        memo = self.memo
        stack = [(t, False)]
        while stack:
            x, ready = stack.pop()
            k = x.get_id()
            if k in memo:
                continue
            if not ready:
                stack.append((x, True))
                for c in x.children():
                    if c.get_id() not in memo:
                        stack.append((c, False))
                continue
            memo[k] = self.rebuild(x)
            self.keep.append(x)
        return memo[t.get_id()]

    def rebuild(self, x):
        ch = [self.memo[c.get_id()] for c in x.children()]
        if not ch:
            return x
        kind = x.decl().kind()
        if kind == z3.Z3_OP_MUL:
            return self.mul(x, ch)
        if kind == z3.Z3_OP_DIV:
            if is_numeral(ch[1]):
                if fr(ch[1]) == 0:
                    return z3.Function('div0', RR, RR)(ch[0])
                return rv(Fraction(1) / fr(ch[1])) * ch[0] if ch[0].is_real() else ch[0] / ch[1]
            return self.product([ch[0], self.inv(ch[1])])
        if kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not is_numeral(ch[1]):
            self.nl_used = True
            return (IDIV if kind == z3.Z3_OP_IDIV else IMOD)(ch[0], ch[1])
        if kind == z3.Z3_OP_POWER:
            self.nl_used = True
            return z3.Function('pow^', RR, RR, RR)(ch[0] if ch[0].is_real() else z3.ToReal(ch[0]), ch[1] if ch[1].is_real() else z3.ToReal(ch[1]))
        if all(a.eq(b) for a, b in zip(ch, x.children())):
            return x
        return x.decl()(*ch) if kind not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_DISTINCT) else \
            {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_DISTINCT: z3.Distinct}[kind](*ch)

    def mul(self, x, ch):
        return self.product(ch)

    def factors(self, t):
        """-> (coefficient, [atomic factors]) of an already abstracted term"""
        if is_numeral(t):
            return fr(t), []
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            c, f = Fraction(1), []
            for a in t.children():
                c2, f2 = self.factors(a)
                c *= c2
                f += f2
            return c, f
        if k == z3.Z3_OP_UMINUS:
            c, f = self.factors(t.children()[0])
            return -c, f
        if t.decl().eq(NL) or t.decl().eq(NLI):
            a, b = t.children()
            c1, f1 = self.factors(a)
            c2, f2 = self.factors(b)
            return c1 * c2, f1 + f2
        return Fraction(1), [t]

    def product(self, ts):
        c, f = Fraction(1), []
        isint = all(t.is_int() for t in ts)
        for t in ts:
            c2, f2 = self.factors(t)
            c *= c2
            f += f2
        if c == 0:
            return z3.IntVal(0) if isint else z3.RealVal(0)
        if not isint:
            f = [t if t.is_real() else z3.ToReal(t) for t in f]
        f.sort(key=lambda t: t.get_id())
        if not f:
            return rv(c) if not isint else z3.IntVal(int(c))
        p = f[0]
        for q in f[1:]:
            p = self.nl(p, q, isint)
        if c == 1:
            return p
        return (z3.IntVal(int(c)) if isint else z3.RealVal(str(c))) * p

    def nl(self, a, b, isint):
        self.nl_used = True
        p = (NLI if isint else NL)(a, b)
        k = p.get_id()
        if k in self.done:
            return p
        self.done.add(k)
        self.keep.append(p)
        I, A, O = z3.Implies, z3.And, z3.Or
        ax = [I(O(a == 0, b == 0), p == 0), I(A(a > 0, b > 0), p > 0), I(A(a < 0, b < 0), p > 0),
              I(A(a > 0, b < 0), p < 0), I(A(a < 0, b > 0), p < 0)]
        for x, y in ((a, b), (b, a)):
            ax += [I(A(y >= 0, y <= 1, x >= 0), p <= x), I(A(y >= 0, y <= 1, x <= 0), p >= x),
                   I(A(y >= 1, x >= 0), p >= x), I(A(y >= 1, x <= 0), p <= x), I(y == 1, p == x), I(y == -1, p == -x)]
        # quotient: a * inv(b)
        for x, y in ((a, b), (b, a)):
            if y.decl().eq(INV):
                d = y.children()[0]
                ax += [I(d > 0, A((x <= d) == (p <= 1), (x >= d) == (p >= 1))),
                       I(d < 0, A((x <= d) == (p >= 1), (x >= d) == (p <= 1)))]
                if x.eq(d):
                    ax += [I(d != 0, p == 1)]
        for q in ax:
            self.emit(q)
        return p

    def inv(self, b):
        self.nl_used = True
        b = b if b.is_real() else z3.ToReal(b)
        c, f = self.factors(b)
        if len(f) > 1 or (f and c != 1):
            # 1/(c x y) = (1/c) inv(x) inv(y)
            return self.product([rv(Fraction(1) / c)] + [self.inv1(x if x.is_real() else z3.ToReal(x)) for x in f])
        return self.inv1(b)

    def inv1(self, b):
        if b.decl().eq(INV):
            pass
        i = INV(b)
        k = i.get_id()
        if k in self.done:
            return i
        self.done.add(k)
        self.keep.append(i)
        I = z3.Implies
        for q in (I(b > 0, i > 0), I(b < 0, i < 0), I(b >= 1, i <= 1), I(z3.And(b > 0, b <= 1), i >= 1), I(b == 1, i == 1)):
            self.emit(q)
        return i
