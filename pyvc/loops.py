"""Loop contracts driven through the iterator protocol.

A `for` loop of /repo over a symbolic range / abstract collection is cut with an invariant: the
iterator first proves the invariant, havocs the loop state, assumes the invariant at an arbitrary
iteration k, and either ends the loop (k == n) or yields element k; when asked for the next element it
proves the invariant at k+1 and ends the path.  The state is named by the contract (object attributes,
arrays and locals of the frame running the loop)."""
import ctypes
import sys
import z3
from . import terms as T
from .terms import Sym, SymBool, Unsupported, PathEnd, ctx, term


class LoopContract:
    def __init__(self, name, inv, havoc, exit_only=False):
        self.name, self.inv, self.havoc = name, inv, havoc


def set_locals(frame, new):
    frame.f_locals.update(new)
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


class LoopIter:
    def __init__(self, n, elem, contract):
        self.n, self.elem, self.c = n, elem, contract
        self.stage = 0

    def __iter__(self):
        return self

    def __next__(self):
        fr = sys._getframe(1)
        c = ctx()
        n = term(self.n)
        if self.stage == 0:
            c.prove(self.c.name + '/init', self.c.inv(fr.f_locals, Sym(z3.IntVal(0))))
            new = self.c.havoc(fr.f_locals)
            if new:
                set_locals(fr, new)
            k = c.int_const('iter')
            self.k = k
            c.assume(SymBool(z3.And(k >= 0, k <= n)))
            c.assume(self.c.inv(fr.f_locals, Sym(k)))
            self.stage = 1
            if c.branch(k < n):
                return self.elem(Sym(k))
            raise StopIteration
        c.prove(self.c.name + '/preserved', self.c.inv(fr.f_locals, Sym(self.k + 1)))
        raise PathEnd()


class ElementLoop:
    """Contract of a loop that handles element k of some output arrays in iteration k.
    arrays(locals) -> list of output arrays;  post(locals, arrays, j) -> what holds of element j afterwards;
    after(locals, arrays): ghost code (lemmas) run once at loop exit."""
    def __init__(self, name, arrays, post, after=None):
        self.name, self.arrays, self.post, self.after = name, arrays, post, after


class IdxSym(Sym):
    """position of an element in a (possibly masked) axis: `root` is (axis, index in the underlying space)"""
    __slots__ = ('root',)

    def __init__(self, t, root):
        Sym.__init__(self, t)
        self.root = root


class ElementLoopIter:
    """Cut point: an arbitrary set `done` of elements has been handled (their post holds, the others are as before the
    loop); one more element is handled and must satisfy post without touching the others; at exit every element is done.
    The order of visits is not used, so the rule covers masked axes too."""
    def __init__(self, dom, elem, contract):
        self.dom, self.elem, self.con = dom, elem, contract
        self.stage = 0

    def __iter__(self):
        return self

    def __next__(self):
        from . import arrays as A
        fr = sys._getframe(1)
        c = ctx()
        dom, space = self.dom, self.dom.space
        if self.stage == 0:
            self.stage = 1
            try:
                self.arrs = self.con.arrays(fr.f_locals)
            except KeyError as e:
                raise Unsupported('loop contract %s: %s' % (self.con.name, e))
            r = space.register(c.int_const('iter'))
            self.k = r
            done = z3.Function(c.fresh('done'), z3.IntSort(), z3.BoolSort())
            self.heads = []
            for a in self.arrs:
                if a.ndim != 1 or not A.same_dom(a.dims[0], dom):
                    raise Unsupported('element loop: output array is not aligned with the loop')
                old = a.snapshot()
                F = z3.Function(c.fresh('loopout'), z3.IntSort(), old((r,)).sort())
                a[...] = A.SymArray.make(a.dims, (lambda ix, F=F, old=old: z3.If(done(ix[0]), F(ix[0]), old(ix))), a.dtype)
                self.heads.append(a.snapshot())
            loc = dict(fr.f_locals)
            heads = [A.SymArray.make(a.dims, h, a.dtype) for a, h in zip(self.arrs, self.heads)]
            c.universal(space, lambda j: z3.Implies(z3.And(done(j), dom.inside(j)), T.bterm(self.con.post(loc, heads, j))))
            if c.branch(c.bool_const('again')):
                c.assume(SymBool(z3.And(dom.inside(r), z3.Not(done(r)))))
                pos = r if dom.pred is None else c.int_const('pos')
                return self.elem(IdxSym(pos, (dom, r)))
            c.universal(space, lambda j: z3.Implies(dom.inside(j), done(j)))
            if self.con.after:
                self.con.after(loc, self.arrs)
            raise StopIteration
        loc = dict(fr.f_locals)
        c.saturate()
        c.prove(self.con.name + '/element-post', SymBool(T.bterm(self.con.post(loc, self.arrs, self.k))))
        j = space.register(c.int_const('other'))
        c.saturate()
        same = [a.at((j,)) == h((j,)) for a, h in zip(self.arrs, self.heads)]
        c.prove(self.con.name + '/frame', SymBool(z3.Implies(z3.And(dom.inside(j), j != self.k), z3.And(*same))))
        raise PathEnd()


def find_contract(depth=2):
    """the loop contract registered for the function (by name) that runs the loop"""
    c = ctx()
    fr = sys._getframe(depth)
    con = c.loop_contracts.get(fr.f_code.co_name)
    if con is None:
        raise Unsupported('loop over a symbolic length in %s without a loop contract' % fr.f_code.co_name)
    return con


def start(con, dom, elem):
    if isinstance(con, ElementLoop):
        return ElementLoopIter(dom, elem, con)
    if dom.pred is not None:
        raise Unsupported('ordered loop over a masked axis')
    return LoopIter(Sym(dom.length(), dom=dom), elem, con)


class SymRange:
    """range() with symbolic bounds; needs a loop contract registered by the harness"""
    def __init__(self, *a):
        self.a = a
        if len(a) == 1 or (len(a) == 2 and isinstance(a[0], int) and a[0] == 0):
            self.n = a[-1]
        else:
            self.n = None

    def _sym_len_(self):
        return self.n

    def __iter__(self):
        con = find_contract()
        if self.n is None or not (isinstance(self.n, Sym) and self.n.dom is not None):
            raise Unsupported('symbolic range is not an array length')
        return start(con, self.n.dom, lambda k: k)


class SymSeq:
    """zip()/enumerate() over arrays of symbolic length"""
    def __init__(self, dom, elem):
        self.dom, self.elem = dom, elem

    def __iter__(self):
        con = find_contract()
        return start(con, self.dom, self.elem)


def _symlen(x):
    from .arrays import SymArray, Dom
    if isinstance(x, SymArray) and x.dims and isinstance(x.dims[0], Dom):
        return x.dims[0]
    if isinstance(x, SymSeq):
        return x.dom
    return None


def s_zip(*a, **k):
    ds = [_symlen(x) for x in a]
    if not any(d is not None for d in ds):
        return zip(*a, **k)
    from .arrays import same_dom
    d0 = [d for d in ds if d is not None][0]
    for d in ds:
        if d is None or not same_dom(d, d0):
            raise Unsupported('zip of axes not provably equal')
    get = [(lambda j, x=x: x.elem(j)) if isinstance(x, SymSeq) else (lambda j, x=x: x[j]) for x in a]
    return SymSeq(d0, lambda j: tuple(g(j) for g in get))


def s_enumerate(x, start=0):
    d = _symlen(x)
    if d is None:
        return enumerate(x, start)
    get = x.elem if isinstance(x, SymSeq) else (lambda j: x[j])
    return SymSeq(d, lambda j: (j + start if start else j, get(j)))
