"""Runs the functions of a Cython file of /repo as Python, extracted mechanically from the current source on every run.

What the extraction drops: C type declarations and casts (integers become mathematical integers), decorators, sizes in
allocations.  A variable whose address is taken becomes a cell; a pointer is the object it points to.  Everything else --
every assignment, condition, call and loop -- is the text of the file.  `while` loops are handed to the loop contracts of
the harness (without a contract they run as they are)."""
import ast
import os
import re
import textwrap
from . import native, shims
from .terms import Sym, SymBool, Unsupported, PathEnd, ctx, wrap, term, t_abs

TYPE = r'(?:unsigned\s+|signed\s+|const\s+)*[A-Za-z_][\w.]*(?:\[[^\]]*\])?(?:\s*\*+|\s+\**)\s*'


class Mem(dict):
    """allocated memory: what is read must have been written"""
    def __missing__(self, k):
        raise Unsupported('memory read before it was written')


def split(s, sep=','):
    out, cur, depth = [], '', 0
    for c in s:
        if c in '([{':
            depth += 1
        if c in ')]}':
            depth -= 1
        if c == sep and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def strip_comment(line):
    q = None
    for i, c in enumerate(line):
        if q:
            if c == q:
                q = None
        elif c in '"\'':
            q = c
        elif c == '#':
            return line[:i].rstrip()
    return line.rstrip()


def drop_docstrings(src):
    return re.sub(r'("""|\'\'\')(.*?)\1', '0', src, flags=re.S)


def block(src, name):
    """source lines of the function `name`"""
    lines = src.split('\n')
    for i, l in enumerate(lines):
        if re.match(r'(?:cdef|cpdef|def)\b[^=\n]*?\b%s\s*\(' % re.escape(name), l):
            break
    else:
        raise Unsupported('no function %s' % name)
    j, depth, head = i, 0, ''
    while True:
        t = strip_comment(lines[j])
        depth += t.count('(') + t.count('[') - t.count(')') - t.count(']')
        head += ' ' + t.strip()
        j += 1
        if depth == 0 and t.rstrip().endswith(':'):
            break
        if j >= len(lines):
            raise Unsupported('header of %s' % name)
    body = []
    while j < len(lines) and (not lines[j].strip() or lines[j][0] in ' \t' or lines[j].lstrip().startswith('#')):
        body.append(strip_comment(lines[j]))
        j += 1
    return head, body


def params(head, name):
    a = head[head.index('(', head.index(name)) + 1: head.rindex(')')]
    out = []
    for p in split(a):
        p = re.sub(r'\bnot None\b', '', p).strip()
        if not p:
            continue
        default = None
        if '=' in p and '[' not in p.split('=')[0]:
            p, default = [x.strip() for x in p.split('=', 1)]
        out.append(re.findall(r'[A-Za-z_]\w*', p)[-1] + ('=' + default if default else ''))
    return out


def join_lines(body):
    """logical lines (brackets may span lines)"""
    out, cur, depth = [], '', 0
    for l in body:
        if not cur:
            cur = l
        else:
            cur += ' ' + l.strip()
        depth += sum(l.count(c) for c in '([{') - sum(l.count(c) for c in ')]}')
        if depth <= 0:
            out.append(cur)
            cur, depth = '', 0
    if cur:
        out.append(cur)
    return out


def plain(line):
    ind = line[:len(line) - len(line.lstrip())]
    t = line.strip()
    t = re.sub(r'<\s*[\w.]+\s*\**\s*>\s*', '', t)
    t = re.sub(r'\bsizeof\s*\([^()]*\)', '1', t)
    t = re.sub(r'&\s*([A-Za-z_]\w*)\s*\[\s*0\s*(?:,\s*0\s*)*\]', r'_ptr(\1)', t)
    t = re.sub(r'(?<![\w\])\s])\s*&\s*([A-Za-z_]\w*)', r' _addr(\1)', t)
    t = re.sub(r'([(,])\s*&\s*([A-Za-z_]\w*)', r'\1 _addr(\2)', t)
    if t.startswith('cdef '):
        rest = re.sub(r'^cdef\s+' + TYPE, '', t)
        st = [d.strip().lstrip('*') for d in split(rest) if '=' in d]
        return ind + ('; '.join(st) if st else 'pass')
    return ind + t if t else ''


class Rewrite(ast.NodeTransformer):
    def __init__(self, cells, fn):
        self.cells, self.fn, self.k = cells, fn, 0

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == '_addr':
            return n.args[0]
        return self.generic_visit(n)

    def visit_Name(self, n):
        if n.id in self.cells:
            return ast.copy_location(ast.Subscript(value=ast.Name(id=n.id, ctx=ast.Load()), slice=ast.Constant(0), ctx=n.ctx), n)
        return n

    def visit_Return(self, n):
        # the harness sees the locals at every return (ghost)
        n = self.generic_visit(n)
        call = ast.Call(func=ast.Name(id='_ret', ctx=ast.Load()), args=[ast.Constant(self.fn), ast.Call(func=ast.Name(id='locals', ctx=ast.Load()), args=[], keywords=[]), n.value or ast.Constant(None)], keywords=[])
        return ast.copy_location(ast.Return(value=call), n)

    def visit_While(self, n):
        if n.orelse:
            raise Unsupported('while/else')
        k = self.k
        self.k += 1
        n = self.generic_visit(n)
        test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])
        it = ast.Call(func=ast.Name(id='_while', ctx=ast.Load()), args=[ast.Constant('%s/while%d' % (self.fn, k))], keywords=[])
        return ast.copy_location(ast.For(target=ast.Name(id='_turn', ctx=ast.Store()), iter=it, body=[test] + n.body, orelse=[]), n)


def to_python(src, name):
    head, body = block(drop_docstrings(src), name)
    text = 'def %s(%s):\n' % (name, ', '.join(params(head, name))) + '\n'.join(plain(l) for l in join_lines(textwrap.dedent('\n'.join(['    ' * 0 + x for x in body])).split('\n')) for l in ['    ' + l if l.strip() else '']) + '\n'
    try:
        tree = ast.parse(text)
    except SyntaxError as e:
        raise Unsupported('%s does not come out as Python: %s' % (name, e))
    fn = tree.body[0]
    cells = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == '_addr':
            if not isinstance(x.args[0], ast.Name):
                raise Unsupported('address of an expression')
            cells.add(x.args[0].id)
    Rewrite(cells, name).visit(fn)
    fn.body[:0] = [ast.parse('%s = _cell()' % c).body[0] for c in sorted(cells)]
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


class Cell1:
    """a C variable whose address is passed on"""
    def __init__(self):
        self.v = None

    def __getitem__(self, i):
        if i != 0 or self.v is None:
            raise Unsupported('C variable read before it was written')
        return self.v

    def __setitem__(self, i, v):
        if i != 0:
            raise Unsupported('write beside a C variable')
        self.v = v


class Div:
    def __init__(self, q):
        self.quot = q


def c_div(a, b):
    from .terms import t_cdiv
    if isinstance(a, Sym) or isinstance(b, Sym):
        return Div(wrap(t_cdiv(term(a), term(b))))
    a, b = int(a), int(b)
    q = abs(a) // abs(b)
    return Div(q if (a < 0) == (b < 0) else -q)


class Module:
    """the extracted functions, calling each other (or the contracts put in their place) by name"""
    def __init__(self, path, names, extra=None, symbolic=True):
        p = os.path.join(native.REPO, 'py_gnome', path)
        if not os.path.exists(p):
            raise Unsupported('no file ' + path)
        src = open(p).read().replace('\t', '    ')
        self.loops = {}
        self.on_return = {}
        self.g = g = dict(_while=self._while, _ret=self._ret, _cell=Cell1, _ptr=lambda a: a, PyMem_Malloc=lambda n: Mem(), PyMem_Free=lambda p: None, div=c_div, abs=lambda x: wrap(t_abs(term(x))) if isinstance(x, Sym) else abs(x))
        if symbolic:
            g.update({k: v for k, v in shims.BUILTINS.items()})
            g['range'] = self._range
        g.update(extra or {})
        self.source = {}
        for n in names:
            self.source[n] = to_python(src, n)
            exec(compile(self.source[n], '<%s from %s>' % (n, os.path.basename(path)), 'exec'), g)

    def __getitem__(self, n):
        return self.g[n]

    def _while(self, key):
        con = self.loops.get(key)
        if con is None:
            def plain_loop():
                k = 0
                while True:
                    k += 1
                    if k > 100000:
                        raise Unsupported('loop without end')
                    yield k
            return plain_loop()
        return WhileIter(con)

    def _ret(self, fn, loc, v):
        f = self.on_return.get(fn)
        if f:
            f(loc, v)
        return v

    def _range(self, *a):
        vals = [x for x in a if isinstance(x, Sym)]
        if not vals:
            return range(*a)
        import sys
        key = sys._getframe(1).f_code.co_name
        cons = self.loops.get(key + '/for')
        if cons is None:
            raise Unsupported('loop over a symbolic range in %s has no contract' % key)
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        return Dispatch(cons, lo, hi)


class WhileContract:
    """inv(locals) -> [(name, condition)], havoc(locals) -> new values of locals (it may also change objects in place),
    before(locals): ghost code at the start of the arbitrary turn, after(locals): ghost code at its end,
    variant(locals): decreases in every turn and is never negative"""
    def __init__(self, name, inv, havoc, after=None, variant=None):
        self.name, self.inv, self.havoc, self.after, self.variant = name, inv, havoc, after, variant


class WhileIter:
    def __init__(self, con):
        self.con, self.stage = con, 0

    def __iter__(self):
        return self

    def __next__(self):
        import sys
        from .loops import set_locals
        fr = sys._getframe(1)
        c, con = ctx(), self.con
        if self.stage == 0:
            for nm, x in con.inv(fr.f_locals):
                c.prove('%s:starts:%s' % (con.name, nm), x)
            new = con.havoc(fr.f_locals)
            if new:
                set_locals(fr, new)
            for nm, x in con.inv(fr.f_locals):
                c.assume(x)
            self.stage = 1
            self.v0 = con.variant(fr.f_locals) if con.variant else None
            return 0
        if con.after:
            con.after(fr.f_locals)
        for nm, x in con.inv(fr.f_locals):
            c.prove('%s:kept:%s' % (con.name, nm), x)
        if con.variant:
            from .terms import And
            v1 = con.variant(fr.f_locals)
            c.prove('%s:ends' % con.name, And(self.v0 > v1, self.v0 >= 0))
        raise PathEnd()


class Dispatch:
    """finds the loop's contract from the locals at its start"""
    def __init__(self, cons, lo, hi):
        self.a = (cons, lo, hi)

    def __iter__(self):
        import sys
        cons, lo, hi = self.a
        con = cons(dict(sys._getframe(1).f_locals))
        return EachIter(con, lo, hi) if isinstance(con, EachContract) else RangeIter(con, lo, hi)


class RangeContract:
    """for k in range(lo, hi): inv(locals, k): holds when lo..k-1 have been handled; havoc(locals): as above; depth: the
    contracts of nested loops are told apart by the loop variable not yet bound, in order"""
    def __init__(self, name, inv, havoc=None):
        self.name, self.inv, self.havoc = name, inv, havoc


class RangeIter:
    def __init__(self, cons, lo, hi):
        self.cons, self.lo, self.hi, self.stage = cons, lo, hi, 0

    def __iter__(self):
        return self

    def __next__(self):
        import sys
        from .loops import set_locals
        fr = sys._getframe(1)
        c = ctx()
        if self.stage == 0:
            con = self.con = self.cons
            lo, hi = self.lo, self.hi
            import z3
            for nm, x in con.inv(fr.f_locals, lo):
                c.prove('%s:starts:%s' % (con.name, nm), x)
            new = con.havoc(fr.f_locals) if con.havoc else None
            if new:
                set_locals(fr, new)
            self.k = k = Sym(c.int_const('k'))
            from .terms import And, Or
            c.assume(k >= lo)
            c.assume(Or(k <= hi, k == lo))
            for nm, x in con.inv(fr.f_locals, k):
                c.assume(x)
            self.stage = 1
            if bool(k < hi):
                return k
            raise StopIteration
        for nm, x in self.con.inv(fr.f_locals, self.k + 1):
            c.prove('%s:kept:%s' % (self.con.name, nm), x)
        raise PathEnd()


class EachContract:
    """for i in range(n) where every turn handles its own element: one arbitrary turn (index pick(loc)) is run from unknown
    values of the locals the loop assigns, then done(loc) is called and the loop is over; that a turn touches nothing but its
    own element is checked by the memory it is given"""
    def __init__(self, name, pick, havoc=None, done=None):
        self.name, self.pick, self.havoc, self.done = name, pick, havoc, done


class EachIter:
    def __init__(self, con, lo, hi):
        self.con, self.lo, self.hi, self.stage = con, lo, hi, 0

    def __iter__(self):
        return self

    def __next__(self):
        import sys
        from .loops import set_locals
        fr = sys._getframe(1)
        c, con = ctx(), self.con
        if self.stage == 0:
            self.stage = 1
            k = con.pick(fr.f_locals)
            c.assume(k >= self.lo)
            c.assume(k < self.hi)
            new = con.havoc(fr.f_locals) if con.havoc else None
            if new:
                set_locals(fr, new)
            return k
        if con.done:
            con.done(fr.f_locals)
        raise StopIteration
