"""Executes the C / C++ functions of /repo from clang's syntax tree of the current source, on symbolic (or plain) values.

Nothing is rewritten by hand: clang parses the file with the build's own macros, and the statements of the named function
are executed in order.  Numbers are mathematical: double/float are reals, integer types are integers (for unsigned
subtraction the absence of wrap-around is an obligation of its own; conversions that would lose a fraction truncate as in C).
Calls are answered by contracts given by the caller, or executed in turn when their definition is in the same file."""
import functools
import json
import os
import re
import subprocess
import tempfile
from . import native
from .terms import Sym, SymBool, Unsupported, term, wrap, t_cdiv, t_trunc, t_sqrt, t_abs, t_exp, t_log, t_trig, t_pow, real, And, Or, Not, is_num

LIB = os.path.join(native.REPO, 'py_gnome', 'lib_gnome')


def _docs(text):
    dec = json.JSONDecoder()
    i, out = 0, []
    while True:
        while i < len(text) and text[i] not in '{':
            i += 1
        if i >= len(text):
            return out
        d, i = dec.raw_decode(text, i)
        out.append(d)


@functools.lru_cache(maxsize=None)
def _dump(path, name):
    cpp = not path.endswith('.c')
    cmd = ['clang++' if cpp else 'clang', '-DpyGNOME=1', '-I' + LIB, '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + name, path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if not r.stdout.strip():
        raise Unsupported('clang gave no tree for %s in %s: %s' % (name, path, r.stderr[-300:]))
    return _docs(r.stdout)


def body_of(path, name):
    """(parameter names, body) of the definition of name (Class::method or function) in path (relative to lib_gnome or absolute)"""
    p = path if os.path.isabs(path) else os.path.join(LIB, path)
    if not os.path.exists(p):
        raise Unsupported('no file %s' % path)
    short = name.split('::')[-1]
    for d in _dump(p, name):
        if d.get('name') == short and d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            b = [x for x in d.get('inner', []) if x['kind'] == 'CompoundStmt']
            if b:
                return [x for x in d['inner'] if x['kind'] == 'ParmVarDecl'], b[0]
    raise Unsupported('no definition of %s in %s' % (name, path))


class Ref:
    """something that can be assigned"""
    def __init__(self, get, set):
        self.get, self.set = get, set


class Cell(Ref):
    def __init__(self, v=None, name='?'):
        self.v, self.name = v, name

    def get(self):
        if self.v is None:
            raise Unsupported('read of the uninitialised variable %s' % self.name)
        return self.v

    def set(self, v):
        self.v = v


class Struct:
    def __init__(self, **f):
        self.f = f

    def ref(self, n):
        def get():
            if n not in self.f:
                raise Unsupported('field %s has no value' % n)
            return self.f[n]
        return Ref(get, lambda v: self.f.__setitem__(n, v))

    def copy(self):
        return Struct(**{k: (v.copy() if isinstance(v, Struct) else v) for k, v in self.f.items()})

    def __getattr__(self, n):
        try:
            return self.__dict__['f'][n]
        except KeyError:
            raise AttributeError(n)


class Arr:
    """memory seen through get(i) / set(i, v)"""
    def __init__(self, get, set=None):
        self.g, self.s = get, set

    def ref(self, i):
        def wr(v):
            if self.s is None:
                raise Unsupported('write into an array the contract does not let it change')
            self.s(i, v)
        return Ref(lambda: self.g(i), wr)


def local_array(n, structs, init=None):
    """an array of the function itself, with concrete indexes; elements that the initialiser leaves out are zero"""
    mem = dict(enumerate(init or []))

    def get(i):
        if not isinstance(i, int) or not 0 <= i < n:
            raise Unsupported('index %r into a local array of %d' % (i, n))
        if i not in mem:
            if not structs:
                raise Unsupported('read of an uninitialised element')
            mem[i] = Struct()
        return mem[i]

    def put(i, v):
        if not isinstance(i, int) or not 0 <= i < n:
            raise Unsupported('index %r into a local array of %d' % (i, n))
        mem[i] = v
    return Arr(get, put)


class _Return(BaseException):
    def __init__(self, v):
        self.v = v


class _Goto(BaseException):
    def __init__(self, label):
        self.label = label


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


def _copy(v):
    return v.copy() if isinstance(v, Struct) else v


INTS = ('int', 'long', 'short', 'char', 'unsigned', 'size_t', 'bool', 'Boolean', '_Bool')


def is_int(t):
    q = t.get('desugaredQualType', t['qualType'])
    return not q.endswith('*') and any(w in INTS for w in q.replace('const ', '').split())


def is_unsigned(t):
    return 'unsigned' in t.get('desugaredQualType', t['qualType'])


def num(x):
    if isinstance(x, SymBool):
        from .terms import Ite
        return Ite(x, 1, 0)
    if isinstance(x, bool):
        return int(x)
    return x


def val(x):
    """the value of an argument passed by reference"""
    return x.get() if isinstance(x, Ref) else x


def truth(x):
    if isinstance(x, (Struct, Arr, Ref, Cell)):
        return True
    if isinstance(x, (SymBool, bool)):
        return x
    if x is None:
        return False
    return x != 0


def c_sqrt(x):
    if isinstance(x, Sym):
        return wrap(t_sqrt(real(term(x))))
    import math
    return math.sqrt(x)


def c_fabs(x):
    return abs(x)


def c_trig(n):
    def f(x):
        if isinstance(x, Sym):
            return wrap(t_trig(n)(real(term(x))))
        import math
        return getattr(math, n)(x)
    return f


def c_unary(tf, n):
    def f(x):
        if isinstance(x, Sym):
            return wrap(tf(real(term(x))))
        import math
        return getattr(math, n)(x)
    return f


def c_pow(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a ** b
    import math
    return math.pow(a, b)


BUILTIN = {'sqrt': c_sqrt, 'fabs': c_fabs, 'abs': c_fabs, 'cos': c_trig('cos'), 'sin': c_trig('sin'), 'exp': c_unary(t_exp, 'exp'), 'log': c_unary(t_log, 'log'), 'pow': c_pow}


class Interp:
    def __init__(self, B, path, contracts=None, this=None, loops=None, consts=None, wrap_check=True):
        """contracts: name -> callable of evaluated arguments; loops: list of LoopRule used for the loops met, in source order of first meeting"""
        self.B, self.path, self.contracts, self.this, self.loops = B, path, dict(contracts or {}), this, dict(loops or {})
        self.consts = dict(consts or {})
        self.wrap_check = wrap_check
        self.depth = 0

    def call(self, name, *args):
        params, body = body_of(self.path, name)
        env = {}
        for p, a in zip(params, args):
            byref = p['type']['qualType'].rstrip().endswith('&') and 'const' not in p['type']['qualType']
            env[p['id']] = a if byref and isinstance(a, Ref) else Cell(_copy(a), p.get('name'))
        self.depth += 1
        if self.depth > 20:
            raise Unsupported('recursion')
        try:
            self.block(body, env)
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # statements
    def block(self, n, env):
        items = n.get('inner', [])
        i = 0
        while i < len(items):
            try:
                self.stmt(items[i], env)
            except _Goto as g:
                for k, s in enumerate(items):
                    if s['kind'] == 'LabelStmt' and s['declId'] == g.label:
                        i = k
                        break
                else:
                    raise
                continue
            i += 1

    def stmt(self, n, env):
        k = n['kind']
        f = getattr(self, 's_' + k, None)
        if f:
            return f(n, env)
        self.rval(n, env)

    def s_CompoundStmt(self, n, env):
        self.block(n, env)

    def s_NullStmt(self, n, env):
        pass

    def s_LabelStmt(self, n, env):
        self.stmt(n['inner'][0], env)

    def s_GotoStmt(self, n, env):
        raise _Goto(n['targetLabelDeclId'])

    def s_BreakStmt(self, n, env):
        raise _Break()

    def s_ContinueStmt(self, n, env):
        raise _Continue()

    def s_ReturnStmt(self, n, env):
        raise _Return(_copy(self.rval(n['inner'][0], env)) if n.get('inner') else None)

    def s_DeclStmt(self, n, env):
        for d in n['inner']:
            if d['kind'] != 'VarDecl':
                continue
            v = None
            init = [x for x in d.get('inner', []) if not x['kind'].endswith('Attr')]
            if d.get('init') and init:
                v = _copy(self.rval(init[-1], env))
            elif self.is_struct(d['type']):
                v = Struct(p=Struct()) if d['type']['qualType'] == 'WorldPoint3D' else Struct()
            m = re.match(r'(.*?)\[(\d+)\]$', d['type'].get('desugaredQualType', d['type']['qualType']))
            if m and not isinstance(v, Arr):
                v = local_array(int(m.group(2)), self.is_struct({'qualType': m.group(1).strip()}))
            if d['type']['qualType'].rstrip().endswith('&'):
                env[d['id']] = self.lval(init[-1], env)
            else:
                env[d['id']] = Cell(v, d['name'])

    def is_struct(self, t):
        q = t.get('desugaredQualType', t['qualType'])
        return '*' not in q and '[' not in q and not is_int(t) and q.replace('const ', '').strip() not in ('double', 'float', 'void')

    def s_IfStmt(self, n, env):
        parts = n['inner']
        c = self.rval(parts[0], env)
        if bool(truth(c)):
            self.stmt(parts[1], env)
        elif len(parts) > 2:
            self.stmt(parts[2], env)

    def s_WhileStmt(self, n, env):
        self.loop(n, env, None, n['inner'][0], None, n['inner'][1])

    def s_ForStmt(self, n, env):
        init, _cv, cond, inc, body = n['inner']
        if init.get('kind'):
            self.stmt(init, env)
        self.loop(n, env, None, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body)

    def s_DoStmt(self, n, env):
        raise Unsupported('do loop')

    def loop(self, n, env, init, cond, inc, body):
        rule = self.rule(n)
        if rule is not None:
            return rule.run(self, n, env, cond, inc, body)
        k = 0
        while cond is None or bool(truth(self.rval(cond, env))):
            try:
                self.stmt(body, env)
            except _Break:
                return
            except _Continue:
                pass
            if inc is not None:
                self.rval(inc, env)
            k += 1
            if k > 64:
                raise Unsupported('loop without contract')

    def rule(self, n):
        """contracts are given per order of loops within the function"""
        if not self.loops:
            return None
        self.order = getattr(self, 'order', {})
        key = n['id']
        if key not in self.order:
            self.order[key] = len(self.order)
        return self.loops.get(self.order[key])

    # expressions
    def lval(self, n, env):
        f = getattr(self, 'l_' + n['kind'], None)
        if not f:
            raise Unsupported('C lvalue ' + n['kind'])
        return f(n, env)

    def l_DeclRefExpr(self, n, env):
        d = n['referencedDecl']
        if d['id'] in env:
            return env[d['id']]
        if d.get('name') in self.consts:
            return Cell(self.consts[d['name']])
        raise Unsupported('C name ' + d.get('name', '?'))

    def l_ParenExpr(self, n, env):
        return self.lval(n['inner'][0], env)

    def l_ImplicitCastExpr(self, n, env):
        return self.lval(n['inner'][0], env)

    def l_MemberExpr(self, n, env):
        base = n['inner'][0]
        if base['kind'] == 'ImplicitCastExpr' and base['castKind'] in ('UncheckedDerivedToBase', 'DerivedToBase'):
            base = base['inner'][0]
        if base['kind'] == 'CXXThisExpr':
            return self.this.ref(n['name'])
        if n.get('isArrow'):
            o = self.deref(self.rval(base, env))
        else:
            o = self.lval(base, env) if base.get('valueCategory') == 'lvalue' else Cell(self.rval(base, env))
        v = o.get()
        if not isinstance(v, Struct):
            raise Unsupported('member of a non-structure')
        return v.ref(n['name'])

    def l_ArraySubscriptExpr(self, n, env):
        a, i = n['inner']
        a = self.rval(a, env)
        i = self.rval(i, env)
        if isinstance(a, Arr):
            return a.ref(i)
        raise Unsupported('subscript of %r' % type(a))

    def l_UnaryOperator(self, n, env):
        if n['opcode'] == '*':
            return self.deref(self.rval(n['inner'][0], env))
        raise Unsupported('C lvalue operator ' + n['opcode'])

    def deref(self, p):
        if isinstance(p, Ref):
            return p
        if isinstance(p, Struct):
            return Cell(p)
        if isinstance(p, Arr):
            return p.ref(0)
        raise Unsupported('dereference of %r' % type(p))

    def rval(self, n, env):
        f = getattr(self, 'r_' + n['kind'], None)
        if not f:
            raise Unsupported('C expression ' + n['kind'])
        return f(n, env)

    def r_ParenExpr(self, n, env):
        return self.rval(n['inner'][0], env)

    r_ConstantExpr = r_ExprWithCleanups = r_MaterializeTemporaryExpr = r_CXXBindTemporaryExpr = r_CXXFunctionalCastExpr = r_SubstNonTypeTemplateParmExpr = r_ParenExpr

    def r_CXXConstructExpr(self, n, env):
        if len(n.get('inner', [])) == 1:
            return _copy(self.rval(n['inner'][0], env))
        if not n.get('inner'):
            q = n['type']['qualType']
            m = re.match(r'(.*?)\[(\d+)\]$', q)
            if m:
                return local_array(int(m.group(2)), True)
            return Struct(p=Struct()) if q == 'WorldPoint3D' else Struct()
        raise Unsupported('constructor')

    def r_IntegerLiteral(self, n, env):
        return int(n['value'])

    def r_StringLiteral(self, n, env):
        return n.get('value', '')

    def r_CharacterLiteral(self, n, env):
        return int(n['value'])

    def r_FloatingLiteral(self, n, env):
        return float(n['value'])

    def r_CXXBoolLiteralExpr(self, n, env):
        return bool(n['value'])

    def r_CXXNullPtrLiteralExpr(self, n, env):
        return None

    r_GNUNullExpr = r_CXXNullPtrLiteralExpr

    def r_CXXThisExpr(self, n, env):
        return self.this

    def r_DeclRefExpr(self, n, env):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            if d['name'] not in self.consts:
                raise Unsupported('enum constant %s has no value given' % d['name'])
            return self.consts[d['name']]
        return self.lval(n, env).get()

    def r_MemberExpr(self, n, env):
        return self.lval(n, env).get()

    r_ArraySubscriptExpr = r_MemberExpr

    def cast(self, n, v):
        k = n.get('castKind')
        if k == 'FloatingToIntegral':
            if isinstance(v, Sym):
                return wrap(t_trunc(real(term(v))))
            return int(v)
        if k in ('FloatingToBoolean', 'IntegralToBoolean', 'PointerToBoolean'):
            return truth(v)
        if k == 'IntegralToFloating':
            v = num(v)
            return v if isinstance(v, Sym) else float(v)
        if k == 'IntegralCast':
            v = num(v)
            if is_unsigned(n['type']) and self.wrap_check and isinstance(v, Sym) and not is_unsigned(n['inner'][0]['type']):
                self.B.prove('no-wrap', v >= 0)
            return v
        return v

    def r_ImplicitCastExpr(self, n, env):
        x = n['inner'][0]
        k = n['castKind']
        if k == 'LValueToRValue':
            return self.lval(x, env).get()
        if k == 'NullToPointer':
            return None
        if k in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return None
        return self.cast(n, self.rval(x, env))

    r_CStyleCastExpr = r_ImplicitCastExpr
    r_CXXStaticCastExpr = r_ImplicitCastExpr

    def zero(self, q):
        q = q.replace('const ', '').replace('struct ', '').strip()
        if q == 'WorldPoint3D':
            return Struct(p=self.zero('WorldPoint'), z=0)
        return Struct(**{f: 0 for f in self.FIELDS[q]}) if q in self.FIELDS else 0

    def r_InitListExpr(self, n, env):
        m = re.match(r'(.*?)\[(\d+)\]$', n['type'].get('desugaredQualType', n['type']['qualType']))
        if m:
            q = n['type']['qualType'].split('[')[0].strip()
            vals = [self.rval(x, env) for x in (n.get('inner') or n.get('array_filler', [])) if x['kind'] != 'ImplicitValueInitExpr']
            vals += [self.zero(q) for k in range(int(m.group(2)) - len(vals))]
            return local_array(int(m.group(2)), False, vals)
        vals = [self.rval(x, env) for x in n.get('inner', [])]
        names = self.fields(n['type'])
        return Struct(**dict(zip(names, vals)))

    def r_ImplicitValueInitExpr(self, n, env):
        return 0

    FIELDS = {'WorldPoint': ('pLong', 'pLat'), 'WorldPoint3D': ('p', 'z'), 'VelocityRec': ('u', 'v'), 'VelocityRec3D': ('u', 'v', 'w'), 'TimeValuePair': ('time', 'value')}

    def fields(self, t):
        for q in (t['qualType'], t.get('desugaredQualType', '')):
            q = q.replace('const ', '').replace('struct ', '').strip()
            if q in self.FIELDS:
                return self.FIELDS[q]
        raise Unsupported('fields of ' + t['qualType'])

    def r_UnaryExprOrTypeTraitExpr(self, n, env):
        if n.get('name') != 'sizeof':
            raise Unsupported(n.get('name'))
        t = n.get('argType') or n['inner'][0]['type']
        t = t['qualType'] if '(' not in t['qualType'] else t.get('desugaredQualType', t['qualType'])
        h = os.path.splitext(os.path.basename(self.path))[0] + '.h'
        return constants(h, 'sizeof(%s)' % t)['sizeof(%s)' % t]

    def r_ConditionalOperator(self, n, env):
        c, a, b = n['inner']
        return self.rval(a, env) if bool(truth(self.rval(c, env))) else self.rval(b, env)

    def r_UnaryOperator(self, n, env):
        o, x = n['opcode'], n['inner'][0]
        if o == '*':
            return self.lval(n, env).get()
        if o == '&':
            return self.lval(x, env)
        if o in ('++', '--'):
            r = self.lval(x, env)
            old = r.get()
            new = old + 1 if o == '++' else old - 1
            r.set(new)
            return old if n.get('isPostfix') else new
        v = self.rval(x, env)
        if o == '-':
            return -num(v)
        if o == '+':
            return num(v)
        if o == '!':
            t = truth(v)
            return Not(t) if isinstance(t, SymBool) else not t
        raise Unsupported('C operator ' + o)

    def arith(self, o, a, b, t):
        a, b = num(a), num(b)
        if o == '+':
            return a + b
        if o == '-':
            r = a - b
            if is_int(t) and is_unsigned(t) and self.wrap_check and isinstance(r, Sym):
                self.B.prove('no-wrap', r >= 0)
            return r
        if o == '*':
            return a * b
        if o == '/':
            if is_int(t):
                if isinstance(a, Sym) or isinstance(b, Sym):
                    return wrap(t_cdiv(term(a), term(b)))
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            return a / b
        if o == '%':
            q = self.arith('/', a, b, t)
            return a - q * b
        raise Unsupported('C operator ' + o)

    def r_BinaryOperator(self, n, env):
        o = n['opcode']
        x, y = n['inner']
        if o == '=':
            v = self.rval(y, env)
            r = self.lval(x, env)
            r.set(_copy(v))
            return v
        if o == ',':
            self.rval(x, env)
            return self.rval(y, env)
        if o == '&&':
            return bool(truth(self.rval(x, env))) and truth(self.rval(y, env))
        if o == '||':
            return bool(truth(self.rval(x, env))) or truth(self.rval(y, env))
        a, b = self.rval(x, env), self.rval(y, env)
        if o in ('==', '!='):
            if a is None or b is None:
                r = (a is None) == (b is None)
                return r if o == '==' else not r
            a, b = num(a), num(b)
            return a == b if o == '==' else a != b
        if o in ('<', '<=', '>', '>='):
            a, b = num(a), num(b)
            return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[o]()
        return self.arith(o, a, b, n['type'])

    def r_CompoundAssignOperator(self, n, env):
        x, y = n['inner']
        v = self.rval(y, env)
        r = self.lval(x, env)
        t = n.get('computeResultType', n['type'])
        w = self.arith(n['opcode'][:-1], r.get(), v, t)
        if is_int(n['type']) and not is_int(t):
            w = wrap(t_trunc(real(term(w)))) if isinstance(w, Sym) else int(w)
        r.set(w)
        return w

    def l_CompoundAssignOperator(self, n, env):
        self.r_CompoundAssignOperator(n, env)
        return self.lval(n['inner'][0], env)

    def l_BinaryOperator(self, n, env):
        if n['opcode'] != '=':
            raise Unsupported('C lvalue operator ' + n['opcode'])
        r = self.lval(n['inner'][0], env)
        r.set(_copy(self.rval(n['inner'][1], env)))
        return r

    def callee(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            n = n['inner'][0]
        if n['kind'] == 'DeclRefExpr':
            return n['referencedDecl']['name']
        if n['kind'] == 'MemberExpr':
            return n['name']
        raise Unsupported('call of ' + n['kind'])

    def r_CallExpr(self, n, env):
        name = self.callee(n['inner'][0])
        args = []
        for a in n['inner'][1:]:
            if a.get('valueCategory') == 'lvalue' and a['kind'] in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'ParenExpr', 'UnaryOperator'):
                args.append(self.lval(a, env))       # passed by reference
            else:
                args.append(self.rval(a, env))
        if name in self.contracts:
            return self.contracts[name](*args)
        if name in BUILTIN:
            return BUILTIN[name](*[a.get() if isinstance(a, Ref) else a for a in args])
        for q in ([type_name + '::' + name for type_name in [getattr(self.this, 'cls', None)] if type_name] + [name]):
            try:
                body_of(self.path, q)
            except Unsupported:
                continue
            return self.call(q, *[a.get() if isinstance(a, Ref) and not self.by_ref(q, k) else a for k, a in enumerate(args)])
        raise Unsupported('call of %s, no contract' % name)

    def by_ref(self, q, k):
        p = body_of(self.path, q)[0][k]['type']['qualType']
        return p.rstrip().endswith('&') or p.rstrip().endswith('*')

    r_CXXMemberCallExpr = r_CallExpr

    def r_CXXOperatorCallExpr(self, n, env):
        if self.callee(n['inner'][0]) == 'operator=':
            x, y = n['inner'][1:]
            v = self.rval(y, env) if y.get('valueCategory') != 'lvalue' else self.lval(y, env).get()
            self.lval(x, env).set(_copy(v))
            return v
        raise Unsupported('operator call')


def assigned(n, out=None):
    """ids and names of the variables a statement assigns"""
    out = {} if out is None else out

    def target(x):
        while x['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'MemberExpr', 'ArraySubscriptExpr'):
            if x['kind'] == 'ArraySubscriptExpr':
                return
            if not x.get('inner'):
                return
            x = x['inner'][0]
        if x['kind'] == 'DeclRefExpr':
            out[x['referencedDecl']['id']] = x['referencedDecl']['name']
    if 'kind' not in n:
        return out
    if n['kind'] in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='):
        target(n['inner'][0])
    if n['kind'] == 'UnaryOperator' and n['opcode'] in ('++', '--', '&'):
        target(n['inner'][0])
    if n['kind'] == 'CXXOperatorCallExpr':
        target(n['inner'][1])
    for x in n.get('inner', []):
        assigned(x, out)
    return out


class Invariant:
    """loop contract: inv(env by name) -> condition list, havoc(name) -> fresh value.  Established, kept by one arbitrary
    iteration, and assumed afterwards; break/return inside an iteration continue with the code after the loop."""
    def __init__(self, name, inv, havoc, variant=None):
        self.name, self.inv, self.havoc, self.variant = name, inv, havoc, variant

    def run(self, I, n, env, cond, inc, body):
        B = I.B
        look = lambda: Names(env, self.ids)
        names = {}
        for x in (cond, inc, body):
            if x is not None:
                assigned(x, names)
        self.ids = {}
        for k, c in env.items():
            if isinstance(c, Cell):
                self.ids[c.name] = k
        for nm, c in self.inv(look()):
            B.prove('%s:starts:%s' % (self.name, nm), c)
        for i, nm in names.items():
            if i in env:
                v = self.havoc(nm)
                env[i].set(v)
        for nm, c in self.inv(look()):
            B.assume(c)
        if cond is not None and not bool(truth(I.rval(cond, env))):
            return
        v0 = self.variant(look()) if self.variant else None
        broke = False
        try:
            I.stmt(body, env)
        except _Break:
            return
        except _Continue:
            pass
        if inc is not None:
            I.rval(inc, env)
        for nm, c in self.inv(look()):
            B.prove('%s:kept:%s' % (self.name, nm), c)
        if self.variant:
            v1 = self.variant(look())
            B.prove('%s:ends' % self.name, And(v0 > v1, v0 >= 0))
        from .terms import PathEnd
        raise PathEnd()


class Names:
    def __init__(self, env, ids):
        self.__dict__['_e'], self.__dict__['_i'] = env, ids

    def __getattr__(self, n):
        if n not in self._i:
            raise Unsupported('the loop has no variable %s' % n)
        return self._e[self._i[n]].get()

    def has(self, n):
        return n in self._i and self._e[self._i[n]].v is not None


class EachElement:
    """contract of a loop over elements: one arbitrary element is executed with every variable the body assigns unknown
    beforehand; only that element may be written (the arrays' own set functions check it)."""
    def __init__(self, name, pick, havoc):
        self.name, self.pick, self.havoc = name, pick, havoc

    def run(self, I, n, env, cond, inc, body):
        names = {}
        for x in (cond, inc, body):
            if x is not None:
                assigned(x, names)
        for i, nm in names.items():
            if i in env:
                v, v0 = self.pick(nm), env[i].v if isinstance(env[i], Cell) else None
                env[i].set(v if v is not None else self.havoc(nm))
                if v is not None and v0 is not None and inc is not None and inc.get('kind') == 'UnaryOperator' and inc['opcode'] == '++' and i in assigned(inc) and i not in assigned(body):
                    I.B.assume(v >= v0)          # a counter that only goes up starts here
        if cond is not None:
            I.B.assume(truth(I.rval(cond, env)))
        try:
            I.stmt(body, env)
        except _Continue:
            pass


@functools.lru_cache(maxsize=None)
def constants(header, *names):
    """values of enumerators and macros, as the compiler sees them in the current headers"""
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, 'k.cpp')
        with open(src, 'w') as f:
            f.write('#include <cstdio>\n#include "Mover_c.h"\n' + ''.join('#include "%s"\n' % h for h in header.split()) + 'int main(){' + ''.join('printf("%%.17g\\n", (double)(%s));' % n for n in names) + '}')
        r = subprocess.run(['clang++', '-w', '-DpyGNOME=1', '-I' + LIB, src, '-o', d + '/k'], capture_output=True, text=True)
        if r.returncode:
            raise Unsupported('constants of %s: %s' % (header, r.stderr[-300:]))
        vals = [float(x) for x in subprocess.run([d + '/k'], capture_output=True, text=True).stdout.split()]
    return {n: (int(v) if v == int(v) else v) for n, v in zip(names, vals)}
