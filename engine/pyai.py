"""Abstract interpreter for the Python part of the model.

Works on the syntax tree of /repo/code/python (never imports it): numbers are
value-graph terms (terms.py) or exact rationals, arrays are numpy object
arrays of them, a branch on a symbolic condition is taken both ways and the
results are merged with if-then-else nodes.
"""
import ast
import os
from fractions import Fraction

import numpy as np

import terms as X
from terms import T, B, ite, lift


class PyUnmodelled(Exception):
    pass


class PyError(Exception):
    """The program raises here on every input (unknown name, missing attribute)."""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Raised(Exception):
    pass


class Fn:
    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod

    def __repr__(self):
        return '<%s>' % getattr(self.node, 'name', 'lambda')


class Cls:
    def __init__(self, name, env):
        self.name, self.env = name, env


class Rec:
    """An instance: attributes, optional default for unknown ones."""

    def __init__(self, cls=None, default=None, name='', **kw):
        self.__dict__['cls'] = cls
        self.__dict__['a'] = dict(kw)
        self.__dict__['default'] = default
        self.__dict__['name'] = name
        self.__dict__['set'] = {}


class Mod:
    def __init__(self, name, path):
        self.name, self.path, self.g, self.src = name, path, {}, None


class Method:
    def __init__(self, fn, me):
        self.fn, self.me = fn, me


def isarr(x):
    return isinstance(x, np.ndarray)


def merge(c, a, b):
    if a is b:
        return a
    if isarr(a) or isarr(b):
        if not (isarr(a) and isarr(b)) or a.shape != b.shape:
            raise PyUnmodelled('merge of arrays of different shape')
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            r[i] = merge(c, a[i], b[i])
        return r
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return type(a)(merge(c, x, y) for x, y in zip(a, b))
    num = (T, int, Fraction)
    if isinstance(a, num) and isinstance(b, num):
        if not isinstance(a, T) and not isinstance(b, T) and a == b:
            return a
        return ite(c, lift(a), lift(b))
    if isinstance(a, Rec) and isinstance(b, Rec):
        r = Rec(a.cls, a.default, a.name)
        for k in set(a.a) | set(b.a):
            if k not in a.a or k not in b.a:
                raise PyUnmodelled('merge of objects')
            r.a[k] = merge(c, a.a[k], b.a[k])
        return r
    if a is None and b is None:
        return None
    raise PyUnmodelled('merge of %s and %s' % (type(a).__name__, type(b).__name__))


def elementwise(f, x):
    if isarr(x):
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            r[i] = f(x[i])
        return r
    return f(x)


def arr(x):
    if isarr(x):
        return x.copy()
    return np.array(x, dtype=object)


def full(shape, v):
    if not isinstance(shape, (list, tuple)):
        shape = [shape]
    a = np.empty([int(s) for s in shape], dtype=object)
    a.fill(v)
    return a


def eye(n):
    a = full([n, n], 0)
    for i in range(n):
        a[i, i] = 1
    return a


def rec3(M):
    a = [[M[i, j] for j in range(3)] for i in range(3)]
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def inv3(M):
    d = rec3(M)
    r = full([3, 3], 0)
    for i in range(3):
        for j in range(3):
            a, b = [k for k in range(3) if k != j], [k for k in range(3) if k != i]
            m = M[a[0], b[0]] * M[a[1], b[1]] - M[a[0], b[1]] * M[a[1], b[0]]
            r[i, j] = (m if (i + j) % 2 == 0 else -m) / d
    return r


def total(x):
    r = 0
    for v in np.asarray(x, dtype=object).ravel():
        r = r + (ite(v, X.ONE, X.ZERO) if isinstance(v, B) else v)
    return r


def norm(x):
    return X.sqrt(lift(total(x * x)))


def amax(*xs):
    v = list(xs[0]) if len(xs) == 1 else list(xs)
    r = v[0]
    for y in v[1:]:
        if not isinstance(r, T) and not isinstance(y, T):
            r = max(r, y)
        else:
            r = X.tmax(lift(r), lift(y))
    return r


def amin(*xs):
    v = list(xs[0]) if len(xs) == 1 else list(xs)
    r = v[0]
    for y in v[1:]:
        if not isinstance(r, T) and not isinstance(y, T):
            r = min(r, y)
        else:
            r = X.tmin(lift(r), lift(y))
    return r


def clone(x):
    return x.copy() if isarr(x) else x


NUMPY = {
    'dot': lambda a, b: np.dot(a, b), 'outer': lambda a, b: np.outer(a, b), 'eye': lambda n, **k: eye(int(n)), 'identity': lambda n: eye(int(n)),
    'zeros': lambda s, **k: full(s, 0), 'ones': lambda s, **k: full(s, 1), 'array': lambda x, **k: arr(x), 'asarray': lambda x, **k: x if isarr(x) else arr(x),
    'sqrt': lambda x: elementwise(lambda v: X.sqrt(lift(v)), x), 'exp': lambda x: elementwise(lambda v: X.exp(lift(v)), x),
    'log': lambda x: elementwise(lambda v: X.fn('log', lift(v)), x), 'sum': lambda x: total(x), 'trace': lambda M: total([M[i, i] for i in range(len(M))]),
    'abs': lambda x: elementwise(lambda v: X.tabs(lift(v)), x), 'transpose': lambda a: a.T, 'zeros_like': lambda a: full(a.shape, 0), 'square': lambda x: x * x,
    'concatenate': lambda xs: np.concatenate([np.asarray(x, dtype=object) for x in xs]), 'ravel': lambda a: a.ravel().copy(), 'copy': lambda a: a.copy(),
    'tensordot': lambda a, b, n=2: np.tensordot(a, b, n), 'matmul': lambda a, b: np.dot(a, b), 'vdot': lambda a, b: total(a * b), 'inner': lambda a, b: np.inner(a, b),
    'einsum': lambda s, *a: einsum(s, *a), 'diag': lambda a: np.diag(a), 'maximum': lambda a, b: amax(a, b), 'minimum': lambda a, b: amin(a, b),
    'power': lambda a, b: a ** b, 'float64': lambda x: x, 'full': lambda s, v, **k: full(s, v), 'cbrt': lambda x: elementwise(lambda v: X.cbrt(lift(v)), x)}
LINALG = {'det': rec3, 'inv': inv3, 'norm': lambda x, *a: norm(x)}


def einsum(s, *ops):
    ins, out = s.replace(' ', '').split('->') if '->' in s else (s.replace(' ', ''), None)
    ins = ins.split(',')
    if out is None:
        al = ''.join(ins)
        out = ''.join(sorted(ch for ch in set(al) if al.count(ch) == 1))
    dim = {}
    for sub, a in zip(ins, ops):
        for ch, n in zip(sub, a.shape):
            dim[ch] = n
    r = full([dim[c] for c in out], 0)
    letters = sorted(dim)
    for idx in np.ndindex(*[dim[c] for c in letters]):
        m = dict(zip(letters, idx))
        v = 1
        for sub, a in zip(ins, ops):
            v = a[tuple(m[c] for c in sub)] * v
        k = tuple(m[c] for c in out)
        r[k] = r[k] + v
    return r if out else r[()]


class Py:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.hooks = {}          # dotted external name -> callable
        self.calls = set()
        self.nonzero = set()     # terms taken to be non-zero
        self.dec = None          # decisions of the current pass
        self.conds = None
        self.at = None

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        p = os.path.join(self.root, *name.split('.'))
        path = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if not os.path.exists(path):
            return None
        m = Mod(name, path)
        self.mods[name] = m
        m.src = open(path, encoding='utf8').read()
        tree = ast.parse(m.src, path)
        for st in tree.body:
            try:
                self.exec(st, m.g, m)
            except PyUnmodelled:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                    raise
        return m

    def fn(self, dotted):
        mod, n = dotted.rsplit('.', 1)
        m = self.module(mod)
        if m is None or n not in m.g:
            raise PyUnmodelled('no %s' % dotted)
        return m.g[n]

    def where(self, f):
        if isinstance(f, Fn):
            return '%s:%d %s' % (os.path.relpath(f.mod.path, os.environ.get('VERIF_REPO', '/repo')), f.node.lineno, f.node.name)
        return str(f)

    # ------------------------------------------------------------ driver
    def run(self, f, *args, mk=None, **kw):
        """Value of f(*args); mk() builds fresh arguments (and the value returned is its second result)."""
        outs = []
        stack = [[]]
        while stack:
            d = stack.pop()
            self.dec, self.conds, self.k = list(d), [], 0
            a = [clone(x) for x in args]
            if mk is not None:
                a, res = mk()
            try:
                v = self.call(f, list(a), dict(kw))
                ok = True
            except Raised:
                ok, v = False, None
            if mk is not None and ok:
                v = res(v)
            outs.append((list(self.dec), list(self.conds), v, ok))
            for i in range(len(self.dec) - 1, len(d) - 1, -1):
                stack.append(self.dec[:i] + [not self.dec[i]])
            if len(outs) > 256:
                raise PyUnmodelled('too many paths')
        tree = {}
        for dec, conds, v, ok in outs:
            tree[tuple(dec)] = (conds, v, ok)

        def build(pre):
            if pre in tree:
                return tree[pre][1] if tree[pre][2] else Raised
            k = next(x for x in tree if x[:len(pre)] == pre)
            c = tree[k][0][len(pre)]
            a, b = build(pre + (True,)), build(pre + (False,))
            if a is Raised:
                return b
            if b is Raised:
                return a
            return merge(c, a, b)
        return build(())

    def truth(self, c):
        if isinstance(c, B):
            if c is X.TRUE:
                return True
            if c is X.FALSE:
                return False
            neg = False
            if self.k < len(self.dec):
                r = self.dec[self.k]
            else:
                # a condition already decided on this path keeps its value
                r = True
                for d, cc in zip(self.dec, self.conds):
                    if cc is c:
                        return d
                self.dec.append(r)
            self.conds.append(c)
            self.k += 1
            return r
        if isinstance(c, T):
            if c.k == 'c':
                return c.a[0] != 0
            if c in self.nonzero:
                return True
            return self.truth(X.bnot(X.req(c, X.ZERO)))
        if isarr(c):
            raise PyUnmodelled('truth of an array')
        return bool(c)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Method):
            return self.call(f.fn, [f.me] + args, kw)
        if isinstance(f, Fn):
            self.calls.add(f)
            n = f.node
            env = {}
            a = n.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if len(args) > len(names) and a.vararg is None:
                raise PyError('too many arguments for %r' % f)
            for x, v in zip(names, args):
                env[x] = v
            if a.vararg is not None:
                env[a.vararg.arg] = tuple(args[len(names):])
            extra = {}
            for k, v in kw.items():
                if k in names or k in [x.arg for x in a.kwonlyargs]:
                    env[k] = v
                elif a.kwarg is not None:
                    extra[k] = v
                else:
                    raise PyError('unknown argument %s of %r' % (k, f))
            if a.kwarg is not None:
                env[a.kwarg.arg] = extra
            for x, dflt in zip(names[len(names) - len(a.defaults):], a.defaults):
                if x not in env:
                    env[x] = self.eval(dflt, f.env, f.mod)
            for x, dflt in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg not in env and dflt is not None:
                    env[x.arg] = self.eval(dflt, f.env, f.mod)
            for x in names:
                if x not in env:
                    raise PyError('missing argument %s of %r' % (x, f))
            sc = Scope(env, f.env)
            if isinstance(n, ast.Lambda):
                return self.eval(n.body, sc, f.mod)
            try:
                for st in n.body:
                    self.exec(st, sc, f.mod)
            except Ret as r:
                return r.v
            return None
        if isinstance(f, Cls):
            o = Rec(f)
            if '__init__' in f.env:
                self.call(f.env['__init__'], [o] + args, kw)
            return o
        if callable(f):
            return f(*args, **kw)
        raise PyUnmodelled('call of %r' % (f,))

    # ------------------------------------------------------------ statements
    def exec(self, s, env, mod):
        k = type(s)
        self.at = (mod, getattr(s, 'lineno', 0))
        if k is ast.Expr:
            if not isinstance(s.value, ast.Constant):
                self.eval(s.value, env, mod)
        elif k is ast.Assign:
            v = self.eval(s.value, env, mod)
            for t in s.targets:
                self.assign(t, v, env, mod)
        elif k is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, env, mod), env, mod)
        elif k is ast.AugAssign:
            tl = ast.copy_location(ast.Subscript(s.target.value, s.target.slice, ast.Load()), s.target) if isinstance(s.target, ast.Subscript) else None
            if isinstance(s.target, ast.Name):
                cur = self.name(s.target.id, env, mod)
            elif isinstance(s.target, ast.Attribute):
                cur = self.getattr(self.eval(s.target.value, env, mod), s.target.attr)
            else:
                cur = self.eval(tl, env, mod)
            v = self.binop(type(s.op), cur, self.eval(s.value, env, mod))
            if isarr(cur) and isarr(v) and cur.shape == v.shape and not isinstance(s.target, ast.Subscript):
                cur[...] = v
            else:
                self.assign(s.target, v, env, mod)
        elif k is ast.If:
            for x in (s.body if self.truth(self.eval(s.test, env, mod)) else s.orelse):
                self.exec(x, env, mod)
        elif k is ast.For:
            it = self.eval(s.iter, env, mod)
            try:
                for v in list(it):
                    self.assign(s.target, v, env, mod)
                    try:
                        for x in s.body:
                            self.exec(x, env, mod)
                    except Cont:
                        pass
                else:
                    for x in s.orelse:
                        self.exec(x, env, mod)
            except Brk:
                pass
        elif k is ast.While:
            n = 0
            try:
                while self.truth(self.eval(s.test, env, mod)):
                    n += 1
                    if n > 64:
                        raise PyUnmodelled('loop')
                    try:
                        for x in s.body:
                            self.exec(x, env, mod)
                    except Cont:
                        pass
            except Brk:
                pass
        elif k is ast.Return:
            raise Ret(None if s.value is None else self.eval(s.value, env, mod))
        elif k is ast.FunctionDef:
            put(env, s.name, Fn(s, env, mod))
        elif k is ast.ClassDef:
            e = {}
            for x in s.body:
                self.exec(x, Scope(e, env), mod) if not isinstance(x, ast.FunctionDef) else e.__setitem__(x.name, Fn(x, env, mod))
            c = Cls(s.name, e)
            put(env, s.name, c)
        elif k is ast.Import:
            for a in s.names:
                top = a.name.split('.')[0]
                put(env, a.asname or top, self.external(a.name if a.asname else top))
        elif k is ast.ImportFrom:
            for a in s.names:
                put(env, a.asname or a.name, self.imported(s.module, a.name))
        elif k is ast.Raise:
            raise Raised()
        elif k is ast.Assert:
            pass
        elif k in (ast.Pass, ast.Global, ast.Nonlocal):
            pass
        elif k is ast.Break:
            raise Brk()
        elif k is ast.Continue:
            raise Cont()
        else:
            raise PyUnmodelled('%s statement' % k.__name__)

    def imported(self, mod, n):
        if mod == 'numpy':
            return NUMPY.get(n) or self.external('numpy.' + n)
        if mod == 'numpy.linalg':
            return LINALG.get(n) or self.external('numpy.linalg.' + n)
        m = self.module(mod + '.' + n)
        if m is not None:
            return m
        m = self.module(mod)
        if m is None:
            return self.external(mod + '.' + n)
        if n not in m.g:
            raise PyError('%s has no %s' % (mod, n))
        return m.g[n]

    def external(self, name):
        return Ext(name)

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            put(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(v)
            if len(vs) != len(t.elts):
                raise PyError('unpacking')
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, env, mod)
            i = self.eval(t.slice, env, mod)
            b[i] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env, mod)
            if not isinstance(o, Rec):
                raise PyUnmodelled('attribute of %r' % (o,))
            o.a[t.attr] = v
            o.set[t.attr] = v
        else:
            raise PyUnmodelled('assignment')

    # ------------------------------------------------------------ expressions
    def name(self, n, env, mod):
        e = env
        while e is not None:
            d = e.d if isinstance(e, Scope) else e
            if n in d:
                return d[n]
            e = e.up if isinstance(e, Scope) else None
        if n in mod.g:
            return mod.g[n]
        if n in BUILTIN:
            return BUILTIN[n]
        raise PyError('name %s is not defined' % n)

    def getattr(self, o, n):
        if isinstance(o, Rec):
            if n in o.a:
                return o.a[n]
            if o.cls is not None and n in o.cls.env:
                v = o.cls.env[n]
                return Method(v, o) if isinstance(v, Fn) else v
            if o.default is not None:
                v = o.default(n)
                if v is not None:
                    o.a[n] = v
                    return v
            raise PyError('object %s has no attribute %s' % (o.name, n))
        if isinstance(o, Mod):
            if n in o.g:
                return o.g[n]
            m = self.module(o.name + '.' + n)
            if m is not None:
                return m
            raise PyError('module %s has no %s' % (o.name, n))
        if isinstance(o, Ext):
            full = o.name + '.' + n
            if full in self.hooks:
                return self.hooks[full]
            if full.startswith('numpy.linalg.') and n in LINALG:
                return LINALG[n]
            if full.startswith('numpy.') and full.count('.') == 1 and n in NUMPY:
                return NUMPY[n]
            return Ext(full)
        if isarr(o):
            if n == 'T':
                return o.T
            if n in ('shape', 'size', 'ndim'):
                return getattr(o, n)
            if n in ('copy', 'reshape', 'swapaxes', 'transpose', 'dot', 'fill'):
                return getattr(o, n)
            if n in ('ravel', 'flatten'):
                return lambda *a: o.ravel()
            if n == 'sum':
                return lambda: total(o)
            if n == 'resize':
                def rs(s, **k):
                    s = s if isinstance(s, tuple) else (s,)
                    old = list(o.ravel())
                    o.resize(s, refcheck=False)
                    f = o.reshape(-1)
                    for i in range(len(old), f.size):
                        f[i] = 0
                return rs
            if n == 'trace':
                return lambda: total([o[i, i] for i in range(len(o))])
        if isinstance(o, (list, dict, str, tuple)) and n in ('append', 'keys', 'values', 'items', 'get', 'index', 'extend', 'copy', 'lower', 'upper'):
            return getattr(o, n)
        if isinstance(o, Cls) and n in o.env:
            return o.env[n]
        raise PyUnmodelled('attribute %s of %s' % (n, type(o).__name__))

    def binop(self, op, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op is ast.Add:
            return a + b
        if isinstance(a, (list, tuple)) and isinstance(b, int) and op is ast.Mult:
            return a * b
        if isinstance(a, str) or isinstance(b, str):
            if op is ast.Add:
                return a + b
            raise PyUnmodelled('string')
        if a is None or b is None:
            raise PyError('arithmetic with None')
        if isinstance(a, T) and isarr(b) and op is not ast.MatMult:
            return elementwise(lambda v: self.binop(op, a, v), b)
        if isarr(a) and isinstance(b, T) and op is not ast.MatMult:
            return elementwise(lambda v: self.binop(op, v, b), a)
        if op is ast.Add:
            return a + b
        if op is ast.Sub:
            return a - b
        if op is ast.Mult:
            return a * b
        if op is ast.MatMult:
            return np.dot(a, b)
        if op is ast.Div:
            q = lambda x: Fraction(x) if isinstance(x, (int, bool)) else x
            return elementwise(q, a) / elementwise(q, b)
        if op is ast.Pow:
            return self.power(a, b)
        if op is ast.FloorDiv:
            return a // b
        if op is ast.Mod:
            return a % b
        raise PyUnmodelled('operator')

    def power(self, a, b):
        if isarr(a):
            return elementwise(lambda v: self.power(v, b), a)
        if isinstance(a, T) or isinstance(b, T):
            return X.power(lift(a), lift(b))
        if isinstance(b, (int, Fraction)) and Fraction(b).denominator == 1 and (a != 0 or b >= 0):
            return Fraction(a) ** int(b) if int(b) < 0 else a ** int(b)
        return X.power(lift(a), lift(b))

    def compare(self, op, a, b):
        if op in (ast.Is, ast.IsNot):
            r = a is b or (isinstance(a, (bool, int)) and type(a) is type(b) and a == b)
            return r if op is ast.Is else not r
        if op in (ast.In, ast.NotIn):
            if isinstance(a, T):
                r = X.FALSE
                for y in b:
                    r = X.bor(r, X.req(a, lift(y)))
            else:
                r = any(not isinstance(y, T) and y == a for y in b)
            return r if op is ast.In else (X.bnot(r) if isinstance(r, B) else not r)
        if isarr(a):
            return elementwise(lambda v: self.compare(op, v, b), a)
        if isarr(b):
            return elementwise(lambda v: self.compare(op, a, v), b)
        if isinstance(a, T) or isinstance(b, T):
            if not isinstance(a, (T, int, Fraction)) or not isinstance(b, (T, int, Fraction)):
                return op is ast.NotEq
            a, b = lift(a), lift(b)
            return {ast.Lt: X.rlt, ast.Gt: lambda x, y: X.rlt(y, x), ast.LtE: lambda x, y: X.bnot(X.rlt(y, x)), ast.GtE: lambda x, y: X.bnot(X.rlt(x, y)),
                    ast.Eq: X.req, ast.NotEq: lambda x, y: X.bnot(X.req(x, y))}[op](a, b)
        if op is ast.Eq:
            return a == b
        if op is ast.NotEq:
            return a != b
        if op is ast.Lt:
            return a < b
        if op is ast.Gt:
            return a > b
        if op is ast.LtE:
            return a <= b
        return a >= b

    def eval(self, e, env, mod):
        k = type(e)
        if k is ast.Constant:
            v = e.value
            if isinstance(v, float):
                return Fraction(ast.get_source_segment(mod.src, e) or repr(v)) if v == v and abs(v) != float('inf') else lift(v)
            return v
        if k is ast.Name:
            return self.name(e.id, env, mod)
        if k is ast.BinOp:
            return self.binop(type(e.op), self.eval(e.left, env, mod), self.eval(e.right, env, mod))
        if k is ast.UnaryOp:
            v = self.eval(e.operand, env, mod)
            if isinstance(e.op, ast.Not):
                return X.bnot(v) if isinstance(v, B) else not self.truth(v)
            return -v if isinstance(e.op, ast.USub) else v
        if k is ast.Compare:
            l = self.eval(e.left, env, mod)
            r = True
            for op, c in zip(e.ops, e.comparators):
                y = self.eval(c, env, mod)
                t = self.compare(type(op), l, y)
                if r is True:
                    r = t
                elif isinstance(r, B) or isinstance(t, B):
                    r = X.band(r if isinstance(r, B) else (X.TRUE if r else X.FALSE), t if isinstance(t, B) else (X.TRUE if t else X.FALSE))
                else:
                    r = r and t
                l = y
            return r
        if k is ast.BoolOp:
            v = None
            for x in e.values:
                v = self.eval(x, env, mod)
                t = self.truth(v)
                if t != isinstance(e.op, ast.And):
                    return v if not isinstance(v, B) else t
            return v if not isinstance(v, B) else t
        if k is ast.IfExp:
            return self.eval(e.body if self.truth(self.eval(e.test, env, mod)) else e.orelse, env, mod)
        if k is ast.Call:
            f = self.eval(e.func, env, mod)
            args = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    args += list(self.eval(a.value, env, mod))
                else:
                    args.append(self.eval(a, env, mod))
            kw = {}
            for a in e.keywords:
                if a.arg is None:
                    kw.update(self.eval(a.value, env, mod))
                else:
                    kw[a.arg] = self.eval(a.value, env, mod)
            at = self.at
            if isinstance(f, Ext):
                h = self.hooks.get(f.name)
                if h is None:
                    raise PyUnmodelled('external ' + f.name)
                r = h(*args, **kw)
            else:
                r = self.call(f, args, kw)
            self.at = at
            return r
        if k is ast.Attribute:
            return self.getattr(self.eval(e.value, env, mod), e.attr)
        if k is ast.Subscript:
            b = self.eval(e.value, env, mod)
            i = self.eval(e.slice, env, mod)
            try:
                return b[i]
            except (KeyError, IndexError):
                raise PyError('subscript %r out of range' % (i,))
        if k is ast.Slice:
            g = lambda x: None if x is None else self.eval(x, env, mod)
            return slice(g(e.lower), g(e.upper), g(e.step))
        if k in (ast.Tuple, ast.List):
            r = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    r += list(self.eval(x.value, env, mod))
                else:
                    r.append(self.eval(x, env, mod))
            return tuple(r) if k is ast.Tuple else r
        if k is ast.Dict:
            r = {}
            for a, b in zip(e.keys, e.values):
                if a is None:
                    r.update(self.eval(b, env, mod))
                else:
                    r[self.eval(a, env, mod)] = self.eval(b, env, mod)
            return r
        if k in (ast.ListComp, ast.GeneratorExp):
            out = []

            def rec(i, sc):
                if i == len(e.generators):
                    out.append(self.eval(e.elt, sc, mod))
                    return
                g = e.generators[i]
                for v in list(self.eval(g.iter, sc, mod)):
                    s2 = Scope({}, sc)
                    self.assign(g.target, v, s2, mod)
                    if all(self.truth(self.eval(c, s2, mod)) for c in g.ifs):
                        rec(i + 1, s2)
            rec(0, Scope({}, env))
            return out
        if k is ast.Lambda:
            return Fn(e, env, mod)
        if k is ast.JoinedStr:
            return ''
        raise PyUnmodelled('%s expression' % k.__name__)


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<external %s>' % self.name


class Scope:
    def __init__(self, d, up):
        self.d, self.up = d, up


def put(env, n, v):
    (env.d if isinstance(env, Scope) else env)[n] = v


def _setattr(o, n, v):
    o.a[n] = v
    o.set[n] = v


BUILTIN = {'range': lambda *a: list(range(*[int(x) for x in a])), 'len': len, 'abs': lambda x: NUMPY['abs'](x) if isinstance(x, T) or isarr(x) else abs(x),
           'min': amin, 'max': amax, 'sum': lambda x: total(list(x)), 'zip': lambda *a: list(zip(*a)), 'enumerate': lambda x: list(enumerate(x)), 'list': list,
           'tuple': tuple, 'int': int, 'float': lambda x: x, 'print': lambda *a, **k: None, 'isinstance': lambda *a: False, 'True': True, 'False': False,
           'dict': dict, 'setattr': _setattr, 'any': lambda v: any(v), 'all': lambda v: all(v), 'bool': bool, 'reversed': lambda x: list(reversed(x)), 'str': str,
           'ValueError': 'ValueError', 'KeyError': 'KeyError', 'NotImplementedError': 'NotImplementedError', 'Exception': 'Exception', '__name__': '', 'map': lambda f, x: [f(y) for y in x]}
