"""Value graph: hash-consed terms, conditions and integer kernels, and their
evaluation as global value numbers over a finite field.

Nothing in here executes the analysed program: a term is the symbolic value the
abstract interpreter derived from the source; two terms are judged equal by
random interpretation (Gulwani & Necula): every leaf symbol is mapped to a
random element of F_p, every algebraic operation to the field operation, every
uninterpreted operation to a hash of its operands' numbers, every branch
condition to a truth value that depends only on the compared value.  Algebraic
identities are preserved exactly, different polynomials/rational functions
collide with probability about deg/p per lane.

Field: p = 2q+1, q prime, p = 7 (mod 8), the primes up to 23 are squares.
 * the Legendre symbol is a multiplicative, antisymmetric 'sign';
 * x**a for a symbolic exponent is x**(a mod q) on the squares (Gonnet
   signatures), so the usual laws of powers and exponentials hold.
"""
import math
import sys
import threading
from fractions import Fraction

import numpy as np

from poly import Poly, P, psym, padd, psub, pmul, pneg, psubst, norm

sys.setrecursionlimit(1000000)

p = 2147146559
q = (p - 1) // 2
U = np.uint64
up = U(p)


# ---------------------------------------------------------------- nodes
class T:
    __slots__ = ('k', 'a', 'id', '__weakref__')

    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __neg__(s): return neg(s)
    def __pow__(s, o): return power(s, o)
    def __repr__(s): return show(s)


class B:
    __slots__ = ('k', 'a', 'id')

    def __repr__(s): return showb(s)


_tab = {}
_btab = {}


def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.id = len(_tab)
        _tab[key] = t
    return t


def mkb(k, *a):
    key = (k,) + a
    t = _btab.get(key)
    if t is None:
        t = B()
        t.k = k
        t.a = a
        t.id = len(_btab)
        _btab[key] = t
    return t


def C(x):
    return mk('c', Fraction(x))


ZERO = C(0)
ONE = C(1)
HALF = C(Fraction(1, 2))


def S(name):
    return mk('s', name)


def has(x, s):
    """Does the value of x depend on s through its operands?"""
    seen, st = set(), [x]
    while st:
        n = st.pop()
        if n is s:
            return True
        if not isinstance(n, (T, B)) or n in seen:
            continue
        seen.add(n)
        for y in n.a:
            if isinstance(y, (T, B)):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(y)
    return False


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return C(int(x))
    if isinstance(x, (int, Fraction)):
        return C(x)
    if isinstance(x, Poly):
        return mk('i2r', x) if not x.is_const() else C(x.const())
    if isinstance(x, B):
        return ite(x, ONE, ZERO)
    if isinstance(x, float):
        return C(Fraction(repr(x)))
    raise TypeError('cannot lift %r' % (x,))


def add(a, b):
    a, b = lift(a), lift(b)
    if a.k == 'c' and b.k == 'c':
        return C(a.a[0] + b.a[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return mk('+', a, b)


def sub(a, b):
    a, b = lift(a), lift(b)
    if a.k == 'c' and b.k == 'c':
        return C(a.a[0] - b.a[0])
    if b is ZERO:
        return a
    if a is ZERO:
        return neg(b)
    if a is b and a.k != 'undef':
        return ZERO
    return mk('-', a, b)


def neg(a):
    a = lift(a)
    if a.k == 'c':
        return C(-a.a[0])
    if a.k == 'neg':
        return a.a[0]
    return mk('neg', a)


def mul(a, b):
    a, b = lift(a), lift(b)
    if a.k == 'c' and b.k == 'c':
        return C(a.a[0] * b.a[0])
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    return mk('*', a, b)


def div(a, b):
    a, b = lift(a), lift(b)
    if b is ONE:
        return a
    if a.k == 'c' and b.k == 'c' and b.a[0] != 0:
        return C(a.a[0] / b.a[0])
    if a is ZERO and b is not ZERO:
        return ZERO
    return mk('/', a, b)


def power(a, b):
    a, b = lift(a), lift(b)
    if b.k == 'c':
        e = b.a[0]
        if e.denominator == 1 and abs(e) <= 16:
            return ipow(a, int(e))
        if a is ONE:
            return ONE
        if e.denominator == 2 and a.k == 'c' and a.a[0] >= 0 and abs(e) < 8:
            p, q = math.isqrt(a.a[0].numerator), math.isqrt(a.a[0].denominator)
            if p * p == a.a[0].numerator and q * q == a.a[0].denominator and (p or e > 0):
                return ipow(C(Fraction(p, q)), e.numerator)
    return mk('pow', a, b)


def ipow(a, n):
    if n < 0:
        return div(ONE, ipow(a, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def sqrt(a):
    return power(a, HALF)


def cbrt(a):
    a = lift(a)
    if a is ONE or a is ZERO:
        return a
    return mk('cbrt', a)


def exp(a):
    a = lift(a)
    if a is ZERO:
        return ONE
    # e^(k log x + ...) = x^k e^(...)
    r, rest, hit = ONE, ZERO, False
    for sg, t in addends(a):
        k = logfactor(t)
        if k is None:
            rest = add(rest, t) if sg > 0 else sub(rest, t)
        else:
            hit = True
            r = mul(r, power(k[0], k[1] if sg > 0 else neg(k[1])))
    if hit:
        return mul(r, exp(rest)) if rest is not ZERO else r
    return mk('exp', a)


def addends(a, sg=1, depth=0):
    if depth < 12:
        if a.k == '+':
            return addends(a.a[0], sg, depth + 1) + addends(a.a[1], sg, depth + 1)
        if a.k == '-':
            return addends(a.a[0], sg, depth + 1) + addends(a.a[1], -sg, depth + 1)
        if a.k == 'neg':
            return addends(a.a[0], -sg, depth + 1)
    return [(sg, a)]


def logfactor(t, depth=0):
    """(x, k) when t is k*log(x), else None."""
    if t.k == 'fn' and t.a[0] == 'log':
        return t.a[1], ONE
    if depth > 8:
        return None
    if t.k == '*':
        for i in (0, 1):
            r = logfactor(t.a[i], depth + 1)
            if r is not None:
                return r[0], mul(r[1], t.a[1 - i])
    if t.k == '/':
        r = logfactor(t.a[0], depth + 1)
        if r is not None:
            return r[0], div(r[1], t.a[1])
    if t.k == 'neg':
        r = logfactor(t.a[0], depth + 1)
        if r is not None:
            return r[0], neg(r[1])
    return None


def fn(name, *args):
    return mk('fn', name, *[lift(x) for x in args])


def ite(c, a, b):
    if c is True or c is TRUE:
        return lift(a)
    if c is False or c is FALSE:
        return lift(b)
    a, b = lift(a), lift(b)
    if a is b:
        return a
    if c.k == 'not':
        return ite(c.a[0], b, a)
    if a.k == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.k == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


def tmax(a, b):
    return ite(rlt(a, b), b, a)


def tmin(a, b):
    return ite(rlt(b, a), b, a)


def tabs(a):
    return ite(rlt(a, ZERO), neg(a), a)


def rd(buf, off):
    return mk('rd', buf, off if isinstance(off, int) else norm(off))


def uf(name, idx, args):
    """idx-th result of an uninterpreted function of args (T, B, int/Poly or str)."""
    return mk('uf', name, idx, tuple(args))


def undef(tag):
    return mk('undef', tag)


def el(m, i):
    return mk('el', m, i)


# ---------------------------------------------------------------- booleans
TRUE = mkb('c', True)
FALSE = mkb('c', False)


def b_(x):
    if isinstance(x, B):
        return x
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return TRUE if x else FALSE
    if isinstance(x, Poly):
        return bnot(ieq(x, 0))
    if isinstance(x, T):
        return bnot(req(x, ZERO))
    raise TypeError(x)


def simp(x):
    """B -> python bool when constant"""
    if x is TRUE:
        return True
    if x is FALSE:
        return False
    return x


def band(*xs):
    out = []
    for x in xs:
        x = b_(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.k == 'and':
            for y in x.a:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if bnot(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mkb('and', *out)


def bor(*xs):
    return bnot(band(*[bnot(b_(x)) for x in xs]))


def bnot(x):
    x = b_(x)
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.k == 'not':
        return x.a[0]
    return mkb('not', x)


def rlt(a, b):
    a, b = lift(a), lift(b)
    if a.k == 'c' and b.k == 'c':
        return b_(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    return mkb('r<', a, b)


def rle(a, b):
    return bnot(rlt(b, a))


def req(a, b):
    a, b = lift(a), lift(b)
    if a.k == 'c' and b.k == 'c':
        return b_(a.a[0] == b.a[0])
    if a is b:
        return TRUE
    return mkb('r==', a, b)


def ige(a, b=0):
    d = psub(a, b)
    if isinstance(d, int):
        return b_(d >= 0)
    return mkb('i>=', d)


def ilt(a, b):
    return bnot(ige(a, b))


def ile(a, b):
    return ige(b, a)


def ieq(a, b):
    d = psub(a, b)
    if isinstance(d, int):
        return b_(d == 0)
    # canonical sign
    lead = min(d.m, key=lambda k: (len(k), k))
    if d.m[lead] < 0:
        d = norm(pneg(d))
    return mkb('i==', d)


def bite(c, a, b):
    c, a, b = b_(c), b_(a), b_(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def brd(buf, off):
    return mkb('rdb', buf, off if isinstance(off, int) else norm(off))


def buf_(name, args):
    return mkb('uf', name, tuple(args))


# ---------------------------------------------------------------- int kernels
_ik = {}            # name -> definition
_ikn = {}           # definition -> name


def ikernel(*d):
    n = _ikn.get(d)
    if n is None:
        n = '#%d' % len(_ikn)
        _ikn[d] = n
        _ik[n] = d
    return psym(n)


def iite(c, a, b):
    c = b_(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    return ikernel('ite', c, a, b)


def icases(x, most=4):
    """[(condition, number)] when x is a number chosen by conditions, else None.
    The conditions exclude each other and cover everything."""
    if isinstance(x, int):
        return [(TRUE, x)]
    if not isinstance(x, Poly) or len(x.m) > 2:
        return None
    k, n = 0, None
    for mono, cf in x.m.items():
        if not mono:
            k = cf
        elif len(mono) == 1 and cf == 1 and mono[0] in _ik and _ik[mono[0]][0] == 'ite':
            n = mono[0]
        else:
            return None
    if n is None or k != int(k):
        return None
    _, c, a, b = _ik[n]
    a, b = icases(a, most), icases(b, most)
    if a is None or b is None or len(a) + len(b) > most:
        return None
    return [(band(c, g), v + int(k)) for g, v in a] + [(band(bnot(c), g), v + int(k)) for g, v in b]


def idiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        qv = abs(a) // abs(b)
        return qv if (a >= 0) == (b >= 0) else -qv
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(a, int) and a == 0:
        return 0
    # exact division
    from poly import divmono
    r = divmono(P(a), b)
    if r is not None and r[1] == 0:
        return norm(r[0]) if isinstance(r[0], Poly) else r[0]
    return ikernel('div', a, b)


def imod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - idiv(a, b) * b
    return psub(a, pmul(idiv(a, b), b))


def itrunc(t):
    t = lift(t)
    if t.k == 'c':
        return int(t.a[0])          # Fraction.__int__ truncates
    if t.k == 'i2r':
        return t.a[0]
    return ikernel('trunc', t)


def ird(buf, off):
    return ikernel('rd', buf, off if isinstance(off, int) else norm(off))


# ---------------------------------------------------------------- display
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 5:
        return '…'
    k, a = t.k, t.a
    if k == 'c':
        return str(a[0]) if a[0].denominator == 1 else '%g' % float(a[0])
    if k == 's':
        return a[0]
    if k in ('+', '-', '*', '/'):
        return '(%s%s%s)' % (show(a[0], d + 1), k, show(a[1], d + 1))
    if k == 'neg':
        return '-' + show(a[0], d + 1)
    if k == 'rd':
        return '%s[%s]' % (a[0], a[1])
    if k == 'ite':
        return '(%s ? %s : %s)' % (showb(a[0], d + 1), show(a[1], d + 1), show(a[2], d + 1))
    if k == 'uf':
        return '%s.%s(…)' % (a[0], a[1])
    if k == 'undef':
        return 'uninitialised<%s>' % (a[0],)
    if k == 'el':
        return '%s@%s' % (a[0].k, a[1])
    return '%s(%s)' % (k, ','.join(show(x, d + 1) if isinstance(x, T) else str(x)[:40] for x in a))


def showb(b, d=0):
    if not isinstance(b, B):
        return str(b)
    if d > 5:
        return '…'
    k, a = b.k, b.a
    if k == 'not':
        return '!' + showb(a[0], d + 1)
    if k == 'and':
        return '(' + ' && '.join(showb(x, d + 1) for x in a) + ')'
    if k in ('r<', 'r=='):
        return '%s %s %s' % (show(a[0], d + 2), k[1:], show(a[1], d + 2))
    if k in ('i>=', 'i=='):
        return '(%s) %s 0' % (a[0], k[1:])
    if k == 'rdb':
        return '%s[%s]' % a
    return '%s(%s)' % (k, ','.join(str(x)[:60] for x in a))


# ---------------------------------------------------------------- traversal
def children(n):
    """Immediate T/B children (including those inside tuples and int kernels)."""
    out = []

    def put(x):
        if isinstance(x, (T, B)):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                put(y)
        elif isinstance(x, Poly):
            for s in x.syms():
                if s in _ik:
                    for y in _ik[s]:
                        put(y)
    for x in n.a:
        put(x)
    return out


def walk(roots):
    seen = set()
    st = [r for r in roots if isinstance(r, (T, B))]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        yield n
        st.extend(children(n))


# ---------------------------------------------------------------- hashing
M1 = U(0xbf58476d1ce4e5b9)
M2 = U(0x94d049bb133111eb)
GOLD = U(0x9e3779b97f4a7c15)


def mix(x):
    with np.errstate(over='ignore'):
        x = x + GOLD
        x = (x ^ (x >> U(30))) * M1
        x = (x ^ (x >> U(27))) * M2
        return x ^ (x >> U(31))


def strhash(s):
    import zlib
    b = s.encode()
    return U((zlib.crc32(b) << 32) ^ zlib.adler32(b) ^ (len(b) << 17))


def powc(x, e):
    """x**e mod p, e python int >= 0."""
    r = None
    b = x
    while e:
        if e & 1:
            r = b if r is None else (r * b) % up
        e >>= 1
        if e:
            b = (b * b) % up
    return r if r is not None else np.ones_like(x)


def powv(x, e, mod=up, bits=31):
    r = np.ones_like(x)
    b = x.copy()
    for i in range(bits):
        m = (e >> U(i)) & U(1)
        r = np.where(m == 1, (r * b) % mod, r)
        b = (b * b) % mod
    return r


def inv(x):
    return powc(x, p - 2)


uq = U(q)


def powcq(x, e):
    r = None
    b = x
    while e:
        if e & 1:
            r = b if r is None else (r * b) % uq
        e >>= 1
        if e:
            b = (b * b) % uq
    return r if r is not None else np.ones_like(x)


CB = pow(3, -1, q)            # 1/3 modulo q
G = 4                          # a square generating the subgroup of order q


class Undecided(Exception):
    pass


class Ev:
    """One batch of random interpretations (L lanes)."""

    def __init__(self, L=64, seed=1, ints=None, positive=(), undef_seed=0,
                 intdom=None, fixed=None, bools=None, allpos=False, small=()):
        self.L = L
        self.seed = U(seed * 7919 + 13)
        self.rng = np.random.default_rng(seed * 104729 + 5)
        lane = np.arange(L, dtype=U)
        self.lane = mix(lane * U(2654435761) + self.seed)
        self.memo = {}
        self.bmemo = {}
        self.qmemo = {}
        self.imemo = {}
        self.pmemo = {}
        self.ints = dict(ints or {})       # name -> int64 lanes
        self.positive = set(positive)
        self.allpos = allpos
        self.small = set(small)            # symbols that may be tiny
        self.undef_seed = undef_seed
        self.intdom = intdom or {}
        self.fixed = fixed or {}           # term -> lanes
        self.bools = bools or {}           # B -> bool lanes
        self.signs = {}

    # --- helpers
    def h(self, *xs):
        acc = self.lane
        with np.errstate(over='ignore'):
            for x in xs:
                if isinstance(x, str):
                    x = strhash(x)
                elif isinstance(x, int):
                    x = U(x & 0xffffffffffffffff)
                elif isinstance(x, np.ndarray):
                    if x.dtype == np.int64:
                        x = x.astype(U)
                    elif x.dtype == bool:
                        x = x.astype(U) + U(77)
                acc = mix(acc * U(6364136223846793005) + x)
        return acc

    def pos(self, v):
        return (v * v) % up

    def const(self, fr, mod=p):
        n = fr.numerator % mod
        d = fr.denominator % mod
        return np.full(self.L, (n * pow(d, -1, mod)) % mod, dtype=U)

    def sign(self, v):
        """Legendre symbol in {-1,0,1} (int8)."""
        k = v.tobytes()
        s = self.signs.get(k)
        if s is None:
            r = powc(v, q)
            s = np.where(r == 1, 1, np.where(r == 0, 0, -1)).astype(np.int8)
            self.signs[k] = s
        return s

    # --- integers
    def isym(self, n):
        v = self.ints.get(n)
        if v is not None:
            return v
        v = self.imemo.get(n)
        if v is not None:
            return v
        d = _ik.get(n)
        if d is None:
            v = (self.h('isym', n) % U(5)).astype(np.int64)
        else:
            k = d[0]
            if k == 'ite':
                v = np.where(self.b(d[1]), self.i(d[2]), self.i(d[3]))
            elif k == 'div':
                a, b = self.i(d[1]), self.i(d[2])
                bb = np.where(b == 0, 1, b)
                v = (np.sign(a) * np.sign(bb)) * (np.abs(a) // np.abs(bb))
            elif k == 'rd':
                o = self.i(d[2])
                dom = self.intdom.get(d[1])
                hv = self.h('ird', d[1], o)
                if callable(dom):
                    v = dom(self, o, hv)
                else:
                    dom = np.array(dom if dom is not None else range(-2, 6), dtype=np.int64)
                    v = dom[(hv % U(len(dom))).astype(np.int64)]
            elif k == 'trunc':
                tv, _ = self.t(d[1])
                dom = self.intdom.get('trunc')
                hv = self.h('trunc', tv)
                if callable(dom):
                    v = dom(self, d[1], hv)
                else:
                    v = (hv % U(6)).astype(np.int64)
            else:
                hs = [self.anyv(x) for x in d[1:]]
                dom = self.intdom.get(k)
                hv = self.h('ik', k, *hs)
                if callable(dom):
                    v = dom(self, d, hv)
                else:
                    v = (hv % U(6)).astype(np.int64)
        self.imemo[n] = v
        return v

    def i(self, x):
        if isinstance(x, (int, np.integer)):
            return np.full(self.L, int(x), dtype=np.int64)
        v = self.pmemo.get(x)
        if v is None:
            v = np.zeros(self.L, dtype=np.int64)
            for k, c in x.m.items():
                t = np.full(self.L, c, dtype=np.int64)
                for s in k:
                    t = t * self.isym(s)
                v = v + t
            self.pmemo[x] = v
        return v

    def anyv(self, x):
        if isinstance(x, T):
            return self.t(x)[0]
        if isinstance(x, B):
            return self.b(x)
        if isinstance(x, (int, Poly)):
            return self.i(x)
        if isinstance(x, str):
            return x
        if isinstance(x, tuple):
            return self.h('tuple', *[self.anyv(y) for y in x])
        if x is None:
            return 'None'
        raise TypeError(x)

    # --- booleans
    def b(self, x):
        if x is True or x is False:
            return np.full(self.L, bool(x))
        v = self.bmemo.get(x)
        if v is not None:
            return v
        if x in self.bools:
            v = self.bools[x]
        else:
            k, a = x.k, x.a
            if k == 'c':
                v = np.full(self.L, a[0])
            elif k == 'not':
                v = ~self.b(a[0])
            elif k == 'and':
                v = self.b(a[0])
                for y in a[1:]:
                    v = v & self.b(y)
            elif k == 'i>=':
                v = self.i(a[0]) >= 0
            elif k == 'i==':
                v = self.i(a[0]) == 0
            elif k == 'r<' or k == 'r==':
                x0, _ = self.t(a[0])
                x1, _ = self.t(a[1])
                dlt = (x1 + up - x0) % up
                if k == 'r<':
                    v = self.sign(dlt) > 0
                else:
                    # equality of reals: true where identical; elsewhere decided
                    # by a hash of the (unsigned) difference, so that both sides
                    # of an `==` guard are visited
                    v = dlt == 0
            elif k == 'rdb':
                v = (self.h('rdb', a[0], self.i(a[1])) & U(1)) == 1
            elif k == 'uf':
                hv = self.h('buf', a[0], *[self.anyv(y) for y in a[1]])
                v = (hv & U(1)) == 1
                if a[0] == 'isnan':
                    # rare in most lanes: visits both outcomes of a test over many values
                    v = v & ((self.h('nan rate') % U(4) == 0) | ((hv >> U(8)) % U(64) == 0))
            else:
                raise Undecided('bool ' + k)
        self.bmemo[x] = v
        return v

    # --- reals
    def t(self, x):
        v = self.memo.get(x)
        if v is None:
            # iterative post-order to keep the Python stack shallow
            stack = [x]
            while stack:
                n = stack[-1]
                if n in self.memo:
                    stack.pop()
                    continue
                pend = [c for c in n.a if isinstance(c, T) and c not in self.memo]
                if pend:
                    stack.extend(pend)
                    continue
                self.memo[n] = self.t1(n)
                stack.pop()
            v = self.memo[x]
        return v

    def symval(self, name):
        hv = self.h('sym', name) % up
        if self.allpos or name in self.positive:
            hv = self.pos(hv)
        return hv

    def t1(self, x):
        if self.fixed and x in self.fixed:
            return self.fixed[x], None
        k, a = x.k, x.a
        if k == 'c':
            return self.const(a[0]), None
        if k == 's':
            return self.symval(a[0]), None
        if k in ('+', '-', '*', '/'):
            (u, mu), (w, mw) = self.memo[a[0]], self.memo[a[1]]
            m = mu if mw is None else (mw if mu is None else mu & mw)
            if k == '+':
                return (u + w) % up, m
            if k == '-':
                return (u + up - w) % up, m
            if k == '*':
                return (u * w) % up, m
            nz = w != 0
            if not nz.all():
                m = nz if m is None else m & nz
            return (u * inv(w)) % up, m
        if k == 'neg':
            u, m = self.memo[a[0]]
            return (up - u) % up, m
        if k == 'pow':
            u, m = self.memo[a[0]]
            s = self.sign(u) > 0
            if not s.all():
                m = s if m is None else m & s
            if a[1].k == 'c':
                fr = a[1].a[0]
                e = (fr.numerator * pow(fr.denominator, -1, q)) % q
                return powc(u, e), m
            e = self.qv(a[1])
            return powv(u, e), m
        if k == 'cbrt':
            u, m = self.memo[a[0]]
            s = self.sign(u)
            au = np.where(s < 0, (up - u) % up, u)
            r = powc(au, CB)
            return np.where(s < 0, (up - r) % up, r), m
        if k == 'exp':
            u, m = self.memo[a[0]]
            e = self.qv(a[0])
            return powv(np.full(self.L, G, dtype=U), e), m
        if k == 'ite':
            c = self.b(a[0])
            (u, mu), (w, mw) = self.memo[a[1]], self.memo[a[2]]
            if mu is None and mw is None:
                m = None
            else:
                o = np.ones(self.L, bool)
                m = np.where(c, mu if mu is not None else o, mw if mw is not None else o)
            return np.where(c, u, w), m
        if k == 'rd':
            hv = self.h('rd', a[0], self.i(a[1])) % up
            if self.allpos or a[0] in self.positive:
                hv = self.pos(hv)
            return hv, None
        if k == 'i2r':
            v = self.i(a[0])
            return (v % p).astype(U), None
        if k == 'fn':
            hs, m = [], None
            for y in a[1:]:
                u, mu = self.memo[y]
                hs.append(u)
                m = mu if m is None else (m if mu is None else m & mu)
            return self.h('fn', a[0], *hs) % up, m
        if k == 'uf':
            m = None
            hs = []
            for y in a[2]:
                if isinstance(y, T):
                    u, mu = self.t(y)
                    hs.append(u)
                    m = mu if m is None else (m if mu is None else m & mu)
                else:
                    hs.append(self.anyv(y))
            hv = self.h('uf', a[0], a[1] if isinstance(a[1], (int, str)) else self.i(a[1]), *hs) % up
            if a[0] in self.positive:
                hv = self.pos(hv)
            return hv, m
        if k == 'undef':
            return self.h('undef', self.undef_seed, str(a[0])) % up, None
        if k == 'el':
            mat, mm = self.memo[a[0]]
            return mat[a[1]], mm
        if k == 'minv':
            n = a[0]
            A, m = self.matrix(n, n, a[1])
            I = np.zeros((n, n, self.L), dtype=U)
            for i in range(n):
                I[i, i] = 1
            X, ok = self.gauss(A, I)
            m = self.andm(m, ok)
            return X.reshape(n * n, self.L), m
        if k == 'msolve':
            n, c = a[0], a[1]
            A, m = self.matrix(n, n, a[2])
            Bm, m2 = self.matrix(n, c, a[3])
            X, ok = self.gauss(A, Bm)
            return X.reshape(n * c, self.L), self.andm(self.andm(m, m2), ok)
        if k == 'mdet':
            n = a[0]
            A, m = self.matrix(n, n, a[1])
            return self.detm(A), m
        if k == 'mfn':
            # opaque matrix function: a = (name, nout, entries)
            hs, m = [], None
            for y in a[2]:
                if isinstance(y, T):
                    u, mu = self.t(y)
                    m = self.andm(m, mu)
                    hs.append(u)
                else:
                    hs.append(self.anyv(y))
            base = self.h('mfn', a[0], *hs)
            out = np.stack([mix(base + U(i * 977 + 1)) % up for i in range(a[1])])
            if a[0] in self.positive:
                out = (out * out) % up
            return out, m
        if k == 'lam':
            ch = self.child(a[0], ())
            u, m = ch.t(a[1])
            return u, m
        if k == 'fold':
            idx, var, lo, hi, cs, inits, steps = a
            ch = self.child((var,) if isinstance(var, str) else tuple(var), cs)
            hs = [self.anyv(lo), self.anyv(hi)]
            m = None
            for y in inits:
                u, mu = self.t(y)
                hs.append(u)
                m = self.andm(m, mu)
            for y in steps:
                u, mu = ch.t(y)
                hs.append(u)
            return self.h('fold', idx, *hs) % up, m
        raise Undecided('term ' + k)

    def child(self, ivars, carried):
        ch = Ev.__new__(Ev)
        ch.__dict__.update(self.__dict__)
        ch.memo, ch.bmemo, ch.qmemo, ch.imemo, ch.pmemo = {}, {}, {}, {}, {}
        ch.depth = getattr(self, 'depth', 0) + 1
        ch.ints = dict(self.ints)
        ch.fixed = dict(self.fixed)
        for j, v in enumerate(ivars):
            ch.ints[v] = (self.h('bound', ch.depth, j) % U(5)).astype(np.int64)
        for j, c in enumerate(carried):
            if isinstance(c, str):
                ch.ints[c] = (self.h('carr', ch.depth, j) % U(5)).astype(np.int64)
            else:
                ch.fixed[c] = self.h('carr', ch.depth, j) % up
        return ch

    def andm(self, m, w):
        if w is None or (isinstance(w, np.ndarray) and w.all()):
            return m
        return w if m is None else m & w

    def matrix(self, r, c, ents):
        A = np.zeros((r * c, self.L), dtype=U)
        m = None
        for i, e in enumerate(ents):
            u, mu = self.t(e)
            A[i] = u
            m = self.andm(m, mu)
        return A.reshape(r, c, self.L), m

    def gauss(self, A, Bm):
        """Solve A X = B for every lane (partial pivoting by lane)."""
        A = A.copy()
        X = Bm.copy()
        n = A.shape[0]
        L = self.L
        ok = np.ones(L, bool)
        lanes = np.arange(L)
        for c in range(n):
            piv = np.full(L, c)
            found = A[c, c] != 0
            for r in range(c + 1, n):
                need = ~found & (A[r, c] != 0)
                piv = np.where(need, r, piv)
                found |= need
            ok &= found
            if (piv != c).any():
                ta = A[c].copy()
                tx = X[c].copy()
                sa = A[piv, :, lanes].T.copy()
                sx = X[piv, :, lanes].T.copy()
                A[piv, :, lanes] = ta.T
                X[piv, :, lanes] = tx.T
                A[c] = sa
                X[c] = sx
            iv = inv(np.where(A[c, c] == 0, U(1), A[c, c]))
            A[c] = (A[c] * iv) % up
            X[c] = (X[c] * iv) % up
            for r in range(n):
                if r != c:
                    f = A[r, c].copy()
                    if not f.any():
                        continue
                    A[r] = (A[r] + (up - f) * A[c]) % up
                    X[r] = (X[r] + (up - f) * X[c]) % up
        return X, ok

    def detm(self, A):
        A = A.copy()
        n = A.shape[0]
        L = self.L
        det = np.ones(L, dtype=U)
        lanes = np.arange(L)
        for c in range(n):
            piv = np.full(L, c)
            found = A[c, c] != 0
            for r in range(c + 1, n):
                need = ~found & (A[r, c] != 0)
                piv = np.where(need, r, piv)
                found |= need
            sw = piv != c
            if sw.any():
                ta = A[c].copy()
                sa = A[piv, :, lanes].T.copy()
                A[piv, :, lanes] = ta.T
                A[c] = sa
                det = np.where(sw, (up - det) % up, det)
            det = (det * A[c, c]) % up
            iv = inv(np.where(A[c, c] == 0, U(1), A[c, c]))
            for r in range(c + 1, n):
                f = (A[r, c] * iv) % up
                A[r] = (A[r] + (up - f) * A[c]) % up
        return det

    # --- exponents modulo q
    def qv(self, x):
        v = self.qmemo.get(x)
        if v is not None:
            return v
        k, a = x.k, x.a
        if k == 'c':
            v = self.const(a[0], q)
        elif k == 's':
            v = self.h('symq', a[0]) % uq
        elif k == '+':
            v = (self.qv(a[0]) + self.qv(a[1])) % uq
        elif k == '-':
            v = (self.qv(a[0]) + uq - self.qv(a[1])) % uq
        elif k == 'neg':
            v = (uq - self.qv(a[0])) % uq
        elif k == '*':
            v = (self.qv(a[0]) * self.qv(a[1])) % uq
        elif k == '/':
            v = (self.qv(a[0]) * powcq(self.qv(a[1]), q - 2)) % uq
        elif k == 'i2r':
            v = (self.i(a[0]) % q).astype(U)
        elif k == 'ite':
            v = np.where(self.b(a[0]), self.qv(a[1]), self.qv(a[2]))
        elif k == 'rd':
            v = self.h('rdq', a[0], self.i(a[1])) % uq
        elif k == 'undef':
            v = self.h('undefq', self.undef_seed, str(a[0])) % uq
        else:
            v = self.h('q', self.t(x)[0]) % uq
        self.qmemo[x] = v
        return v


# ---------------------------------------------------------------- derivatives
def diff(t, wrt, memo=None):
    """d t / d wrt, wrt a leaf term.  Branch conditions are held fixed."""
    if memo is None:
        memo = {}
    st = [t]
    while st:
        n = st[-1]
        if n in memo:
            st.pop()
            continue
        pend = [c for c in n.a if isinstance(c, T) and c not in memo]
        if n.k in ('minv', 'msolve', 'mdet'):
            for tup in n.a:
                if isinstance(tup, tuple):
                    pend += [c for c in tup if c not in memo]
        if pend:
            st.extend(pend)
            continue
        memo[n] = _d1(n, wrt, memo)
        st.pop()
    return memo[t]


def depends(t, leaf):
    for n in walk([t]):
        if n is leaf:
            return True
    return False


def _d1(n, w, m):
    if n is w:
        return ONE
    k, a = n.k, n.a
    if k in ('c', 's', 'rd', 'i2r', 'undef'):
        return ZERO
    if k == '+':
        return add(m[a[0]], m[a[1]])
    if k == '-':
        return sub(m[a[0]], m[a[1]])
    if k == 'neg':
        return neg(m[a[0]])
    if k == '*':
        return add(mul(m[a[0]], a[1]), mul(a[0], m[a[1]]))
    if k == '/':
        return div(sub(m[a[0]], mul(n, m[a[1]])), a[1])
    if k == 'pow':
        if m[a[1]] is not ZERO:
            raise Undecided('derivative of an exponent')
        return mul(mul(a[1], div(n, a[0])), m[a[0]]) if m[a[0]] is not ZERO else ZERO
    if k == 'cbrt':
        if m[a[0]] is ZERO:
            return ZERO
        return mul(div(n, mul(C(3), a[0])), m[a[0]])
    if k == 'exp':
        return mul(n, m[a[0]])
    if k == 'ite':
        return ite(a[0], m[a[1]], m[a[2]])
    if k in ('fn', 'uf', 'mfn'):
        if all(not depends(c, w) for c in children(n)):
            return ZERO
        if k == 'fn' and len(a) == 2:
            x, dx = a[1], m[a[1]]
            f = {'log': lambda: div(ONE, x), 'sin': lambda: fn('cos', x), 'cos': lambda: neg(fn('sin', x)),
                 'tanh': lambda: sub(ONE, mul(n, n)), 'sinh': lambda: fn('cosh', x), 'cosh': lambda: fn('sinh', x),
                 'atan': lambda: div(ONE, add(ONE, mul(x, x))), 'log10': lambda: div(ONE, mul(x, fn('log', C(10))))}.get(a[0])
            if f is not None:
                return mul(f(), dx)
        raise Undecided('derivative of ' + str(a[0]))
    if k == 'el':
        mat = a[0]
        if mat.k == 'mfn':
            if not depends(mat, w):
                return ZERO
            raise Undecided('derivative of ' + str(mat.a[0]))
        if mat.k == 'minv':
            nn = mat.a[0]
            r, c = divmod(a[1], nn)
            s = ZERO
            for i in range(nn):
                for j in range(nn):
                    d = m[mat.a[1][i * nn + j]]
                    if d is not ZERO:
                        s = sub(s, mul(mul(el(mat, r * nn + i), d), el(mat, j * nn + c)))
            return s
        raise Undecided('derivative of ' + mat.k)
    if k in ('minv', 'msolve', 'mdet'):
        if k == 'mdet':
            if all(m[x] is ZERO for x in a[1]):
                return ZERO
            raise Undecided('derivative of det')
        return ZERO
    raise Undecided('derivative of ' + k)


def subst(t, mp, memo=None):
    """Replace leaves (terms) by terms, rebuilding through the constructors."""
    if memo is None:
        memo = {}

    def sb(b):
        r = memo.get(b)
        if r is None:
            if b.k in ('r<', 'r=='):
                f = rlt if b.k == 'r<' else req
                r = f(go(b.a[0]), go(b.a[1]))
            elif b.k == 'not':
                r = bnot(sb(b.a[0]))
            elif b.k == 'and':
                r = band(*[sb(x) for x in b.a])
            else:
                r = b
            memo[b] = r
        return r

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in mp:
            r = mp[x]
        else:
            k, a = x.k, x.a
            if k in ('c', 's', 'rd', 'i2r', 'undef'):
                r = x
            elif k == '+':
                r = add(go(a[0]), go(a[1]))
            elif k == '-':
                r = sub(go(a[0]), go(a[1]))
            elif k == '*':
                r = mul(go(a[0]), go(a[1]))
            elif k == '/':
                r = div(go(a[0]), go(a[1]))
            elif k == 'neg':
                r = neg(go(a[0]))
            elif k == 'pow':
                r = power(go(a[0]), go(a[1]))
            elif k == 'cbrt':
                r = cbrt(go(a[0]))
            elif k == 'exp':
                r = exp(go(a[0]))
            elif k == 'ite':
                r = ite(sb(a[0]), go(a[1]), go(a[2]))
            elif k == 'fn':
                r = mk('fn', a[0], *[go(y) for y in a[1:]])
            elif k == 'el':
                r = el(go(a[0]), a[1])
            elif k in ('uf', 'mfn'):
                r = mk(k, a[0], a[1], tuple(go(y) if isinstance(y, T) else (sb(y) if isinstance(y, B) else y) for y in a[2]))
            elif k in ('minv', 'mdet'):
                r = mk(k, a[0], tuple(go(y) for y in a[1]))
            elif k == 'msolve':
                r = mk(k, a[0], a[1], tuple(go(y) for y in a[2]), tuple(go(y) for y in a[3]))
            else:
                raise Undecided('subst ' + k)
        memo[x] = r
        return r

    return go(t)


def equal(a, b, evs, minlanes=8):
    """None when the two terms have the same number on every comparable lane,
    else a description of a lane where they differ.  Raises Undecided when too
    few lanes are comparable."""
    a, b = lift(a), lift(b)
    if a is b:
        return None
    n = 0
    for ev in evs:
        (u, mu), (w, mw) = ev.t(a), ev.t(b)
        ok = np.ones(ev.L, bool)
        if mu is not None:
            ok &= mu
        if mw is not None:
            ok &= mw
        n += int(ok.sum())
        bad = ok & (u != w)
        if bad.any():
            return (ev, pick(ev, bad))
    if n < minlanes:
        raise Undecided('only %d comparable lanes' % n)
    return None


def bequal(a, b, evs):
    a, b = b_(a), b_(b)
    if a is b:
        return None
    for ev in evs:
        bad = ev.b(a) != ev.b(b)
        if bad.any():
            return (ev, pick(ev, bad))
    return None


def pick(ev, bad):
    """A differing lane, the one with the smallest integers."""
    if not ev.ints:
        return int(np.argmax(bad))
    tot = sum(np.abs(np.resize(v, ev.L)) for v in ev.ints.values())
    return int(np.argmin(np.where(bad, tot, 1 << 40)))


def isubst(x, mp, memo=None):
    """Substitute integer symbols (name -> int/Poly) everywhere in a term,
    condition, integer or tuple."""
    if memo is None:
        memo = {}

    def gp(pl):
        if isinstance(pl, int):
            return pl
        sub_ = {}
        for s in pl.syms():
            if s in mp:
                sub_[s] = mp[s]
            elif s in _ik:
                d = _ik[s]
                nd = tuple(go(y) for y in d)
                if nd != d:
                    k = nd[0]
                    if k == 'ite':
                        sub_[s] = iite(nd[1], nd[2], nd[3])
                    elif k == 'div':
                        sub_[s] = idiv(nd[1], nd[2])
                    elif k == 'trunc':
                        sub_[s] = itrunc(nd[1])
                    else:
                        sub_[s] = ikernel(*nd)
        return psubst(pl, sub_) if sub_ else pl

    def go(n):
        if isinstance(n, Poly):
            return gp(n)
        if isinstance(n, tuple):
            return tuple(go(y) for y in n)
        if not isinstance(n, (T, B)):
            return n
        r = memo.get(n)
        if r is not None:
            return r
        k, a = n.k, n.a
        if isinstance(n, B):
            if k == 'c':
                r = n
            elif k == 'not':
                r = bnot(go(a[0]))
            elif k == 'and':
                r = band(*[go(y) for y in a])
            elif k == 'i>=':
                r = ige(go(a[0]))
            elif k == 'i==':
                r = ieq(go(a[0]), 0)
            elif k == 'r<':
                r = rlt(go(a[0]), go(a[1]))
            elif k == 'r==':
                r = req(go(a[0]), go(a[1]))
            elif k == 'rdb':
                r = brd(a[0], go(a[1]))
            else:
                r = mkb(k, *[go(y) for y in a])
        else:
            if k in ('c', 's', 'undef'):
                r = n
            elif k == '+':
                r = add(go(a[0]), go(a[1]))
            elif k == '-':
                r = sub(go(a[0]), go(a[1]))
            elif k == '*':
                r = mul(go(a[0]), go(a[1]))
            elif k == '/':
                r = div(go(a[0]), go(a[1]))
            elif k == 'neg':
                r = neg(go(a[0]))
            elif k == 'pow':
                r = power(go(a[0]), go(a[1]))
            elif k == 'ite':
                r = ite(go(a[0]), go(a[1]), go(a[2]))
            elif k == 'rd':
                r = rd(a[0], go(a[1]))
            elif k == 'i2r':
                r = lift(go(a[0]))
            else:
                r = mk(k, *[go(y) for y in a])
        memo[n] = r
        return r
    return go(x)


def idep(x, names):
    """Does x (term/cond/int) mention one of the integer symbols?"""
    names = set(names)
    if isinstance(x, int):
        return False
    st = [x]
    seen = set()
    while st:
        n = st.pop()
        if isinstance(n, tuple):
            st.extend(n)
            continue
        if isinstance(n, str):
            continue
        if isinstance(n, Poly):
            for s in n.syms():
                if s in names:
                    return True
                if s in _ik and s not in seen:
                    seen.add(s)
                    st.extend(_ik[s][1:])
            continue
        if isinstance(n, (T, B)):
            if n in seen:
                continue
            seen.add(n)
            st.extend(n.a)
    return False
