"""Abstract interpreter over the exported AST: derives, for every variable and
array element, the symbolic value (terms.py) the source assigns to it.

 * branches on unknown conditions are joined with gated (ite) values - there is
   no path enumeration and no solver;
 * loops with literal bounds are unrolled; loops with symbolic bounds are
   analysed once, in a generic iteration (loop variable symbolic, loop-carried
   scalars havocked and folded);
 * arrays of symbolic extent carry a log of guarded affine stores, and a read
   is resolved by inverting the subscript.
"""
import os
from fractions import Fraction

import numpy as np

import terms as X
from terms import (T, B, C, S, ZERO, ONE, TRUE, FALSE, add, sub, mul, div, neg,
                   ite, iite, bite, band, bor, bnot, rd, brd, ird, lift, b_,
                   simp, rlt, rle, req, ige, ilt, ile, ieq, Undecided, undef)
from poly import Poly, P, psym, padd, psub, pmul, pneg, norm, divmono
from front import relp


class Unmodelled(Undecided):
    pass


class Loc:
    __slots__ = ('i', 'n')
    cnt = 0

    def __init__(self, n=''):
        Loc.cnt += 1
        self.i = Loc.cnt
        self.n = n


class State:
    __slots__ = ('mem', 'owned', 'pc')

    def __init__(self, mem=None, pc=()):
        self.mem = mem if mem is not None else {}
        self.owned = set()
        self.pc = pc                      # tuple of B conjuncts

    def fork(self):
        self.owned = set()
        s = State(dict(self.mem), self.pc)
        return s

    def cond(self):
        return band(*self.pc)


def with_pc(st, c):
    c = b_(c)
    if c is TRUE or c in st.pc:
        return st.pc
    cs = c.a if c.k == 'and' else (c,)
    return st.pc + tuple(x for x in cs if x not in st.pc)


# ------------------------------------------------------------ matrices
class Mx:
    """Matrix-valued rvalue."""
    __slots__ = ('rows', 'cols', 'get', 'kind', 'arr')

    def __init__(self, rows, cols, get, kind='f', arr=False):
        self.rows, self.cols, self.get, self.kind, self.arr = rows, cols, get, kind, arr


class Vals(Mx):
    __slots__ = ('v',)

    def __init__(self, rows, cols, v, kind='f', arr=False):
        self.v = v
        Mx.__init__(self, rows, cols, lambda r, c: v[r * cols + c], kind, arr)


class View(Mx):
    """Matrix-valued lvalue: strided window on a buffer."""
    __slots__ = ('buf', 'off', 'rs', 'cs', 'it', 'em')

    def __init__(self, it, buf, off, rows, cols, rs, cs, kind='f', arr=False, em=None):
        self.it, self.buf, self.off, self.rs, self.cs, self.em = it, buf, off, rs, cs, em
        Mx.__init__(self, rows, cols, self.rget, kind, arr)

    def at(self, r, c):
        return padd(self.off, padd(pmul(r, self.rs), pmul(c, self.cs)))

    def rget(self, r, c):
        return self.it.readbuf(self.buf, self.at(r, c))

    def sub(self, r0, c0, rows, cols):
        return View(self.it, self.buf, self.at(r0, c0), rows, cols, self.rs, self.cs, self.kind, self.arr)

    def T(self):
        return View(self.it, self.buf, self.off, self.cols, self.rows, self.cs, self.rs, self.kind, self.arr)

    def asarr(self, a):
        return View(self.it, self.buf, self.off, self.rows, self.cols, self.rs, self.cs, self.kind, a, self.em)


class EM:
    """An owning matrix object (immutable descriptor stored in a variable)."""
    __slots__ = ('buf', 'rows', 'cols', 'rm', 'kind', 'arr', 'dr', 'dc')

    def __init__(self, buf, rows, cols, rm, kind, arr, dr, dc):
        self.buf, self.rows, self.cols, self.rm = buf, rows, cols, rm
        self.kind, self.arr, self.dr, self.dc = kind, arr, dr, dc

    def same(self, o):
        return isinstance(o, EM) and self.buf is o.buf and self.rows == o.rows and self.cols == o.cols


class Log:
    """Contents of a buffer of symbolic size."""
    __slots__ = ('kind', 'base', 'ent', 'size')

    def __init__(self, kind, base, ent, size):
        self.kind, self.base, self.ent, self.size = kind, base, ent, size


class Ent:
    __slots__ = ('off', 'co', 'vals', 'guard', 'loops', 'acc', 'where')

    def __init__(self, off, co, vals, guard, loops, acc, where):
        self.off, self.co, self.vals, self.guard = off, co, vals, guard
        self.loops, self.acc, self.where = loops, acc, where


class BufLoc(Loc):
    __slots__ = ('size', 'kind', 'base')

    def __init__(self, n, size, kind, base):
        Loc.__init__(self, n)
        self.size, self.kind, self.base = size, kind, base


class Ptr:
    __slots__ = ('buf', 'off', 'kind')

    def __init__(self, buf, off, kind):
        self.buf, self.off, self.kind = buf, off, kind


class Elem:
    """Scalar lvalue inside a buffer."""
    __slots__ = ('buf', 'off')

    def __init__(self, buf, off):
        self.buf, self.off = buf, off


class CLoc:
    """Conditional scalar lvalue (c ? a : b)."""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Rec:
    """Record with one location per field (created on demand)."""
    __slots__ = ('cls', 'f', 'name', 'idx', 'it', 'fresh', 'parent')

    def __init__(self, it, cls, name, idx=None, fresh=False):
        self.it, self.cls, self.name, self.idx, self.f, self.fresh = it, cls, name, idx, {}, fresh
        self.parent = None

    def field(self, n, t):
        l = self.f.get(n)
        if l is None:
            l = Loc(self.name + '.' + n)
            self.f[n] = l
            it = self.it
            if self.parent is not None:
                # a copy: the parent's field had not been touched when it was taken
                v = it.base_mem.get(self.parent.field(n, t))
                if isinstance(v, EM) and isinstance(it.base_mem.get(v.buf), list):
                    b = BufLoc(l.n, v.buf.size, v.kind, v.buf.base)
                    it.base_mem[b] = list(it.base_mem[v.buf])
                    v = EM(b, v.rows, v.cols, v.rm, v.kind, v.arr, v.dr, v.dc)
                elif isinstance(v, Rec):
                    v = it.copy_rec(v)
                it.base_mem[l] = v
            else:
                it.base_mem[l] = it.fieldval(self, n, t)
        return l


class SVec:
    """std::vector with a literal number of elements (list of locations)."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)


class SymVec:
    """std::vector parameter of symbolic length whose elements are equally sized
    matrices / records."""
    __slots__ = ('name', 'n', 'mk', 'cache')

    def __init__(self, name, n, mk):
        self.name, self.n, self.mk, self.cache = name, n, mk, {}


class FuncObj:
    __slots__ = ('fn', 'bound', 'caps', 'params', 'body', 'env', 'F', 'specs', 'this')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))


class Obj:
    """Opaque library object (decompositions, placeholders...)."""
    __slots__ = ('k', 'd')

    def __init__(self, k, **d):
        self.k, self.d = k, d


class Frame:
    __slots__ = ('F', 'env', 'rets', 'loops', 'tt', 'this')

    def __init__(self, F, tt):
        self.F, self.tt = F, tt
        self.env, self.rets, self.loops, self.this = {}, [], [], None


class LoopCtx:
    __slots__ = ('breaks', 'conts', 'sym')

    def __init__(self, sym=None):
        self.breaks, self.conts, self.sym = [], [], sym


class Gen:
    """An open generic loop."""
    __slots__ = ('v', 'lo', 'hi', 'reads', 'marks', 'par')

    def __init__(self, v, lo, hi, par=None):
        self.v, self.lo, self.hi, self.reads, self.marks, self.par = v, lo, hi, [], {}, par


def psign(r):
    """Sign of a polynomial of non-negative symbols: -1, 0, 1 or 2 (mixed)."""
    if isinstance(r, int):
        return (r > 0) - (r < 0)
    cs = r.m.values()
    if all(c < 0 for c in cs):
        return -1
    if all(c > 0 for c in cs):
        return 1
    return 2


def is_int(x):
    return isinstance(x, (int, Poly)) and not isinstance(x, bool)


def scal(x):
    return isinstance(x, (T, B, int, Poly, bool))


def stride_val(c):
    """Magnitude of a stride at a large generic extent (to order strides)."""
    if isinstance(c, int):
        return abs(c)
    r = 0
    for k, v in c.m.items():
        t = v
        for s in k:
            t *= 1009 + (sum(map(ord, s)) % 500) if not s.startswith('@') else 10 ** 9
        r += t
    return abs(r)


class Interp:
    UNROLL = 40
    DENSE = 4096
    DEPTH = 60

    def __init__(self, prog):
        self.prog = prog
        self.base_mem = {}
        self.st = State(self.base_mem)
        self.gl = {}
        self.gsym = {}               # global name -> value override
        self.frames = []
        self.gens = []
        self.opaque = {}
        self.file, self.line = '', 0
        self.where = {}
        self.omp = None              # literal (thread, team size)
        self.shared = []             # what that thread changed outside its region
        self.oob = []                # definite out-of-bounds accesses
        self.accesses = []           # symbolic accesses (buf, off, size, pc, gens, where)
        self.log_access = False
        self.carried = []
        self.calls = set()
        self.fresh = 0
        self.undefs = {}
        self.effects = []
        self.unmodelled = set()
        self.ctx = []

    # ------------------------------------------------------------ utilities
    def fr(self):
        return self.frames[-1]

    def here(self):
        return '%s:%d' % (relp(self.file), self.line)

    def typ(self, i):
        return self.fr().tt[i] if isinstance(i, int) else i

    def sym(self, pre):
        self.fresh += 1
        return '%s%d' % (pre, self.fresh)

    def cur(self, loc):
        m = self.st.mem
        if loc in m:
            return m[loc]
        if loc in self.base_mem:
            return self.base_mem[loc]
        if loc in self.undefs:
            return self.undefs[loc]
        raise Unmodelled('no value for %s' % loc.n)

    # ------------------------------------------------------------ buffers
    def newbuf(self, name, size, kind, base='undef', init=None):
        b = BufLoc(name, size, kind, base)
        if isinstance(size, int) and size <= self.DENSE:
            if init is not None:
                v = list(init)
            elif base == 'undef':
                u = '%s#%d' % (name, b.i)
                v = [self.undefv(kind, '%s[%d]' % (u, i)) for i in range(size)]
            else:
                v = [self.inval(kind, base, i) for i in range(size)]
            self.st.mem[b] = v
            self.st.owned.add(b)
        else:
            self.st.mem[b] = Log(kind, (base, '%s#%d' % (name, b.i)), (), size)
        return b

    def undefv(self, kind, tag):
        if kind == 'f' or kind == 'c':
            return undef(tag)
        if kind == 'b':
            return X.buf_('undef', (tag,))
        return X.ikernel('undef', tag)

    def inval(self, kind, base, i):
        if callable(base):
            return base(i)
        if kind in ('f', 'c'):
            return rd(base, i)
        if kind == 'b':
            return brd(base, i)
        return ird(base, i)

    def readbuf(self, buf, off, record=True):
        c = self.cur(buf)
        if isinstance(c, list):
            if isinstance(off, int):
                if not 0 <= off < len(c):
                    self.note_oob(buf, off, len(c))
                    return self.undefv(buf.kind, 'out-of-bounds %s[%d]' % (buf.n, off))
                return c[off]
            self.note_access(buf, off, len(c), False)
            return self.select(c, off, buf)
        self.note_access(buf, off, c.size, False)
        if record and self.gens:
            for g in self.gens:
                g.reads.append((buf, off, self.st.pc, self.here()))
        return self.resolve(c, off)

    def select(self, c, off, buf):
        r = None
        for i in reversed(range(len(c))):
            r = c[i] if r is None else self.merge_val(ieq(off, i), c[i], r)
        return r

    def writebuf(self, buf, off, v, acc=None):
        """acc: the delta when the store is `old + delta`."""
        c = self.cur(buf)
        w = self.here()
        if isinstance(c, list):
            if buf not in self.st.owned:
                c = list(c)
                self.st.mem[buf] = c
                self.st.owned.add(buf)
            if isinstance(off, int):
                if not 0 <= off < len(c):
                    self.note_oob(buf, off, len(c))
                    return
                c[off] = v
                self.where[(buf, off)] = w
                return
            self.note_access(buf, off, len(c), True)
            for i in range(len(c)):
                c[i] = self.merge_val(ieq(off, i), v, c[i])
                self.where[(buf, i)] = w
            return
        self.note_access(buf, off, c.size, True)
        self.append(buf, Ent(off, (0,), (v,) if acc is None else (acc,), self.st.cond(), (), acc is not None, w))

    def append(self, buf, e):
        c = self.cur(buf)
        self.st.mem[buf] = Log(c.kind, c.base, c.ent + (e,), c.size)

    def note_oob(self, buf, off, size):
        self.oob.append((buf.n, off, size, self.here(), self.st.cond()))

    def note_access(self, buf, off, size, wr):
        if self.log_access:
            self.accesses.append((buf, off, size, wr, self.st.pc,
                                  tuple((g.v, g.lo, g.hi) for g in self.gens), self.here()))

    # --- resolution of a read against a store log
    def resolve(self, log, off, n=None):
        ents = log.ent if n is None else log.ent[:n]
        pcs = set(self.st.pc)
        out = []                 # (cond, kind, value)
        for e in reversed(ents):
            hits = self.hit(e, off)
            full = False
            for cond, val in hits:
                conds = cond.a if cond.k == 'and' else (cond,)
                left = [x for x in conds if x not in pcs]
                cond = band(*left)
                if cond is FALSE:
                    continue
                out.append((cond, e.acc, val))
                if cond is TRUE and not e.acc:
                    full = True
                    break
            if full:
                break
        else:
            out.append((TRUE, False, self.baseval(log, off)))
        r = out[-1][2]
        for cond, acc, val in reversed(out[:-1]):
            if acc:
                r = add(r, ite(cond, val, ZERO))
            else:
                r = self.merge_val(cond, val, r)
        return r

    def baseval(self, log, off):
        base, tag = log.base
        if base == 'undef':
            if log.kind == 'f':
                return X.uf('undef:' + tag, 0, (off,))
            if log.kind == 'b':
                return X.buf_('undef:' + tag, (off,))
            return X.ikernel('undef', tag, off)
        return self.inval(log.kind, base, off)

    def hit(self, e, off):
        """[(condition, value)] under which entry e provides address off."""
        out = []
        if not e.loops:
            d = psub(off, e.off)
            for k, co in enumerate(e.co):
                dd = psub(d, co)
                if isinstance(dd, int):
                    if dd == 0:
                        out.append((e.guard, e.vals[k]))
                    continue
                if self.nonzero(dd):
                    continue
                out.append((band(e.guard, ieq(dd, 0)), e.vals[k]))
            return out
        vs = [l[0] for l in e.loops]
        lin, rest = self.affine(e.off, vs)
        if lin is None:
            raise Unmodelled('non-affine subscript %s' % e.off)
        active = [v for v in vs if v in lin]
        active.sort(key=lambda v: -stride_val(lin[v]))
        if len(e.co) > 1 and not all(isinstance(c, int) for c in e.co):
            cands = list(enumerate(e.co))
        else:
            cands = None
        res = []
        if cands is None and len(e.co) > 1:
            sols = self.solve(psub(off, rest), [lin[v] for v in active], max(e.co) + 1)
            if not sols:
                raise Unmodelled('cannot invert subscript %s = %s' % (e.off, off))
            for qs, r in sols:
                r = norm(r) if isinstance(r, Poly) else r
                if isinstance(r, int):
                    if r in e.co:
                        res.append((e.co.index(r), qs))
                else:
                    for k, co in enumerate(e.co):
                        if not self.nonzero(psub(r, co)):
                            res.append((k, qs))
        else:
            for k, co in (cands if cands is not None else [(0, e.co[0])]):
                t = psub(psub(off, rest), co)
                if not active:
                    if not self.nonzero(t):
                        res.append((k, []))
                    continue
                sols = self.solve(t, [lin[v] for v in active], 1)
                if not sols:
                    raise Unmodelled('cannot invert subscript %s = %s' % (e.off, off))
                for qs, r in sols:
                    if isinstance(r, int) and r != 0:
                        continue
                    res.append((k, qs))
        for k, qs in res:
            mp = {v: q for v, q in zip(active, qs)}
            val, guard = e.vals[k], e.guard
            free = [l for l in e.loops if l[0] not in mp]
            # address-independent loop variables: the last iteration that stores
            for (v, lo, hi) in reversed(free):
                if e.acc:
                    if X.idep((val, guard), [v]):
                        val = X.mk('fold', 'sum', v, lo, hi, (), (), (ite(guard, val, ZERO),))
                        guard = X.buf_('exists', (X.mk('fold', 'ex', v, lo, hi, (), (), (ite(guard, ONE, ZERO),)),))
                        val = ite(guard, val, ZERO)
                    else:
                        val = mul(lift(psub(hi, lo)), val)
                    guard = band(guard, ilt(lo, hi))
                elif X.idep(guard, [v]):
                    f = X.mk('fold', 'ex', v, lo, hi, (), (), (ite(guard, ONE, ZERO),))
                    sk = X.ikernel('skolem', f)
                    val = X.isubst(val, {v: sk})
                    guard = X.buf_('exists', (f,))
                else:
                    val = X.isubst(val, {v: psub(hi, 1)})
                    guard = band(guard, ilt(lo, hi))
            # ranges may refer to outer loop variables: substitute together
            rng = [band(ige(psym(v), lo), ilt(psym(v), hi)) for (v, lo, hi) in e.loops if v in mp]
            eq = ieq(psub(padd(e.off, e.co[k]), off), 0)
            cond = X.isubst(band(guard, eq, *rng), mp) if mp else band(guard, eq, *rng)
            if mp:
                val = X.isubst(val, mp)
            out.append((cond, val))
        return out

    @staticmethod
    def nonzero(d):
        """d (non-constant polynomial) can be shown never to vanish by gcd."""
        from math import gcd
        if isinstance(d, int):
            return d != 0
        g = 0
        for k, c in d.m.items():
            if k != ():
                g = gcd(g, abs(c))
        return g > 0 and d.m.get((), 0) % g != 0

    @staticmethod
    def affine(off, vs):
        lin = {}
        rest = {}
        vset = set(vs)
        if isinstance(off, int):
            return {}, off
        for k, c in off.m.items():
            hit = [s for s in k if s in vset]
            if not hit:
                for s in k:
                    if s in X._ik and X.idep(psym(s), vset):
                        return None, None
                rest[k] = c
            elif len(hit) == 1:
                r = list(k)
                r.remove(hit[0])
                lin.setdefault(hit[0], {})
                lin[hit[0]][tuple(r)] = c
            else:
                return None, None
        return {v: norm(Poly(m)) for v, m in lin.items()}, norm(Poly(rest))

    @staticmethod
    def solve(t, strides, span):
        """Candidates ([q_i], r) with t = sum q_i * strides_i + r, strides ordered
        from the largest.  Every candidate is guarded by its range and by the
        equality of addresses, so a superfluous one is harmless."""
        from math import gcd
        sols = [([], t)]
        for n, s in enumerate(strides):
            nxt = []
            for qs, t in sols:
                if isinstance(s, int):
                    q, r = {}, {}
                    for k, c in P(t).m.items():
                        if k == ():
                            qq = c // abs(s)
                            if qq:
                                q[k] = qq * (1 if s > 0 else -1)
                            if c - qq * abs(s):
                                r[k] = c - qq * abs(s)
                        elif c % s == 0:
                            q[k] = c // s
                        else:
                            # split the coefficient when it exceeds the stride
                            r[k] = c
                    q, r = norm(Poly(q)), norm(Poly(r))
                    nxt.append((qs + [q], r))
                    if isinstance(r, Poly) and len(nxt) < 4 and any(k != () and gcd(abs(c), abs(s)) > 1 for k, c in r.m.items()):
                        # the remainder may span several strides
                        dv = X.idiv(r, abs(s))
                        nxt.append((qs + [padd(q, dv if s > 0 else pmul(dv, -1))], psub(r, pmul(dv, abs(s)))))
                    continue
                res = divmono(t, s)
                if res is None:
                    return None
                q, r = res
                q = norm(q) if isinstance(q, Poly) else q
                r = norm(r) if isinstance(r, Poly) else r
                for _ in range(3):
                    if psign(r) >= 0:
                        break
                    q, r = padd(q, -1), padd(r, s)
                nxt.append((qs + [q], r))
                if psign(r) == 2 and len(nxt) < 4:
                    nxt.append((qs + [padd(q, -1)], padd(r, s)))
            sols = nxt
        return sols

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, bool):
            a = b_(a)
        if isinstance(b, bool):
            b = b_(b)
        if isinstance(a, T) or isinstance(b, T):
            return ite(c, lift(a), lift(b))
        if isinstance(a, B) or isinstance(b, B):
            return bite(c, b_(a), b_(b))
        if is_int(a) and is_int(b):
            return iite(c, a, b)
        if isinstance(a, EM) and isinstance(b, EM):
            if a.same(b):
                return a
            if a.rows == b.rows and a.cols == b.cols:
                # same shape, different storage: merge contents into a new buffer
                va, vb = self.cur(a.buf), self.cur(b.buf)
                if isinstance(va, list) and isinstance(vb, list):
                    nb = self.newbuf(a.buf.n, len(va), a.kind,
                                     init=[self.merge_val(c, x, y) for x, y in zip(va, vb)])
                    return EM(nb, a.rows, a.cols, a.rm, a.kind, a.arr, a.dr, a.dc)
            return Obj('ambiguous')
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf:
            return Ptr(a.buf, iite(c, a.off, b.off), a.kind)
        if isinstance(a, View) and isinstance(b, View) and a.buf is b.buf and a.rows == b.rows and a.off == b.off:
            return a
        if isinstance(a, SVec) and isinstance(b, SVec) and a.e == b.e:
            return a
        return Obj('ambiguous')

    def merge(self, c, a, b):
        """State a when c else b (either may be None = dead)."""
        if a is None:
            return b
        if b is None:
            return a
        c = b_(c)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        pa, pb = list(a.pc), list(b.pc)
        common = tuple(x for x in pa if x in pb)
        ra = [x for x in pa if x not in common]
        rb = [x for x in pb if x not in common]
        extra = bor(band(*ra), band(*rb))
        conds = [c] + ra
        if band(*ra) is c and band(*rb) is bnot(c):
            extra = TRUE
        pc = common
        if extra is not TRUE:
            pc = pc + (extra,)
        r = State(dict(a.mem), pc)
        save = self.st
        self.st = r
        try:
            keys = set(a.mem) | set(b.mem)
            for k in keys:
                va = a.mem.get(k, self.base_mem.get(k))
                vb = b.mem.get(k, self.base_mem.get(k))
                if va is vb:
                    continue
                if va is None or vb is None:
                    r.mem[k] = va if vb is None else vb
                    continue
                if isinstance(va, list):
                    if isinstance(vb, list) and len(va) == len(vb):
                        r.mem[k] = [x if x is y else self.merge_val(c, x, y) for x, y in zip(va, vb)]
                        continue
                    raise Unmodelled('buffer merge')
                if isinstance(va, Log):
                    n = 0
                    m = min(len(va.ent), len(vb.ent))
                    while n < m and va.ent[n] is vb.ent[n]:
                        n += 1
                    r.mem[k] = Log(va.kind, va.base, va.ent + vb.ent[n:], va.size)
                    continue
                if isinstance(va, EM) or isinstance(vb, EM):
                    # contents looked up in the right states
                    if isinstance(va, EM) and isinstance(vb, EM) and va.same(vb):
                        r.mem[k] = va
                    elif isinstance(va, EM) and isinstance(vb, EM) and va.rows == vb.rows and va.cols == vb.cols:
                        ca = a.mem.get(va.buf)
                        cb = b.mem.get(vb.buf)
                        if isinstance(ca, list) and isinstance(cb, list):
                            nb = self.newbuf(va.buf.n, len(ca), va.kind,
                                             init=[self.merge_val(c, x, y) for x, y in zip(ca, cb)])
                            r.mem[k] = EM(nb, va.rows, va.cols, va.rm, va.kind, va.arr, va.dr, va.dc)
                        else:
                            r.mem[k] = Obj('ambiguous')
                    else:
                        # one side not yet sized: keep the sized one
                        if isinstance(va, EM) and va.rows == 0:
                            r.mem[k] = vb
                        elif isinstance(vb, EM) and vb.rows == 0:
                            r.mem[k] = va
                        else:
                            r.mem[k] = Obj('ambiguous')
                    continue
                r.mem[k] = self.merge_val(c, va, vb)
        finally:
            self.st = save
        return r

    def merge_many(self, states):
        """Join mutually exclusive states (by path condition)."""
        states = [s for s in states if s is not None]
        if not states:
            return None
        r = states[-1]
        for s in reversed(states[:-1]):
            common = [x for x in s.pc if x in r.pc]
            c = band(*[x for x in s.pc if x not in common])
            r = self.merge(c, s, r)
        return r

    # ------------------------------------------------------------ declarations
    def fieldval(self, rec, n, t):
        """Initial value of a record field."""
        tt = t
        nm = rec.name + '.' + n
        if rec.fresh:
            if tt and tt.get('c') == 'b':
                k = self.kindof(tt)
                return self.undefv(k, nm)
        idx = rec.idx
        if tt is None:
            return S(nm)
        c = tt.get('c')
        if c in ('b', 'enum'):
            k = self.kindof(tt)
            if idx is None:
                if k == 'f':
                    return S(nm)
                if k == 'b':
                    return brd(nm, 0)
                return psym(nm)
            return self.inval(k, nm, idx)
        if c == 'rec':
            q = tt['n']
            if rec.fresh and (q in ('Eigen::Matrix', 'Eigen::Array') or q.startswith('std::')):
                sv = dict(self.st.mem)
                v = self.default(tt, nm)
                for k, x in self.st.mem.items():
                    if k not in sv:
                        self.base_mem[k] = x
                return v
            if q.startswith('Eigen::') and not q.startswith(('Eigen::Matrix', 'Eigen::Array', 'Eigen::Ref', 'Eigen::Map')) or q.startswith('std::'):
                return Obj(q)
            if q.startswith('Eigen::'):
                d = self.mtype(tt)
                rows, cols = d['r'], d['c']
                base = nm
                if idx is None:
                    init = [S('%s[%d]' % (nm, i)) for i in range(rows * cols)]
                else:
                    init = [rd('%s[%d]' % (nm, i), idx) for i in range(rows * cols)]
                b = BufLoc(nm, rows * cols, d['k'], nm)
                self.base_mem[b] = init
                return EM(b, rows, cols, d['rm'], d['k'], d['arr'], d['r'], d['c'])
            return Rec(self, q, nm, idx, rec.fresh)
        if c == 'ptr':
            return Obj('uninit-ptr')
        if c == 'arr' and isinstance(tt.get('n'), int):
            k = self.kindof(tt['e'])
            if k != 'o' and idx is None:
                b = BufLoc(nm, tt['n'], k, nm)
                self.base_mem[b] = [self.undefv(k, '%s[%d]' % (nm, i)) if rec.fresh else self.inval(k, nm, i) for i in range(tt['n'])]
                return Ptr(b, 0, k)
        raise Unmodelled('field %s of type %s' % (nm, c))

    def kindof(self, t):
        t = self.typ(t) if isinstance(t, int) else t
        if t.get('c') == 'enum':
            return 'i'
        if t.get('c') == 'b':
            return {'f': 'f', 'i': 'i', 'bool': 'b'}.get(t['k'], 'o')
        if t.get('c') == 'rec' and t['n'] == 'std::complex':
            return 'c'
        return 'o'

    def mtype(self, t):
        """Eigen type -> dims."""
        n = t['n']
        a = t['a']
        if n in ('Eigen::Matrix', 'Eigen::Array'):
            k = self.kindof(self.tyarg(a[0]))
            r, c = a[1], a[2]
            opt = a[3] if len(a) > 3 else 0
            return {'k': k, 'r': r, 'c': c, 'rm': bool(opt & 1), 'arr': n == 'Eigen::Array'}
        if n in ('Eigen::Ref', 'Eigen::Map'):
            d = dict(self.mtype(self.tyarg(a[0])))
            return d
        raise Unmodelled('matrix type ' + n)

    def tyarg(self, a):
        if isinstance(a, dict) and 't' in a:
            return self.typ(a['t'])
        return a

    def new_em(self, name, d, rows, cols, base='undef', init=None):
        size = pmul(rows, cols)
        buf = self.newbuf(name, size, d['k'], base, init)
        rm = d['rm'] and cols != 1 or rows == 1
        return EM(buf, rows, cols, rm, d['k'], d['arr'], d['r'], d['c'])

    def emview(self, em, loc=None):
        if em.cols == 1:
            rs, cs = 1, em.rows
        elif em.rm:
            rs, cs = em.cols, 1
        else:
            rs, cs = 1, em.rows
        return View(self, em.buf, 0, em.rows, em.cols, rs, cs, em.kind, em.arr, loc)

    def copy_rec(self, v):
        r = Rec(self, v.cls, self.sym(v.name + "'"), v.idx, v.fresh)
        r.parent = v
        for n, l in v.f.items():
            x = self.cur(l)
            l2 = Loc(r.name + '.' + n)
            r.f[n] = l2
            if isinstance(x, EM):
                x = self.copy_em(x)
            elif isinstance(x, Rec):
                x = self.copy_rec(x)
            elif isinstance(x, SVec):
                x = self.copy_vec(x)
            self.st.mem[l2] = x
        return r

    def default(self, t, name):
        """Default-initialised object of type t."""
        t = self.typ(t) if isinstance(t, int) else t
        c = t.get('c')
        if c in ('b', 'enum'):
            self.fresh += 1
            return self.undefv(self.kindof(t), '%s#%d' % (name, self.fresh))
        if c == 'rec':
            n = t['n']
            if n in ('Eigen::Matrix', 'Eigen::Array'):
                d = self.mtype(t)
                return self.new_em(name, d, max(d['r'], 0), max(d['c'], 0))
            if n == 'std::vector':
                return SVec(())
            if n in ('std::array', 'std::pair', 'std::tuple'):
                return self.default_agg(t)
            if n.startswith('Eigen::'):
                return Obj(n)
            if n.startswith('std::'):
                return Obj(n)
            r = Rec(self, n, self.sym(name + '#'), None, True)
            self.class_init(r)
            return r
        if c == 'ptr':
            return Obj('uninit-ptr')
        if c == 'arr':
            n = t.get('n')
            k = self.kindof(self.typ(t['e']))
            if isinstance(n, int) and k != 'o':
                return Ptr(self.newbuf(name, n, k), 0, k)
        raise Unmodelled('declaration of type %s' % (t.get('n') or c))

    # ------------------------------------------------------------ calling
    def call_named(self, q, args, nparams=None, pred=None):
        F = self.prog.one(q, nparams, pred)
        return self.call(F, args)

    def resolve_fn(self, f, tu):
        c = self.prog.bysig.get(f.get('sig'), [])
        if not c:
            c = self.prog.byq.get(f['q'], [])
            if len({x.sig for x in c}) > 1:
                c = []
        if not c:
            return None
        for x in c:
            if x.tu == tu:
                return x
        return c[0]

    def call(self, F, args, this=None):
        """args: list of already evaluated arguments (values or lvalues)."""
        self.calls.add(F)
        h = self.opaque.get(F.q)
        if h is not None:
            self.othis = this
            return h(self, F, args)
        if len(self.frames) > self.DEPTH:
            raise Unmodelled('call depth')
        if F.body is None:
            raise Unmodelled('no body for ' + F.q)
        fr = Frame(F, F.tt)
        fr.this = this
        self.frames.append(fr)
        sv = (self.file, self.line)
        self.file = F.file
        try:
            for p, a in zip(F.params, args):
                self.bind(p, a)
            pc0 = self.st.pc
            for ini in F.d.get('inits') or []:
                self.exec_init(ini)
            self.exec(F.body)
            rv = self.finish(fr, pc0)
            return rv
        except Exception as e:
            if not hasattr(e, 'at'):
                e.at = self.here()
            raise
        finally:
            self.frames.pop()
            self.file, self.line = sv

    def exec_init(self, ini):
        if ini.get('base') and ini['e'].get('k') == 'ctor':
            e = ini['e']
            F = self.resolve_fn(e['f'], self.fr().F.tu) if e.get('f') else None
            if F is not None and F.body is not None:
                self.call(F, self.args(F, e['a']), this=self.fr().this)
            elif e['a']:
                raise Unmodelled('base constructor')
            return
        if 'n' not in ini:
            return
        this = self.fr().this
        t = self.fields(this).get(ini['n'])
        if t is not None and t.get('c') in ('ref', 'rref'):
            v = self.lv(ini['e'])
            if isinstance(v, (Loc, Elem, CLoc)):
                this.f[ini['n']] = v
                return
            l = this.f.setdefault(ini['n'], Loc(this.name + '.' + ini['n']))
            self.st.mem[l] = v
            return
        v = self.eval(ini['e'])
        if t is not None:
            v = self.initv(v, t, ini['n'], ini['e'])
        l = this.f.get(ini['n'])
        if l is None:
            l = this.f[ini['n']] = Loc(this.name + '.' + ini['n'])
        self.st.mem[l] = v

    def finish(self, fr, pc0):
        outs = list(fr.rets)
        if self.st is not None:
            outs.append((self.st, None))
        if not outs:
            self.st = None
            raise Dead()
        st, v = outs[-1]
        for s, w in reversed(outs[:-1]):
            common = [x for x in s.pc if x in st.pc]
            c = band(*[x for x in s.pc if x not in common])
            m = self.merge(c, s, st)
            if v is not None and w is not None:
                self.st = m
                v = self.merge_ret(c, w, v, s, st)
            elif v is None:
                v = w
            st = m
        self.st = st
        # the path condition on return is the one on entry minus nothing: states
        # that threw are gone, so keep what is left
        if len(outs) > 1 or True:
            st.pc = self.restore_pc(st.pc, pc0, outs)
        return v

    def restore_pc(self, pc, pc0, outs):
        tot = bor(*[band(*[x for x in s.pc if x not in pc0]) for s, _ in outs])
        if tot is TRUE or self.tautology(tot):
            return pc0
        return pc0 + ((tot,) if tot not in pc0 else ())

    def tautology(self, c):
        """Propositional tautology over few atoms."""
        atoms = []

        def col(x):
            if x.k == 'not':
                col(x.a[0])
            elif x.k == 'and':
                for y in x.a:
                    col(y)
            elif x.k != 'c' and x not in atoms:
                atoms.append(x)
        col(c)
        if len(atoms) > 12:
            return False

        def ev(x, m):
            if x.k == 'c':
                return x.a[0]
            if x.k == 'not':
                return not ev(x.a[0], m)
            if x.k == 'and':
                return all(ev(y, m) for y in x.a)
            return m[x]
        # integer switch chains: at most one equality over the same polynomial holds
        for bits in range(1 << len(atoms)):
            m = {a: bool(bits >> i & 1) for i, a in enumerate(atoms)}
            if not ev(c, m):
                return False
        return True

    def merge_ret(self, c, w, v, sw, sv):
        if isinstance(w, EM) and isinstance(v, EM):
            if w.same(v):
                return w
            if w.rows == v.rows and w.cols == v.cols:
                a, b = sw.mem.get(w.buf), sv.mem.get(v.buf)
                if isinstance(a, list) and isinstance(b, list):
                    nb = self.newbuf('ret', len(a), w.kind, init=[self.merge_val(c, x, y) for x, y in zip(a, b)])
                    return EM(nb, w.rows, w.cols, w.rm, w.kind, w.arr, w.dr, w.dc)
                if isinstance(a, Log) and isinstance(b, Log):
                    # two differently named logs: build one log that reads the others
                    ita, itb = a, b
                    me = self

                    def base(i, ita=ita, itb=itb, c=c):
                        return me.merge_val(c, me.resolve(ita, i), me.resolve(itb, i))
                    nb = BufLoc('ret', a.size, w.kind, base)
                    self.st.mem[nb] = Log(w.kind, (base, 'ret'), (), a.size)
                    return EM(nb, w.rows, w.cols, w.rm, w.kind, w.arr, w.dr, w.dc)
            raise Unmodelled('return of differently shaped matrices')
        if isinstance(w, Rec) and isinstance(v, Rec):
            if w is v:
                return w
            r = Rec(self, w.cls, self.sym('ret#'), None, True)
            for n in set(w.f) | set(v.f):
                l = Loc('ret.' + n)
                r.f[n] = l
                lw, lv = w.f.get(n), v.f.get(n)
                vw = sw.mem.get(lw, self.base_mem.get(lw)) if lw else None
                vv = sv.mem.get(lv, self.base_mem.get(lv)) if lv else None
                self.st.mem[l] = vw if vv is None else vv if vw is None else self.merge_val(c, vw, vv)
            return r
        if isinstance(w, SVec) or isinstance(v, SVec):
            if isinstance(w, SVec) and isinstance(v, SVec) and w.e == v.e:
                return w
            raise Unmodelled('return of different vectors')
        return self.merge_val(c, w, v)

    def bind(self, p, a):
        fr = self.fr()
        t = self.typ(p['t'])
        if t.get('c') in ('ref', 'rref'):
            if isinstance(a, (Loc, Elem, CLoc)):
                fr.env[p['id']] = a
                return
            l = Loc(p.get('n', ''))
            self.st.mem[l] = a
            fr.env[p['id']] = l
            return
        if t.get('c') == 'ptr' and isinstance(a, Loc):
            l = Loc(p.get('n', ''))
            self.st.mem[l] = a
            fr.env[p['id']] = l
            return
        if isinstance(a, CLoc):
            a = self.val(a)
        if isinstance(a, Elem):
            a = self.readbuf(a.buf, a.off)
        elif isinstance(a, Loc):
            a = self.cur(a)
        l = Loc(p.get('n', ''))
        self.st.mem[l] = self.convert(a, t, p.get('n', ''))
        fr.env[p['id']] = l

    def convert(self, v, t, name):
        """Initialise an object of type t from value v (copy semantics)."""
        c = t.get('c')
        if c in ('b', 'enum'):
            if isinstance(v, list):
                v = v[0] if v else 0
            return self.toscalar(v, self.kindof(t))
        if c == 'rec':
            n = t['n']
            if n in ('Eigen::Matrix', 'Eigen::Array'):
                if isinstance(v, EM):
                    v = self.emview(v)
                if isinstance(v, Mx):
                    return self.copy_mx(v, self.mtype(t), name)
                return v
            if n == 'Eigen::Ref':
                return self.toref(v, t)
            if isinstance(v, SVec):
                return self.copy_vec(v)
            if n in ('std::array', 'std::pair', 'std::tuple') and isinstance(v, list):
                return self.make_agg(t, v)
            if isinstance(v, Rec):
                return self.copy_rec(v)
        return v

    def toscalar(self, v, k):
        if isinstance(v, Mx):
            if v.rows == 1 and v.cols == 1:
                v = v.get(0, 0)
            else:
                raise Unmodelled('matrix to scalar')
        if k in ('f', 'c'):
            if isinstance(v, (int, Poly, B)) :
                return lift(v)
            return v
        if k == 'i':
            if isinstance(v, T):
                return X.itrunc(v)
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, B):
                return iite(v, 1, 0)
            return v
        if k == 'b':
            return b_(v) if not isinstance(v, (Obj, Ptr)) else v
        return v

    def copy_mx(self, v, d, name):
        """New owning matrix holding the values of v."""
        rows, cols = v.rows, v.cols
        if d['r'] == 1 and cols == 1 and rows != 1 or d['c'] == 1 and rows == 1 and cols != 1:
            v0 = v
            v = Mx(cols, rows, lambda r, c, v0=v0: v0.get(c, r), v0.kind, v0.arr)
            rows, cols = v.rows, v.cols
        em = self.new_em(name, d, rows, cols)
        self.assign(self.emview(em), v)
        return em

    def toref(self, v, t):
        if isinstance(v, EM):
            v = self.emview(v)
        d = self.mtype(t)
        if isinstance(v, View):
            if d['c'] == 1 and v.rows == 1 and v.cols != 1:
                v = v.T()
            elif d['r'] == 1 and v.cols == 1 and v.rows != 1:
                v = v.T()
            return v.asarr(d['arr'])
        if isinstance(v, Mx):
            em = self.copy_mx(v, d, 'refcopy')
            return self.emview(em).asarr(d['arr'])
        raise Unmodelled('Ref of %s' % type(v).__name__)

    # ------------------------------------------------------------ assignment
    def vals(self, m):
        """Concrete list of element values (row-major)."""
        if isinstance(m, EM):
            m = self.emview(m)
        if not (isinstance(m.rows, int) and isinstance(m.cols, int)):
            raise Unmodelled('symbolic-size matrix where a literal size is needed')
        return [m.get(r, c) for r in range(m.rows) for c in range(m.cols)]

    def force(self, m):
        if isinstance(m, Vals) or not (isinstance(m.rows, int) and isinstance(m.cols, int)):
            return m
        return Vals(m.rows, m.cols, self.vals(m), m.kind, m.arr)

    def assign(self, dst, src, op='='):
        """dst: View.  src: Mx.  op: '=', '+=', '-='"""
        if src.rows != dst.rows or src.cols != dst.cols:
            if (isinstance(src.rows, Poly) or isinstance(dst.rows, Poly) or
                    isinstance(src.cols, Poly) or isinstance(dst.cols, Poly)):
                if src.cols == 1 and dst.rows == 1 or src.rows == 1 and dst.cols == 1:
                    s0 = src
                    src = Mx(s0.cols, s0.rows, lambda r, c: s0.get(c, r), s0.kind, s0.arr)
            elif src.rows == dst.cols and src.cols == dst.rows and 1 in (src.rows, src.cols):
                s0 = src
                src = Mx(s0.cols, s0.rows, lambda r, c: s0.get(c, r), s0.kind, s0.arr)
            else:
                self.note_shape(dst, src)
                raise Unmodelled('shape mismatch %sx%s <- %sx%s at %s' % (dst.rows, dst.cols, src.rows, src.cols, self.here()))
        rows, cols = dst.rows, dst.cols
        c = self.cur(dst.buf)
        k = dst.kind
        if isinstance(rows, int) and isinstance(cols, int):
            vs = [src.get(r, cc) for r in range(rows) for cc in range(cols)]
            vs = [self.toscalar(x, k) for x in vs]
            if isinstance(c, list):
                i = 0
                for r in range(rows):
                    for cc in range(cols):
                        o = dst.at(r, cc)
                        v = vs[i]
                        i += 1
                        if op != '=':
                            old = self.readbuf(dst.buf, o)
                            v = self.arith(op[0], old, v)
                        self.writebuf(dst.buf, o, v)
                return
            co = tuple(padd(pmul(r, dst.rs), pmul(cc, dst.cs)) for r in range(rows) for cc in range(cols))
            if not vs:
                return
            acc = False
            if op == '+=':
                acc = True
            elif op == '-=':
                acc = True
                vs = [neg(v) for v in vs]
            else:
                # x = x + d  written out: the same accumulation
                acc, vs = self.as_acc(dst.buf, dst.off, co, vs)
            for o in co[:1] + co[-1:]:
                self.note_access(dst.buf, padd(dst.off, o), c.size, True)
            self.append(dst.buf, Ent(dst.off, co, tuple(vs), self.st.cond(), (), acc, self.here()))
            return
        # symbolic extent: one generic element per (row, column)
        loops = []
        if isinstance(rows, int) and rows <= 64:
            rr = list(range(rows))
        else:
            v = self.sym('r')
            loops.append((v, 0, rows))
            rr = [psym(v)]
        if isinstance(cols, int) and cols <= 64:
            cc_ = list(range(cols))
        else:
            v = self.sym('c')
            loops.append((v, 0, cols))
            cc_ = [psym(v)]
        pcsave = self.st.pc
        for (v, lo, hi) in loops:
            g = Gen(v, lo, hi)
            self.gens.append(g)
        try:
            vals = [self.toscalar(src.get(r, q), k) for r in rr for q in cc_]
        finally:
            for _ in loops:
                self.gens.pop()
        r0 = rr[0] if len(rr) == 1 else 0
        c0 = cc_[0] if len(cc_) == 1 else 0
        base = dst.at(r0, c0)
        co = tuple(psub(dst.at(r, q), base) for r in rr for q in cc_)
        if op == '-=':
            vals = [neg(v) for v in vals]
        if isinstance(c, list):
            raise Unmodelled('symbolic store into a small buffer')
        for o in (co[0], co[-1]):
            if self.log_access:
                self.accesses.append((dst.buf, padd(base, o), c.size, True, self.st.pc,
                                      tuple((g.v, g.lo, g.hi) for g in self.gens) + tuple(loops), self.here()))
        self.append(dst.buf, Ent(base, co, tuple(vals), self.st.cond(), tuple(loops), op != '=', self.here()))

    def note_shape(self, dst, src):
        self.effects.append(('shape', dst.buf.n, (dst.rows, dst.cols), (src.rows, src.cols), self.here(), self.st.cond()))

    def as_acc(self, buf, off, co, vs):
        if not self.gens or self.cur(buf).kind != 'f':
            return False, vs
        out = []
        for o, v in zip(co, vs):
            if not isinstance(v, T) or v.k not in ('+', '-'):
                return False, vs
            old = self.readbuf(buf, padd(off, o), record=False)
            d = peel(v, old)
            if d is None:
                return False, vs
            out.append(d)
        # the reads of the old value belong to the accumulation
        offs = {padd(off, o) for o in co}
        for g in self.gens:
            g.reads = [r for r in g.reads if not (r[0] is buf and r[1] in offs)]
        return True, out

    # ------------------------------------------------------------ scalars
    def arith(self, op, a, b):
        if isinstance(a, Mx) and a.rows == 1 and a.cols == 1 and isinstance(b, (T,)):
            a = a.get(0, 0)
        if isinstance(b, Mx) and b.rows == 1 and b.cols == 1 and isinstance(a, (T,)):
            b = b.get(0, 0)
        if isinstance(a, (Mx, EM)) or isinstance(b, (Mx, EM)):
            return self.marith(op, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf and op == '-':
            return psub(a.off, b.off)
        if isinstance(a, Ptr):
            return Ptr(a.buf, padd(a.off, b, 1 if op == '+' else -1), a.kind)
        if isinstance(a, T) or isinstance(b, T):
            a, b = lift(a), lift(b)
            if op == '+': return add(a, b)
            if op == '-': return sub(a, b)
            if op == '*': return mul(a, b)
            if op == '/': return div(a, b)
        if isinstance(a, (bool, B)):
            a = self.toscalar(a, 'i')
        if isinstance(b, (bool, B)):
            b = self.toscalar(b, 'i')
        if is_int(a) and is_int(b):
            if op == '+': return padd(a, b)
            if op == '-': return psub(a, b)
            if op == '*': return pmul(a, b)
            if op == '/': return X.idiv(a, b)
            if op == '%': return X.imod(a, b)
            if op in ('<<', '>>', '&', '|', '^') and isinstance(a, int) and isinstance(b, int) and (op in '&|^' or 0 <= b < 63):
                return {'<<': lambda: a << b, '>>': lambda: a >> b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[op]()
        raise Unmodelled('operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__))

    def compare(self, op, a, b):
        if isinstance(a, (Mx, EM)) or isinstance(b, (Mx, EM)):
            return self.mcompare(op, a, b)
        if isinstance(a, T) or isinstance(b, T):
            a, b = lift(a), lift(b)
            r = {'<': lambda: rlt(a, b), '>': lambda: rlt(b, a), '<=': lambda: rle(a, b),
                 '>=': lambda: rle(b, a), '==': lambda: req(a, b), '!=': lambda: bnot(req(a, b))}[op]()
            return r
        if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
            e = bor(band(a, b), band(bnot(b_(a)), bnot(b_(b))))
            if op == '==': return e
            if op == '!=': return bnot(e)
        if isinstance(a, (B, bool)):
            a = self.toscalar(a, 'i')
        if isinstance(b, (B, bool)):
            b = self.toscalar(b, 'i')
        if is_int(a) and is_int(b):
            return {'<': lambda: ilt(a, b), '>': lambda: ilt(b, a), '<=': lambda: ile(a, b),
                    '>=': lambda: ige(a, b), '==': lambda: ieq(a, b), '!=': lambda: bnot(ieq(a, b))}[op]()
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf:
            return self.compare(op, a.off, b.off)
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Obj) or isinstance(b, Obj):
            return X.buf_('ptrcmp', (self.sym('p'),))
        raise Unmodelled('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    # ------------------------------------------------------------ matrices
    def mx(self, v):
        if isinstance(v, EM):
            return self.emview(v)
        return v

    def lazy(self, rows, cols, get, kind='f', arr=False):
        m = Mx(rows, cols, get, kind, arr)
        return self.force(m)

    def marith(self, op, a, b):
        a, b = self.mx(a), self.mx(b)
        if isinstance(a, Mx) and isinstance(b, Mx):
            if op == '*' and not (a.arr or b.arr):
                return self.mmul(a, b)
            if op in '+-*/':
                if a.rows != b.rows and a.rows == 1 and a.cols == b.rows and b.cols == 1:
                    a = self.mtrans(a)
                rows, cols = a.rows, a.cols
                if isinstance(b.rows, int) and not isinstance(rows, int):
                    rows = b.rows
                if isinstance(b.cols, int) and not isinstance(cols, int):
                    cols = b.cols
                if (isinstance(a.rows, int) and isinstance(b.rows, int) and a.rows != b.rows) or \
                   (isinstance(a.cols, int) and isinstance(b.cols, int) and a.cols != b.cols):
                    self.effects.append(('shape', op, (a.rows, a.cols), (b.rows, b.cols), self.here(), self.st.cond()))
                    raise Unmodelled('shape mismatch in %s at %s' % (op, self.here()))
                return self.lazy(rows, cols, lambda r, c: self.arith(op, a.get(r, c), b.get(r, c)),
                                 a.kind, a.arr or b.arr)
            raise Unmodelled('matrix operator ' + op)
        if isinstance(a, Mx) and scal(b):
            if op in '+-' and not a.arr and not (a.rows == 1 and a.cols == 1):
                raise Unmodelled('matrix %s scalar' % op)
            return self.lazy(a.rows, a.cols, lambda r, c: self.arith(op, a.get(r, c), b), a.kind, a.arr)
        if scal(a) and isinstance(b, Mx):
            return self.lazy(b.rows, b.cols, lambda r, c: self.arith(op, a, b.get(r, c)), b.kind, b.arr)
        if isinstance(b, Obj) and b.k == 'diag' and isinstance(a, Mx):
            d = b.d['m']
            return self.lazy(a.rows, a.cols, lambda r, c: mul(a.get(r, c), d.get(c, 0) if d.cols == 1 else d.get(0, c)))
        if isinstance(a, Obj) and a.k == 'diag' and isinstance(b, Mx):
            d = a.d['m']
            return self.lazy(b.rows, b.cols, lambda r, c: mul(d.get(r, 0) if d.cols == 1 else d.get(0, r), b.get(r, c)))
        if isinstance(a, Obj) and a.k == 'rowwise':
            m = a.d['m']
            return self.lazy(m.rows, m.cols, lambda r, c: self.arith(op, m.get(r, c), b.get(0, c) if b.rows == 1 else b.get(c, 0)), 'f', m.arr)
        if isinstance(a, Obj) and a.k == 'colwise':
            m = a.d['m']
            return self.lazy(m.rows, m.cols, lambda r, c: self.arith(op, m.get(r, c), b.get(r, 0) if b.cols == 1 else b.get(0, r)), 'f', m.arr)
        raise Unmodelled('matrix operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__))

    def mmul(self, a, b):
        if not isinstance(a.cols, int) or not isinstance(b.rows, int):
            if isinstance(a.cols, int) or isinstance(b.rows, int):
                pass
            else:
                raise Unmodelled('product over a symbolic dimension')
        n = a.cols if isinstance(a.cols, int) else b.rows
        if isinstance(a.cols, int) and isinstance(b.rows, int) and a.cols != b.rows:
            self.effects.append(('shape', '*', (a.rows, a.cols), (b.rows, b.cols), self.here(), self.st.cond()))
            raise Unmodelled('product shape %sx%s * %sx%s' % (a.rows, a.cols, b.rows, b.cols))
        a, b = self.force(a), self.force(b)

        def get(r, c):
            s = ZERO
            for k in range(n):
                s = self.arith('+', s, self.arith('*', a.get(r, k), b.get(k, c)))
            return s
        return self.lazy(a.rows, b.cols, get)

    def mtrans(self, a):
        if isinstance(a, View):
            return a.T()
        return self.lazy(a.cols, a.rows, lambda r, c: a.get(c, r), a.kind, a.arr)

    def mcompare(self, op, a, b):
        a, b = self.mx(a), self.mx(b)
        m = a if isinstance(a, Mx) else b

        def get(r, c):
            return b_(self.compare(op, a.get(r, c) if isinstance(a, Mx) else a, b.get(r, c) if isinstance(b, Mx) else b))
        if op == '==' and isinstance(a, Mx) and isinstance(b, Mx) and not a.arr:
            return band(*[get(r, c) for r in range(a.rows) for c in range(a.cols)])
        return self.lazy(m.rows, m.cols, get, 'b', True)

    def reduce(self, m, name):
        """sum / prod / min / max / any / all over all elements."""
        m = self.mx(m)
        if isinstance(m.rows, int) and isinstance(m.cols, int):
            vs = self.vals(m)
            if name == 'any':
                return bor(*vs)
            if name == 'all':
                return band(*vs)
            if not vs:
                return ZERO if name == 'sum' else ONE
            r = vs[0]
            for v in vs[1:]:
                if name == 'sum':
                    r = self.arith('+', r, v)
                elif name == 'prod':
                    r = self.arith('*', r, v)
                elif name == 'maxCoeff':
                    r = self.smax(r, v)
                elif name == 'minCoeff':
                    r = self.smin(r, v)
            return r
        rv, cv = self.sym('r'), self.sym('c')
        gens = []
        for v, hi in ((rv, m.rows), (cv, m.cols)):
            g = Gen(v, 0, hi)
            self.gens.append(g)
            gens.append(g)
        try:
            r_ = psym(rv) if not (isinstance(m.rows, int) and m.rows == 1) else 0
            c_ = psym(cv) if not (isinstance(m.cols, int) and m.cols == 1) else 0
            e = m.get(r_, c_)
        finally:
            for g in gens:
                self.gens.pop()
        f = X.mk('fold', 'red' + name, (rv, cv), m.rows, m.cols, (), (), (lift(e),))
        if name in ('any', 'all'):
            return X.buf_(name, (f,))
        if m.kind == 'i':
            return X.ikernel('fold', f)
        return f

    def smax(self, a, b):
        if is_int(a) and is_int(b):
            return iite(ige(a, b), a, b)
        return X.tmax(lift(a), lift(b))

    def smin(self, a, b):
        if is_int(a) and is_int(b):
            return iite(ige(b, a), a, b)
        return X.tmin(lift(a), lift(b))


class Dead(Exception):
    pass


def peel(v, old):
    """d such that v = old + d, for v a sum containing old once; else None."""
    def go(t):
        if t is old:
            return ZERO
        if t.k == '+':
            r = go(t.a[0])
            if r is not None:
                return add(r, t.a[1])
            r = go(t.a[1])
            if r is not None:
                return add(t.a[0], r)
        elif t.k == '-':
            r = go(t.a[0])
            if r is not None:
                return sub(r, t.a[1])
        return None
    return go(v)
