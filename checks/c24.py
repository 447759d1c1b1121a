import itertools
import random
from fractions import Fraction as Fr

from grid import *          # noqa
import c18

RULE = ('value graph of the level-set tools over literal grids and symbolic level sets: gradients are central differences, copied at the edge; '
        'indicators are the largest of the signed level sets; the distance starts from the nearest crossing of the interface along the axes, '
        'is carried on by the root of the discrete eikonal equation, and settles cells in order of distance')
ASSUME = ['exact real arithmetic', 'grid extents literal; the settling order over drawn update values, the queue over all order types of up to five keys']
FAR, NARROW, FROZEN = 0, 1, 2


def run(c):
    P_ = c.prog()
    cf = Cfg(P_)
    for n in (3, 4, 7):
        c.attempt('gradient %d' % n, lambda: grad(c, P_, (n,)))
    for g in ((3, 3), (3, 5), (5, 3), (4, 6)):
        c.attempt('gradient %dx%d' % g, lambda: grad(c, P_, g))
    for o in ({}, {'LSET': 1}, {'LSET': 3}):
        P2 = c.prog(**o)
        cf2 = Cfg(P2)
        c.attempt('re-initialisation ' + cfgtag(o), lambda: renorm(c, P2, cf2, cfgtag(o)))
        for nm in range(2, cf2.LSET + 2):
            for m in range(nm):
                c.attempt('indicator %s %d %d' % (cfgtag(o), m, nm), lambda: indicator(c, P2, cf2, m, nm, cfgtag(o)))
    for g in ((4,), (3, 2)):
        for err in (0, 1, 2):
            c.attempt('distance %s %d' % (g, err), lambda: wrapper(c, P_, g, err))
    rng = random.Random(c.seed)
    for g in ((1,), (3,), (4,), (2, 2), (3, 2), (2, 3), (3, 3)):
        c.attempt('crossings %s' % (g,), lambda: frozen(c, P_, g, ()))
        for k in range(6 if c.thorough else 3):
            z = [i for i in range(size(g)) if rng.random() < .3]
            c.attempt('crossings %s, zeros %s' % (g, z), lambda: frozen(c, P_, g, z))
    for g in ((3,), (5,), (3, 3), (3, 4)):
        for k in range(24 if c.thorough else 10):
            fl = [rng.choice((FAR, NARROW, FROZEN, FROZEN)) for _ in range(size(g))]
            for i in ({0, size(g) // 2, size(g) - 1} if len(g) == 1 else {0, size(g) - 1, (g[0] // 2) * g[1] + 1, rng.randrange(size(g))}):
                tg = 'eikonal update %s, flags %s, cell %d' % (g, ''.join(map(str, fl)), i)
                c.attempt(tg, lambda: update(c, P_, g, fl, i, tg))
    for g in ((5,), (3, 3), (4, 3)):
        for k in range(20 if c.thorough else 8):
            fl = [rng.choice((FAR, FAR, FROZEN)) for _ in range(size(g))]
            tg = 'first band %s, settled %s' % (g, ''.join(map(str, fl)))
            c.attempt(tg, lambda: narrow(c, P_, g, fl, tg))
    for g in ((1,), (5,), (8,), (3, 3), (4, 5), (6, 3)):
        for k in range(20 if c.thorough else 6):
            tg = 'settling order %s, case %d' % (g, k)
            c.attempt(tg, lambda: settle(c, P_, g, rng, tg))
    c.attempt('no interface', lambda: settle(c, P_, (2, 3), rng, 'no interface', none=True))
    for n in (1, 2, 3, 4) + ((5,) if c.thorough else ()):
        c.attempt('queue of %d' % n, lambda: queue(c, P_, n))
    for g in ((4,), (2, 3)):
        for k in range(4):
            c.attempt('march %s %d' % (g, k), lambda: stages(c, P_, g, rng, 'march %s, case %d' % (g, k)))
    for k in range(400 if c.thorough else 120):
        c.attempt('queue history %d' % k, lambda: history(c, P_, rng, 'queue history %d' % k))


def size(g):
    n = 1
    for x in g:
        n *= x
    return n


def coords(g):
    return list(itertools.product(*map(range, g)))


def nbrs(g):
    """[cell][dimension] -> neighbours."""
    ix = {p: i for i, p in enumerate(coords(g))}
    out = []
    for p in coords(g):
        row = []
        for d in range(len(g)):
            row.append([ix[q] for s in (-1, 1) for q in [p[:d] + (p[d] + s,) + p[d + 1:]] if q in ix])
        out.append(row)
    return out


# ---------------------------------------------------------------- gradient
def grad(c, P_, g):
    it = c.drv(P_)
    n, nd = size(g), len(g)
    w = floc(P_, 'finite_difference')
    o = it.mat('grad', n, nd)
    dX = [S('dx'), S('dy')][:nd]
    phi = it.vec('phi', n)
    it.run('finite_difference', o, phi, it.vec('dX', nd, arr=True, init=dX), it.vec('nX', nd, kind='i', init=list(g)))
    got = it.out(o)
    ix = {p: i for i, p in enumerate(coords(g))}
    ev = c.evs(1, L=48)
    for p, i in ix.items():
        for d in range(nd):
            q = min(max(p[d], 1), g[d] - 2)
            a, b = (ix[p[:d] + (q + s,) + p[d + 1:]] for s in (-1, 1))
            c.eq('gradient %s: cell %d, direction %d' % (g, i, d), got[i * nd + d], (rd('phi', b) - rd('phi', a)) / (2 * dX[d]), ev, w,
                 'the derivative is not the central difference (that of the neighbouring cell at an edge)')
    for i, x in enumerate(it.out(phi)):
        c.eq('gradient %s: level set %d' % (g, i), x, rd('phi', i), ev, w, 'the level set is modified')


# ---------------------------------------------------------------- levels and indicators
def distuf(it):
    def h(self, F, a):
        v = c18.val(self, a[0])
        k = X.uf('all', 0, v + c18.val(self, a[1]) + c18.val(self, a[2]))
        return self.vec('dist', len(v), init=[X.uf('dist', i, (k,)) for i in range(len(v))])
    it.opaque['distance'] = h


def distv(v, dX, g):
    k = X.uf('all', 0, tuple(v) + tuple(dX) + tuple(g))
    return [X.uf('dist', i, (k,)) for i in range(len(v))]


def renorm(c, P_, cf, t):
    it = c.drv(P_)
    distuf(it)
    g, n, V = (3, 2), 6, cf.V
    w = floc(P_, 'renormalize_levelsets')
    dX = [S('dx'), S('dy')]
    u = it.mat('u', n, V)
    it.run('renormalize_levelsets', u, it.vec('dX', 2, arr=True, init=dX), it.vec('nX', 2, kind='i', init=list(g)))
    got = it.out(u)
    ev = c.evs(1, L=32)
    for v in range(V):
        want = [rd('u', i * V + v) for i in range(n)]
        if v >= V - cf.LSET:
            want = distv(want, dX, g)
        for i in range(n):
            c.eq('re-initialisation %s: component %d, cell %d' % (t, v, i), got[i * V + v], want[i], ev, w,
                 'level sets are not each replaced by the distance to their interface, or something else is changed')


def indicator(c, P_, cf, m, nm, t):
    it = c.drv(P_)
    distuf(it)
    g, n, V, L = (3, 2), 6, cf.V, cf.LSET
    w = floc(P_, 'material_indicator')
    dX = [S('dx'), S('dy')]
    u = it.mat('u', n, V)
    o = it.vec('ind', n)
    it.run('material_indicator', o, u, m, nm, it.vec('dX', 2, arr=True, init=dX), it.vec('nX', 2, kind='i', init=list(g)))
    l = lambda i, k: rd('u', i * V + V - L + k)
    ev = c.evs(1, L=48)
    tg = 'indicator %s: material %d of %d' % (t, m, nm)
    pre = []
    for i in range(n):
        x = l(i, 0) if m == 0 else -l(i, 0)
        if nm > 2:
            for k in range(1, m):
                x = X.tmax(x, -l(i, k))
            for k in range(m, L):
                x = X.tmax(x, l(i, k))
        pre.append(x)
    got = it.out(o)
    if nm <= 2:
        for i in range(n):
            c.eq('%s, cell %d' % (tg, i), got[i], pre[i], ev, w, 'the indicator is not the signed level set of the material')
    else:
        # peel the distance: compare what it is applied to
        ok = all(x.k == 'uf' for x in map(lift, got))
        if not ok:
            return c.fail(tg, w, 'the indicator of several materials is not re-initialised as a distance')
        want = distv(pre, dX, g)
        for i in range(n):
            c.eq('%s, cell %d' % (tg, i), got[i], want[i], ev, w, 'the indicator is not the distance of the largest of the signed level sets')
    for i, x in enumerate(it.out(u)):
        c.eq('%s: state %d' % (tg, i), x, rd('u', i), ev, w, 'the state is modified')


# ---------------------------------------------------------------- distance
class March:
    """The program's distance() with march() replaced by `body`."""

    def __init__(self, c, P_, g, body, phi=None, dX=None):
        self.c, self.P_, self.g, self.n = c, P_, g, size(g)
        self.it = it = c.drv(P_)
        it.opaque.pop('distance', None)
        self.dX = dX or [S('dx'), S('dy')][:len(g)]
        self.phi = it.vec('phi', self.n, init=phi)
        self.ran = 0

        def h(it2, F, a):
            self.ran += 1
            self.this = it2.othis
            body(self)
        it.opaque['baseMarcher::march'] = h
        self.ret = it.run('distance', self.phi, it.vec('dX', len(g), arr=True, init=self.dX), it.vec('nX', len(g), kind='i', init=list(g)))

    def fld(self, n):
        return self.it.cur(self.this.f[n])

    def arr(self, n):
        p = self.fld(n)
        return [self.it.readbuf(p.buf, padd(p.off, i)) for i in range(self.n)]

    def put(self, n, vals):
        p = self.fld(n)
        for i, v in enumerate(vals):
            self.it.writebuf(p.buf, padd(p.off, i), v)

    def set(self, n, v):
        self.it.st.mem[self.this.f[n]] = v

    def call(self, q, *a):
        return self.it.call(self.P_.one(q), list(a), this=self.this)


def lits(v):
    out = []
    for x in v:
        if isinstance(x, Poly):
            raise Undecided('flag is not a literal')
        out.append(int(x))
    return out


def wrapper(c, P_, g, err):
    n = size(g)
    w = floc(P_, 'distance')
    tg = 'distance %s%s' % (g, ', no interface' if err else '')
    ev = c.evs(1, L=32)
    res = {}

    def body(m):
        res['phi'], res['flag'], res['dist'] = m.arr('phi_'), lits(m.arr('flag_')), m.arr('distance_')
        res['dim'], res['order'], res['narrow'], res['per'], res['size'] = (m.fld(x) for x in ('dim_', 'order_', 'narrow_', 'periodic_', 'size_'))
        p = m.fld('dx_')
        res['dx'] = [m.it.readbuf(p.buf, padd(p.off, i)) for i in range(len(g))]
        m.put('distance_', [S('d%d' % i) for i in range(n)])
        m.set('error_', err)
    m = March(c, P_, g, body)
    c.true(tg + ': marches once', m.ran == 1, w, 'the level set is not marched once')
    c.true(tg + ': nothing masked or settled', res['flag'] == [FAR] * n, w, 'cells are masked or settled before the march')
    for i in range(n):
        c.eq('%s: level set %d' % (tg, i), res['phi'][i], rd('phi', i), ev, w, 'the distance is not that of the level set')
    for i in range(len(g)):
        c.eq('%s: spacing %d' % (tg, i), res['dx'][i], m.dX[i], ev, w, 'the spacing is not that of the grid')
    z = lambda x: x == 0 or isinstance(x, T) and x.k == 'c' and x.a[0] == 0
    c.true(tg + ': extent', res['dim'] == len(g) and res['size'] == n and z(res['narrow']) and z(res['per']), w,
           'the march does not cover the whole grid, or joins its ends')
    got = m.it.out(m.it.mx(m.ret))
    for i in range(n):
        c.eq('%s: result %d' % (tg, i), got[i], rd('phi', i) if err else S('d%d' % i), ev, w,
             'the result is not the distance (the level set itself where there is no interface)')


def frozen(c, P_, g, z):
    n = size(g)
    w = floc(P_, 'distanceMarcher::initalizeFrozen')
    tg = 'crossings %s%s' % (g, ', zero at %s' % list(z) if len(z) else '')
    phi = [ZERO if i in z else S('f%d' % i) for i in range(n)]
    res = {}

    def body(m):
        m.call('distanceMarcher::initalizeFrozen')
        res['flag'], res['dist'] = m.arr('flag_'), m.arr('distance_')
    m = March(c, P_, g, body, phi=phi)
    ev = c.evs(1, L=128, positive=['dx', 'dy'])
    ev2 = order.ev2s(ev)
    nb = nbrs(g)
    for i in range(n):
        if i in z:
            c.beq('%s: cell %d settled' % (tg, i), X.ieq(res['flag'][i], FROZEN), TRUE, ev, w, 'a cell on the interface is not settled')
            c.eq('%s: cell %d' % (tg, i), res['dist'][i], ZERO, ev, w, 'the distance on the interface is not nought')
            continue
        best, any_ = None, FALSE
        for d in range(len(g)):
            for j in nb[i][d]:
                if j in z:
                    continue
                x = m.dX[d] * X.tabs(phi[i]) / X.tabs(phi[i] - phi[j])
                cr = X.rlt(phi[i] * phi[j], ZERO)
                x = ite(cr, x, S('DBL_MAX'))
                best = x if best is None else X.tmin(best, x)
                any_ = bor(any_, cr)
        c.beq('%s: cell %d settled' % (tg, i), X.ieq(res['flag'][i], FROZEN), any_, ev, w,
              'the cells settled are not those with the interface between them and a neighbour')
        if best is not None:
            want = ite(any_, ite(X.rlt(phi[i], ZERO), -best, best), ZERO)
            got = ite(any_, res['dist'][i], ZERO)
            c.feq('%s: cell %d' % (tg, i), got, want, ev2, w, 'the distance is not that to the nearest crossing of the interface along the axes, with the sign of the level set')


def update(c, P_, g, fl, i, tg):
    n = size(g)
    w = floc(P_, 'distanceMarcher::updatePointOrderOne')
    for sgn in (1, -1):
        # all distances on one side of the interface
        dist = [S('d%d' % k) * sgn if k % 4 else S('d%d' % k) * 0 for k in range(n)]
        phi = [S('f%d' % k) * sgn for k in range(n)]
        res = {}

        def body(m):
            m.put('distance_', dist)
            m.put('flag_', fl)
            res['d'] = m.call('distanceMarcher::updatePointOrderOne', i)
        m = March(c, P_, g, body, phi=phi)
        nb = nbrs(g)
        A, Bv, Cv = ZERO, ZERO, -ONE
        used = 0
        for d in range(len(g)):
            fr = [j for j in nb[i][d] if fl[j] == FROZEN]
            if not fr:
                continue
            used += 1
            v = X.tabs(dist[fr[0]])
            for j in fr[1:]:
                v = X.tmin(v, X.tabs(dist[j]))
            k = ONE / (m.dX[d] * m.dX[d])
            A, Bv, Cv = A + k, Bv - 2 * k * v, Cv + k * v * v
        if not used:
            continue
        det = Bv * Bv - 4 * A * Cv
        pos = ['dx', 'dy'] + ['d%d' % k for k in range(n)] + ['f%d' % k for k in range(n)]
        ev = order.ev2s([Ev(L=256, seed=c.seed + 7, positive=pos)])
        root = (-Bv + X.sqrt(det)) / (2 * A) * sgn
        c.feq('%s, side %+d' % (tg, sgn), ite(X.rlt(ZERO, det), res['d'], ZERO), ite(X.rlt(ZERO, det), root, ZERO), ev, w,
              'the distance is not the outer root of the discrete eikonal equation through the nearest settled neighbours', tol=1e-7)


def upd(fl, dist, nb, i):
    fr = sorted(j for r in nb[i] for j in r if fl[j] == FROZEN)
    return X.uf('upd', i, tuple(x for j in fr for x in (lift(j), lift(dist[j]))))


def narrow(c, P_, g, fl, tg):
    n = size(g)
    w = floc(P_, 'baseMarcher::initalizeNarrow')
    nb = nbrs(g)
    d0 = [S('d%d' % k) if fl[k] == FROZEN else ZERO for k in range(n)]
    res = {'push': []}

    def body(m):
        it = m.it
        m.put('distance_', d0)
        m.put('flag_', fl)
        m.set('heap_', Rec(it, 'heap', 'heap', None, True))
        m.this.field('heapptr_', {'c': 'ptr'})
        b = it.newbuf('hp', n, 'i', init=[-7] * n)
        m.set('heapptr_', IP.Ptr(b, 0, 'i'))

        def u(self, F, a):
            i = int(val1(self, a[0]))
            return upd(lits(m.arr('flag_')), m.arr('distance_'), nb, i)

        def push(self, F, a):
            res['push'].append((int(val1(self, a[0])), val1(self, a[1])))
            return 100 + len(res['push'])
        it.opaque['distanceMarcher::updatePointOrderOne'] = u
        it.opaque['heap::push'] = push
        m.call('baseMarcher::initalizeNarrow')
        res['flag'], res['dist'], res['hp'] = lits(m.arr('flag_')), m.arr('distance_'), lits(m.arr('heapptr_'))
    March(c, P_, g, body)
    ev = c.evs(1, L=48)
    band = [i for i in range(n) if fl[i] == FAR and any(fl[j] == FROZEN for r in nb[i] for j in r)]
    c.true(tg + ': cells queued', sorted(a for a, _ in res['push']) == band, w, 'the cells queued are not those next to a settled cell, once each')
    want = [NARROW if i in band else fl[i] for i in range(n)]
    c.true(tg + ': marks', res['flag'] == want, w, 'the cells marked are not those next to a settled cell')
    for k, (a, v) in enumerate(res['push']):
        if a not in band:
            continue
        x = upd(fl, d0, nb, a)
        c.eq('%s: distance %d' % (tg, a), res['dist'][a], x, ev, w, 'the distance of a queued cell is not that from its settled neighbours')
        c.eq('%s: key %d' % (tg, a), v, X.tabs(x), ev, w, 'a cell is not queued by its unsigned distance')
        c.true('%s: handle %d' % (tg, a), res['hp'][a] == 101 + k, w, 'the place of a cell in the queue is not remembered')


def stages(c, P_, g, rng, tg):
    """march(): settle the cells at the interface, queue their neighbours, solve."""
    n = size(g)
    w = floc(P_, 'baseMarcher::march')
    fl = [rng.choice((FAR, FAR, FROZEN)) for _ in range(n)]
    seq, cap = [], []
    it = c.drv(P_)
    it.opaque.pop('distance', None)

    def fz(self, F, a):
        seq.append('interface')
        p = self.cur(self.othis.f['flag_'])
        for i, v in enumerate(fl):
            self.writebuf(p.buf, padd(p.off, i), v)
    it.opaque['distanceMarcher::initalizeFrozen'] = fz
    it.opaque['baseMarcher::initalizeNarrow'] = lambda self, F, a: seq.append('band')
    it.opaque['baseMarcher::solve'] = lambda self, F, a: seq.append('solve')
    it.opaque['heap::heap'] = lambda self, F, a: cap.append(int(val1(self, a[0])))
    it.run('distance', it.vec('phi', n), it.vec('dX', len(g), arr=True), it.vec('nX', len(g), kind='i', init=list(g)))
    c.true(tg + ': order of stages', seq == ['interface', 'band', 'solve'], w, 'the march is not: settle the interface, queue its neighbours, solve')
    c.true(tg + ': room in the queue', len(cap) == 1 and cap[0] >= fl.count(FAR), w, 'the queue cannot hold every cell that is not at the interface')


def val1(it, a):
    return it.cur(a) if isinstance(a, Loc) else a


def num(x):
    if isinstance(x, (int, Fr)) and not isinstance(x, bool):
        return Fr(x)
    x = lift(x)
    if x.k != 'c':
        raise Undecided('not a literal')
    return Fr(x.a[0])


def settle(c, P_, g, rng, tg, none=False):
    n = size(g)
    w = floc(P_, 'baseMarcher::solve')
    nb = nbrs(g)
    for _ in range(400):
        fl = [FAR if none else rng.choice((FAR, FAR, FAR, FROZEN)) for _ in range(n)]
        if not none and FROZEN not in fl:
            fl[rng.randrange(n)] = FROZEN
        sg = [rng.choice((-1, 1)) for _ in range(n)]
        wt = [Fr(rng.randrange(40, 60), rng.choice((1, 2, 3))) if rng.random() < .7 else Fr(50) for _ in range(n)]
        noroot = [rng.random() < .15 for _ in range(n)]
        d0 = [sg[i] * Fr(rng.randrange(0, 9)) if fl[i] == FROZEN else Fr(0) for i in range(n)]

        def f(flag, dist, i):
            fr = [abs(dist[j]) for r in nb[i] for j in r if flag[j] == FROZEN]
            if not fr:
                return sg[i] * Fr(10 ** 6)
            if len(fr) > 1 and noroot[i]:
                return Fr(0)
            return sg[i] * (min(fr) + wt[i] * Fr(20, 19 + len(fr)))
        ref = march(nb, fl, d0, f)
        if ref is not None:
            break
    else:
        raise Undecided('no causal draw')
    res = {}

    def body(m):
        it = m.it
        flag, dist = list(fl), list(d0)
        h = {}
        cnt = [0]
        hp = [-7] * n
        for i in range(n):
            if fl[i] == FAR and any(fl[j] == FROZEN for r in nb[i] for j in r):
                dist[i] = f(fl, d0, i)
                if dist[i] == 0:
                    continue
                flag[i] = NARROW
                hp[i] = cnt[0]
                h[cnt[0]] = [i, abs(dist[i])]
                cnt[0] += 1
        m.put('distance_', [X.C(x) for x in dist])
        m.put('flag_', flag)
        m.set('heap_', Rec(it, 'heap', 'heap', None, True))
        b = it.newbuf('hp', n, 'i', init=hp)
        m.set('heapptr_', IP.Ptr(b, 0, 'i'))

        def u(self, F, a):
            return X.C(f(lits(m.arr('flag_')), [num(x) for x in m.arr('distance_')], int(val1(self, a[0]))))

        def push(self, F, a):
            i = int(val1(self, a[0]))
            if any(x[0] == i for x in h.values()):
                res['bad'] = 'a cell is queued twice'
            h[cnt[0]] = [i, num(val1(self, a[1]))]
            cnt[0] += 1
            return cnt[0] - 1

        def put1(self, l, v):
            if isinstance(l, IP.Ptr):
                self.writebuf(l.buf, l.off, v)
            else:
                self.st.mem[l] = v

        def pop(self, F, a):
            if not h:
                raise Dead()
            k = min(h, key=lambda x: (h[x][1], x))
            i, v = h.pop(k)
            put1(self, a[0], i)
            put1(self, a[1], X.C(v))

        def hset(self, F, a):
            k = int(val1(self, a[0]))
            if k not in h:
                res['bad'] = 'the key of a cell that is not queued is changed'
                return
            h[k][1] = num(val1(self, a[1]))

        def peek(self, F, a):
            if not h:
                raise Dead()
            return X.C(min(v for _, v in h.values()))
        it.opaque.update({'distanceMarcher::updatePointOrderOne': u, 'heap::push': push, 'heap::pop': pop, 'heap::set': hset, 'heap::peek': peek,
                          'heap::empty': lambda self, F, a: not h})
        m.call('baseMarcher::solve')
        res['flag'], res['dist'], res['err'] = lits(m.arr('flag_')), [x for x in m.arr('distance_')], m.fld('error_')
    March(c, P_, g, body)
    err = res['err']
    if none:
        c.true(tg + ': reported', not isinstance(err, Poly) and err != 0, w, 'a level set without interface is not reported')
        return
    c.true(tg + ': success', not isinstance(err, Poly) and err == 0, w, 'a level set with an interface is reported as having none')
    if 'bad' in res:
        c.fail(tg, w, res['bad'])
    for i in range(n):
        if ref[i] is None:
            continue
        c.true('%s: cell %d settled' % (tg, i), res['flag'][i] == FROZEN, w, 'a cell reached by the march is not settled')
        try:
            x = num(res['dist'][i])
        except Undecided:
            x = None
        c.true('%s: cell %d' % (tg, i), x == ref[i], w, 'cells are not settled in order of distance, each from its settled neighbours')


def march(nb, fl, d0, f):
    """Settling in order of distance; None where the order of equals would matter."""
    flag, dist = list(fl), list(d0)
    n = len(flag)
    q = {}
    for i in range(n):
        if fl[i] == FAR and any(fl[j] == FROZEN for r in nb[i] for j in r):
            d = f(fl, d0, i)
            if d == 0:
                return None
            q[i] = dist[i] = d
            flag[i] = NARROW
    last = Fr(-1)
    while q:
        v = min(abs(x) for x in q.values())
        if v < last:
            return None
        last = v
        tied = [i for i in q if abs(q[i]) == v]
        if any(j in tied for i in tied for r in nb[i] for j in r):
            return None
        for i in tied:
            del q[i]
            flag[i] = FROZEN
        for i in {j for i in tied for r in nb[i] for j in r if flag[j] != FROZEN}:
            # equals settle one after another or together: same result required
            d = f(flag, dist, i)
            if d == 0 and flag[i] == FAR:
                return None
            if d and abs(d) <= v:
                return None
            if d:
                q[i] = dist[i] = d
            elif len([j for r in nb[i] for j in r if j in tied]) > 1:
                return None
            flag[i] = NARROW
    return [dist[i] if flag[i] == FROZEN else None for i in range(n)]


# ---------------------------------------------------------------- queue
class Q:
    def __init__(self, c, P_, cap):
        self.it = it = c.drv(P_)
        self.P_ = P_
        self.h = Rec(it, 'heap', 'h', None, True)
        self.call('heap::heap', cap, False)

    def call(self, q, *a):
        F = self.P_.one(q)
        self.it.frames.append(IP.Frame(F, F.tt))
        try:
            r = self.it.call(F, list(a), this=self.h)
            return self.it.val(r) if isinstance(r, (Loc, Elem)) else r
        finally:
            self.it.frames.pop()

    def push(self, a, v):
        return self.call('heap::push', a, X.C(Fr(v)))

    def pop(self):
        it = self.it
        b1, b2 = it.newbuf('pa', 1, 'i', init=[-1]), it.newbuf('pv', 1, 'f', init=[ZERO])
        self.call('heap::pop', IP.Ptr(b1, 0, 'i'), IP.Ptr(b2, 0, 'f'))
        return int(it.readbuf(b1, 0)), num(it.readbuf(b2, 0))

    def empty(self):
        r = self.call('heap::empty')
        return r if isinstance(r, bool) else b_(r) is TRUE

    def peek(self):
        r = self.call('heap::peek')
        return num(r)


def orders(n):
    """One representative of every order type of n keys."""
    return [p for p in itertools.product(range(n), repeat=n) if set(p) == set(range(max(p) + 1))]


def queue(c, P_, n):
    w = floc(P_, 'heap::pop')
    for p in orders(n):
        tg = 'queue: keys %s' % ' '.join(map(str, p))
        q = Q(c, P_, n)
        hs = [q.push(10 + i, v) for i, v in enumerate(p)]
        drain(c, q, {10 + i: Fr(v) for i, v in enumerate(p)}, tg, w)
        if n > 3:
            continue
        for i in range(n):
            for nv in [Fr(2 * k - 1, 2) for k in range(n + 1)] + [Fr(p[i])]:
                q = Q(c, P_, n)
                hs = [q.push(10 + k, v) for k, v in enumerate(p)]
                q.call('heap::set', hs[i], X.C(nv))
                want = {10 + k: Fr(v) for k, v in enumerate(p)}
                want[10 + i] = nv
                drain(c, q, want, '%s, key %d changed to %s' % (tg, i, nv), w)


def drain(c, q, want, tg, w):
    want = dict(want)
    while want:
        if q.empty():
            return c.fail(tg, w, 'the queue runs out early')
        m = min(want.values())
        if q.peek() != m:
            return c.fail(tg, w, 'the first key of the queue is not its smallest')
        a, v = q.pop()
        if v != m or want.get(a) != v:
            return c.fail(tg, w, 'the queue does not give its smallest key and the cell of that key')
        del want[a]
    c.true(tg, q.empty(), w, 'the queue is not empty after all its cells were taken')


def history(c, P_, rng, tg):
    """Pushes, key changes and pops mixed, against a sorted list."""
    w = floc(P_, 'heap::set')
    q = Q(c, P_, 24)
    cur, hs, nxt = {}, {}, 0
    up = rng.choice((.3, .5, .7))
    for _ in range(60):
        r = rng.random()
        if r < up and nxt < 24:
            v = Fr(rng.randrange(40))
            hs[nxt] = q.push(nxt, v)
            cur[nxt] = v
            nxt += 1
        elif r < (1 + up) / 2 and cur:
            a = rng.choice(sorted(cur))
            cur[a] = Fr(rng.randrange(80), 2)
            q.call('heap::set', hs[a], X.C(cur[a]))
        elif cur:
            a, v = q.pop()
            if v != min(cur.values()) or cur.get(a) != v:
                return c.fail(tg, w, 'the queue does not give its smallest key and the cell of that key')
            del cur[a]
    drain(c, q, cur, tg, w)
