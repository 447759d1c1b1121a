from grid import *          # noqa
import c28
from c28 import lit, frac, rot, gram, invariants

RULE = ('value graph of the distortion upkeep over cells of literal material and symbolic state: renormalising scales the distortion of every '
        'non-vacuum cell so that its determinant is the density ratio; rotating keeps A^T A and makes the rows orthogonal; resetting leaves an '
        'isotropic distortion of that determinant and takes the shear energy out of the total; a grid is contorted when some cell is beyond the tolerance')
ASSUME = ['exact real arithmetic; rotation and contortion at random real points with relative tolerance', 'the singular value decomposition of the library is exact',
          'level sets literal (three cells of different materials)']
LV = {0: (-1, -2), 1: (1, -3), 2: (2, 1)}


class Cells:
    """Cells given as (material, distortion or None)."""

    def __init__(self, c, P_, mats, svd=False, over=None):
        self.cf = cf = Cfg(P_)
        V, L = cf.V, cf.LSET
        self.it = it = c.drv(P_)
        self.mats = mats
        self.st, self.q = [], []
        for i, m in enumerate(mats):
            q = [S('%s.%d' % (n, i)) for n in cf.names]
            for l in range(L):
                q[V - L + l] = lift(LV[m][l])
            self.st.append(None)
            if svd:
                self.st[i] = s = Dec(i)
                q[5:14] = s.A
            if over:
                q[5:14] = over(i, q)
            self.q.append(q)
        if svd:
            self.svd()
        self.u = it.vec('u', V * len(mats), init=sum(self.q, []))
        # the middle material is vacuum
        self.eos = (0, -1, 4)
        self.mp = [mpar(it, e, name='MP%d' % k) for k, e in enumerate(self.eos)]

    def svd(self):
        it, st = self.it, self.st
        old = it.mfn
        chk = order.ev2s([Ev(L=16, seed=5, positive=['w0', 'w1', 'w2'] + ['w%d.%d' % (k, i) for k in range(3) for i in range(4)])])[0]

        def mfn(name, m, nout, cols=1):
            if name.startswith('svd.'):
                v = it.vals(m)
                for s in st:
                    if len(v) == 9 and all(drive.IP.np.allclose(chk.f(x), chk.f(y)) for x, y in zip(v, s.A)):
                        return Vals(nout, cols, {'svd.S': s.s, 'svd.V': s.W, 'svd.U': s.U}[name])
            return old(name, m, nout, cols)
        it.mfn = mfn

    def run(self, q, *a):
        self.it.run(q, self.u, *a)
        o = self.it.out(self.u)
        V = self.cf.V
        return [o[i * V:(i + 1) * V] for i in range(len(self.mats))]


class Dec:
    """Distortion with known decomposition."""

    def __init__(self, i, top='5/3'):
        self.U, self.W = rot('qu%d.' % i), rot('qv%d.' % i)
        b = frac('w0.%d' % i, '2/3', '3/2')
        p, q = frac('w1.%d' % i, 1, top), frac('w2.%d' % i, 1, top)
        self.s = [b * p * q, b * p, b]
        self.A = [sum3([self.U[3 * r + k] * self.s[k] * self.W[3 * j + k] for k in range(3)]) for r in range(3) for j in range(3)]


def det(A):
    return (A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]))


PW = ['w%d.%d' % (k, i) for k in range(3) for i in range(4)]


def run(c):
    for o in ({}, {'THERMAL': True}):
        P_ = c.prog(**o)
        t = cfgtag(o)
        for mats in ((0, 1, 2), (2, 0, 0), (1, 2, 1)):
            tg = '%s materials %s' % (t, mats)
            c.attempt('renormalise ' + tg, lambda: renorm(c, P_, mats, tg))
            c.attempt('rotate ' + tg, lambda: rotate(c, P_, mats, tg))
            c.attempt('reset ' + tg, lambda: reset(c, P_, mats, tg))
        for n in (1, 2, 3):
            c.attempt('contorted %s %d cells' % (t, n), lambda: cont(c, P_, n, t))


def others(c, C, got, skip, w, tg, ev):
    for i in range(len(C.mats)):
        for v in range(C.cf.V):
            if v not in skip or C.eos[C.mats[i]] < 0:
                c.eq('%s, cell %d, %s unchanged' % (tg, i, C.cf.names[v]), got[i][v], C.q[i][v], ev, w,
                     'upkeep of the distortion changes something else, or vacuum')


def renorm(c, P_, mats, tg):
    tg = 'renormalise ' + tg
    C = Cells(c, P_, mats)
    w = floc(P_, 'renorm_distortion')
    got = C.run('renorm_distortion', svec(C.it, C.mp))
    ev = c.evs()
    others(c, C, got, range(5, 14), w, tg, ev)
    for i, m in enumerate(mats):
        if C.eos[m] < 0:
            continue
        A, ρ = C.q[i][5:14], C.q[i][0]
        f = X.cbrt(ρ / (MPv(C, m, 'ρ0') * det(A)))
        for k in range(9):
            c.eq('%s, cell %d, component %d' % (tg, i, k), got[i][5 + k], ite(X.rlt(ZERO, ρ), A[k] * f, A[k]), ev, w,
                 'the determinant of the distortion does not become the density over the reference density')


def MPv(C, m, n):
    return S('MP%d.%s' % (m, n))


def rotate(c, P_, mats, tg):
    tg = 'rotate ' + tg
    C = Cells(c, P_, mats, svd=True)
    w = floc(P_, 'rotate_distortion')
    got = C.run('rotate_distortion', svec(C.it, C.mp))
    others(c, C, got, range(5, 14), w, tg, c.evs())
    ev = order.ev2s(c.evs(1, positive=PW), L=256)
    for i, m in enumerate(mats):
        if C.eos[m] < 0:
            continue
        g, G = gram(got[i][5:14]), gram(C.st[i].A)
        a = got[i][5:14]
        for r in range(3):
            for s in range(3):
                c.feq('%s, cell %d, A^T A %d%d' % (tg, i, r, s), g[r][s], G[r][s], ev, w, 'rotating the distortion changes its strain', scale=G[0][0] + G[1][1])
                if r < s:
                    c.feq('%s, cell %d, rows %d and %d orthogonal' % (tg, i, r, s), sum3([a[3 * r + k] * a[3 * s + k] for k in range(3)]), ZERO, ev, w,
                          'the rotated distortion does not have orthogonal rows', scale=G[0][0] + G[1][1])


def reset(c, P_, mats, tg):
    tg = 'reset ' + tg
    C = Cells(c, P_, mats)
    w = floc(P_, 'reset_distortion')
    it = C.it
    sh = {}
    for i, m in enumerate(mats):
        if C.eos[m] >= 0:
            sh[i] = it.run('E_2A', C.q[i][0], it.mat('A%d' % i, 3, 3, init=C.q[i][5:14]), C.mp[m])
    got = C.run('reset_distortion', svec(it, C.mp))
    ev = c.evs()
    others(c, C, got, [1] + list(range(5, 14)), w, tg, ev)
    for i, m in enumerate(mats):
        if C.eos[m] < 0:
            continue
        ρ = C.q[i][0]
        c.eq('%s, cell %d, energy' % (tg, i), got[i][1], C.q[i][1] - ρ * sh[i], ev, w,
             'resetting the distortion does not take exactly its own shear energy out of the total energy')
        for k in range(9):
            c.eq('%s, cell %d, component %d' % (tg, i, k), got[i][5 + k], X.cbrt(ρ / MPv(C, m, 'ρ0')) if k % 4 == 0 else ZERO, ev, w,
                 'the distortion is not reset to the unsheared one of the density of the cell')


def cont(c, P_, n, t):
    C = Cells(c, P_, (0, 2, 0)[:n], svd=True)
    w = floc(P_, 'contorted')
    it = C.it
    tol = lit('1/10')
    got = it.run('contorted', C.u, tol)
    ev = order.ev2s(c.evs(1, positive=PW), L=512)
    want, near = FALSE, TRUE
    for s in C.st:
        tr, _, d = invariants(s.A)
        f = X.cbrt(d)
        x = tr / (3 * f * f) - 1
        want = X.bor(want, X.rlt(tol, x))
        near = band(near, X.rlt(lit('1/1000000'), X.tabs(x - tol)))
    c.feq('contorted %s, %d cells' % (t, n), ite(got, ONE, ZERO), ite(want, ONE, ZERO), ev, w,
          'a grid is not declared contorted exactly when some cell is sheared beyond the tolerance', when=near)
