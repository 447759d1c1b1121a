from grid import *          # noqa

RULE = ('value graph of the analytic relaxation of a state with singular-value decomposition U S V^T, interpreted in the reals: the result is '
        'U S\' V^T with the same determinant, its squared singular values have the mean and spread of the linearised solution, its energy '
        'starts to fall at the rate of the source terms, elastic and relaxed states stay put, and the thermal impulse solves its own equation')
ASSUME = ['interpretation at random real points with relative tolerance', 'the singular value decomposition of the library is exact']


def rot(s):
    a, b, c, d = (S('%s%d' % (s, i)) for i in range(4))
    n = a * a + b * b + c * c + d * d
    M = [a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c),
         2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b),
         2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]
    return [x / n for x in M]


def frac(n, lo, hi):
    """A random number between lo and hi."""
    w = S(n)
    return (lift(lo) + lift(hi) * w) / (ONE + w)


class State:
    """Distortion with known decomposition, singular values descending."""

    def __init__(self, top='5/3'):
        self.U, self.W = rot('qu'), rot('qv')
        b = frac('w0', '2/3', '3/2')
        self.s = [b * frac('w1', 1, top) * frac('w2', 1, top), b * frac('w1', 1, top), b]
        self.A = self.build(self.s)

    def build(self, s):
        return [sum3([self.U[3 * i + k] * s[k] * self.W[3 * j + k] for k in range(3)]) for i in range(3) for j in range(3)]

    def svd(self, it):
        old = it.mfn
        at = self.A

        def mfn(name, m, nout, cols=1):
            if name.startswith('svd.'):
                v = it.vals(m)
                if len(v) == 9 and all(equal(x, y, EV[0]) is None for x, y in zip(v, at)):
                    return Vals(nout, cols, {'svd.S': self.s, 'svd.V': self.W, 'svd.U': self.U}[name])
            return old(name, m, nout, cols)
        it.mfn = mfn


EV = [None]


def lit(x):
    from fractions import Fraction as Fr
    return X.C(Fr(x))


def lift(x):
    return X.lift(x) if not isinstance(x, str) else lit(x)


def run(c):
    P_ = c.prog()
    cf = Cfg(P_)
    V = cf.V
    POSW = POS + ['w0', 'w1', 'w2', 'wn', 'ρ', 'dt', 'MP.β']
    EV[0] = c.evs(1, L=32, positive=POSW)
    ev = order.ev2s(c.evs(2, positive=POSW), L=1024 if not c.thorough else 8192)
    w = floc(P_, 'analyticSolver_distortion')

    def relax(dt, top='5/3', **kw):
        st = State(top)
        it = c.drv(P_)
        st.svd(it)
        MP = mpar(it, 0, **kw)
        Q = it.vec('Q', V, init=[st.A[i - 5] if 5 <= i < 14 else S(n) for i, n in enumerate(cf.names)])
        it.run('analyticSolver_distortion', Q, dt, MP)
        return st, it, MP, it.out(Q)
    nf = frac('wn', '3/10', 1)
    MPS = (('Newtonian', dict(SOLID=False, POWER_LAW=False, BINGHAM=False, n=ONE)), ('power-law fluid', dict(SOLID=False, POWER_LAW=True, BINGHAM=False, n=nf)),
           ('elastic solid', dict(SOLID=True, POWER_LAW=False, BINGHAM=False)), ('elasto-plastic solid', dict(SOLID=True, POWER_LAW=True, BINGHAM=False, n=1 / nf)),
           ('Bingham fluid', dict(SOLID=False, POWER_LAW=False, BINGHAM=True, n=ONE)))
    for nm, kw in MPS:
        c.attempt(nm, lambda: klass(c, P_, cf, relax, nm, kw, ev, w))
    for o in ({'THERMAL': True},):
        c.attempt('thermal impulse', lambda: thermal(c, c.prog(**o)))


def invariants(A):
    """(trace of G, trace of G^2, det A)"""
    G = gram(A)
    t = G[0][0] + G[1][1] + G[2][2]
    t2 = sum3([G[i][j] * G[j][i] for i in range(3) for j in range(3)])
    d = (A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]))
    return t, t2, d


def klass(c, P_, cf, relax, nm, kw, ev, w):
    V = cf.V
    st, it, MP, q = relax(S('dt'), **kw)
    for i in range(V):
        if not 5 <= i < 14:
            c.feq('%s: %s unchanged' % (nm, cf.names[i]), q[i], S(cf.names[i]), ev, w, 'relaxation changes more than the distortion')
    A1 = q[5:14]
    s = st.s
    d = s[0] * s[1] * s[2]
    t1, tt1, d1 = invariants(A1)
    c.feq(nm + ': determinant', d1, d, ev, w, 'relaxation changes the determinant of the distortion (and so the density)')
    # same principal axes: U^T A' V is diagonal, with entries in the old order
    D = [[sum3([st.U[3 * k + i] * A1[3 * k + l] * st.W[3 * l + j] for k in range(3) for l in range(3)]) for j in range(3)] for i in range(3)]
    for i in range(3):
        for j in range(3):
            if i != j:
                c.feq('%s: principal axes %d%d' % (nm, i, j), D[i][j], ZERO, ev, w, 'relaxation turns the principal axes', scale=D[0][0])
    for i in range(2):
        c.feq('%s: order %d' % (nm, i), X.tmax(D[i][i], D[i + 1][i + 1]), D[i][i], ev, w, 'relaxation swaps the principal stretches')
    dd = X.cbrt(d) * X.cbrt(d)
    sq = [x * x / dd for x in s]
    m0 = sum3(sq) / 3
    u0 = ((sq[0] - sq[1]) ** 2 + (sq[1] - sq[2]) ** 2 + (sq[2] - sq[0]) ** 2) / 3
    if kw['SOLID'] and not kw['POWER_LAW']:
        for i in range(9):
            c.feq('%s: component %d unchanged' % (nm, i), A1[i], st.A[i], ev, w, 'a purely elastic state is relaxed', tol=1e-5, scale=d)
        return
    # no time, no change
    st0, it0, MP0, q0 = relax(ZERO, **kw)
    for i in range(9):
        c.feq('%s: nothing happens in no time, component %d' % (nm, i), q0[5 + i], st.A[i], ev, w,
              'a relaxation over no time changes the distortion', tol=1e-5, scale=d)
    if not kw['BINGHAM']:
        # the linearised solution in closed form
        ρ = MPv(it, MP, 'ρ0') * d
        cs2 = it.run('c_s2', ρ, MP)
        a, b = 3 * m0 - u0 / 3 - 3, 2 * m0 - u0 / 3 - 2
        if kw['POWER_LAW']:
            # rate r0 exp(-λτ)^(n/2), the norm of the stress being fitted by the
            # exponential with its initial value and integral
            nn = MPv(it, MP, 'n')
            nrm = norm2(kw['SOLID'])
            c0 = sum3([lit(q) * a ** i * b ** j for (i, j), q in nrm.items()])
            λ = c0 / sum3([lit(q) / (6 * i + 9 * j) * a ** i * b ** j for (i, j), q in nrm.items()])
            if kw['SOLID']:
                k = nn
                r0 = X.power(ρ * cs2 * X.sqrt(lit('3/2') * c0) * X.cbrt(d) ** 4 / MPv(it, MP, 'σY'), k) / MPv(it, MP, 'τ0')
            else:
                k = (1 - nn) / nn
                r0 = (X.power(ρ * cs2 * X.sqrt(c0 / 2) * X.cbrt(d) ** 4, k) * MPv(it, MP, 'ρ0') * cs2
                      / (6 * X.power(MPv(it, MP, 'μ'), 1 / nn)))
            r0 = 2 * r0 * X.cbrt(d) ** 7
            τ = 2 / (k * λ) * X.fn('log', r0 * k * λ / 2 * S('dt') + 1)
        else:
            τ = MPv(it, MP, 'ρ0') * cs2 * X.cbrt(d) ** 7 / (3 * MPv(it, MP, 'μ')) * S('dt')
        e6, e9 = X.exp(-6 * τ), X.exp(-9 * τ)
        m, u = ONE + a * e6 - b * e9, 6 * a * e6 - 9 * b * e9
        Δ = -2 * m ** 3 + m * u + 2
        reg = X.rlt(lit('1/1000000'), 6 * u ** 3 - 81 * Δ * Δ)
        c.feq(nm + ': mean of the squared stretches', t1 / dd, 3 * m, ev, w, 'the relaxed distortion is not that of the linearised solution',
              when=reg, tol=1e-7)
        c.feq(nm + ': spread of the squared stretches', tt1 / (dd * dd) - 3 * m * m, u, ev, w,
              'the relaxed distortion is not that of the linearised solution', when=reg, tol=1e-4, scale=lit('1/100'))
    if not kw['BINGHAM'] and not kw['POWER_LAW']:
        # slight deformation
        st1, it1, MP1, q1 = relax(S('dt'), top='101/100', **kw)
        d1 = st1.s[0] * st1.s[1] * st1.s[2]
        f1 = X.cbrt(d1) * X.cbrt(d1)
        z = [x * x / f1 for x in st1.s]
        m1 = sum3(z) / 3
        u1 = ((z[0] - z[1]) ** 2 + (z[1] - z[2]) ** 2 + (z[2] - z[0]) ** 2) / 3
        τ1 = MPv(it1, MP1, 'ρ0') * it1.run('c_s2', MPv(it1, MP1, 'ρ0') * d1, MP1) * X.cbrt(d1) ** 7 / (3 * MPv(it1, MP1, 'μ')) * S('dt')
        t, tt, _ = invariants(q1[5:14])
        um = 6 * (3 * m1 - u1 / 3 - 3) * X.exp(-6 * τ1) - 9 * (2 * m1 - u1 / 3 - 2) * X.exp(-9 * τ1)
        c.feq(nm + ': spread of slight deformations', tt / (f1 * f1) - t * t / (f1 * f1) / 3, um, ev, w,
              'a slight deformation is not relaxed as the linearised solution', tol=1e-2, scale=u1, when=X.rlt(lit('1/1000000'), u1))
    # initial rate against the source
    h = lit('1/1000000')
    Q = it.vec('Qs', V, init=[st.A[i - 5] if 5 <= i < 14 else (MPv(it, MP, 'ρ0') * d if i == 0 else S(n)) for i, n in enumerate(cf.names)])
    r = it.vec('Ss', V)
    it.run('source', r, Q, MP)
    SA = it.out(r)[5:14]
    rate = 2 * sum3([x * y for x, y in zip(st.A, SA)])
    # time step such that the change is a small fraction
    hs = h * sum3([x * x for x in st.A]) / (lit('1/1000000000000') + X.tabs(rate))
    stb, itb, MPb, qb = relax(hs, **kw)
    tb = invariants(qb[5:14])[0]
    ta = invariants(st.A)[0]
    small = X.rlt(hs, lit(10 ** 9))
    Δ0 = -2 * m0 ** 3 + m0 * u0 + 2
    reg0 = X.rlt(lit('1/1000'), 6 * u0 ** 3 - 81 * Δ0 * Δ0)
    # the source caps the stress norm at 1e8
    pr = [MPv(it, MP, 'ρ0') * d * it.run('c_s2', MPv(it, MP, 'ρ0') * d, MP) * x * (x - sum3([y * y for y in s]) / 3) for x in [y * y for y in s]]
    vm = sum3([(x - y) ** 2 for x, y in ((pr[0], pr[1]), (pr[1], pr[2]), (pr[2], pr[0]))])
    reg0 = band(reg0, X.rlt(vm, lit(10 ** 15)), X.rlt(lit(1) / lit(10 ** 20), X.tabs(rate)))
    c.feq(nm + ': initial rate', (tb - ta) / hs, rate, ev, floc(P_, 'nondimensionalized_time'),
          'the distortion does not start to relax at the rate of its source term', tol=5e-3, when=reg0)


def norm2(dev):
    """|M|^2 of M = G dev G (or its deviator) with unit determinant on the
    linearised solution, as a polynomial in the two decaying amplitudes."""
    from fractions import Fraction as Fr

    def mul(*ps):
        r = {(0, 0): Fr(1)}
        for p in ps:
            q = {}
            for (i, j), x in r.items():
                for (k, l), y in p.items():
                    q[i + k, j + l] = q.get((i + k, j + l), 0) + x * y
            r = q
        return r

    def lin(*ts):
        q = {}
        for f, p in ts:
            for k, y in p.items():
                q[k] = q.get(k, 0) + Fr(f) * y
        return q
    one = {(0, 0): Fr(1)}
    m = {(0, 0): Fr(1), (1, 0): Fr(1), (0, 1): Fr(-1)}
    u = {(1, 0): Fr(6), (0, 1): Fr(-9)}
    p1 = lin((3, m))
    p2 = lin((3, mul(m, m)), (1, u))
    e2 = lin(('1/2', mul(p1, p1)), ('-1/2', p2))
    p3 = lin((1, mul(p1, p2)), (-1, mul(e2, p1)), (3, one))
    p4 = lin((1, mul(p1, p3)), (-1, mul(e2, p2)), (1, p1))
    M1 = lin((1, p2), (-1, mul(m, p1)))
    M2 = lin((1, p4), (-2, mul(m, p3)), (1, mul(m, m, p2)))
    return {k: v for k, v in (lin((1, M2), ('-1/3', mul(M1, M1))) if dev else M2).items() if v}


def MPv(it, MP, n):
    l = MP.f.get(n)
    return it.cur(l) if l is not None else S('MP.' + n)


def thermal(c, P_):
    cf = Cfg(P_)
    V = cf.V
    w = floc(P_, 'analyticSolver_thermal')
    it = c.drv(P_)
    MP = mpar(it, 0, pINF=ZERO, Tref=ZERO, β=ZERO)
    ρ, n = S('ρ'), cf.names
    E = ρ * (S('e1') + MPv(it, MP, 'b02') / 4 * devG2([S(x) for x in n[5:14]]) + sumsq([S(x) / ρ for x in n[2:5]]) / 2
             + MPv(it, MP, 'cα2') / 2 * sumsq([S(x) / ρ for x in n[14:17]]))
    q0 = [E if i == 1 else S(x) for i, x in enumerate(n)]
    Q = it.vec('Q', V, init=q0)
    it.run('analyticSolver_thermal', Q, S('dt'), MP)
    q = it.out(Q)
    ev = order.ev2s(c.evs(2, positive=POS + ['dt', 'e1']), L=1024)
    for i in range(V):
        if not cf.iJ <= i < cf.iJ + 3:
            c.feq('thermal impulse: %s unchanged' % cf.names[i], q[i], q0[i], ev, w, 'thermal relaxation changes more than the thermal impulse')
    # the solution satisfies its own equation at every time
    Q2 = it.vec('Q2', V, init=q)
    r = it.vec('R2', V)
    it.run('source', r, Q2, MP)
    src = it.out(r)
    for k in range(cf.iJ, cf.iJ + 3):
        old = S(cf.names[k])
        c.feq('thermal impulse: no time, no change, %d' % (k - cf.iJ), subst(q[k], {S('dt'): ZERO}), old, ev, w, 'a relaxation over no time changes the impulse')
        reg = band(X.rlt(E, 1000 * ρ * S('e1')), X.rlt(X.tabs(old) / 10 ** 6, X.tabs(src[k])))
        c.feq('thermal impulse: rate %d' % (k - cf.iJ), diff(q[k], S('dt')), src[k], ev, w,
              'the thermal impulse is not the solution of its relaxation equation', tol=1e-6, when=reg)
