from phys import *          # noqa

RULE = ('value-numbering: every component of the source vector equals the closed form of the model (no mass or energy source, body force on '
        'momentum, strain dissipation by material class, heat-flux relaxation, reaction rate by kind), for arbitrary previous contents of '
        'the output')
ASSUME = ['exact real arithmetic', 'the shear stress, pressure and temperature are those decided by C01, C02 and C06']

CLASSES = [('Newtonian fluid', dict(solid=False, power=False, bingham=False)),
           ('power-law fluid', dict(solid=False, power=True, bingham=False)),
           ('Bingham fluid', dict(solid=False, power=False, bingham=True)),
           ('elastic solid', dict(solid=True, power=False, bingham=False)),
           ('elasto-plastic solid', dict(solid=True, power=True, bingham=False))]


def det3(A):
    a, b, d, e, f, g, h, i, j = A
    return a * (f * j - g * i) - b * (e * j - g * h) + d * (e * i - f * h)


def theta1(cls, it, q, MP):
    A = q[5:14]
    rho = q[0]
    Dm = AdevG(A)
    cs2 = S('MP.b02') * (rho / S('MP.ρ0')) ** S('MP.β')
    sig = [-(rho * cs2) * sum3([A[3 * k + i] * Dm[k][j] for k in range(3)]) for i in range(3) for j in range(3)]
    a53 = det3(A) ** (ONE * 5 / 3)
    n = S('MP.n')
    if cls == 'elastic solid':
        return ZERO
    if cls == 'elasto-plastic solid':
        tr = (sig[0] + sig[4] + sig[8]) / 3
        sn = X.sqrt(sumsq([sig[k] - (tr if k % 4 == 0 else ZERO) for k in range(9)]) * 3 / 2)
        sn = X.tmin(sn, ONE * 100000000)
        return a53 * 3 / (cs2 * S('MP.τ0')) * (sn / S('MP.σY')) ** n
    nrm = X.sqrt(sumsq(sig) / 2)
    if cls == 'Bingham fluid':
        return X.ite(X.rlt(S('MP.σY'), nrm), a53 * S('MP.ρ0') / (S('MP.μ') * 2) * (ONE - S('MP.σY') / nrm), ZERO)
    k = a53 * S('MP.ρ0') / (S('MP.μ') ** (ONE / n) * 2)
    if cls == 'power-law fluid':
        return k * nrm ** ((ONE - n) / n)
    return k


def rate(kind, it, q, mV, MP):
    lam = X.tmax(ZERO, q[mV] / q[0])
    M = lambda n: S('MP.' + n)
    if kind == 'ARRHENIUS':
        Q = it.vec('Qt', len(q), init=list(q))
        T = it.run('temperature', Q, MP)
        return M('Bc') * X.exp(-M('Ea') / (M('Rc') * T)) * lam
    if kind == 'DISCRETE':
        Q = it.vec('Qt', len(q), init=list(q))
        T = it.run('temperature', Q, MP)
        return X.ite(X.rlt(M('Ti'), T), M('Kc') * lam, ZERO)
    Q = it.vec('Qt', len(q), init=list(q))
    p = X.tmax(it.run('pressure', Q, MP), ZERO)
    l = X.tmin(lam, ONE)
    f = ONE - l
    r = X.ite(X.rlt(f, M('φI')), M('I') * l ** M('b') * (q[0] / M('ρ0') - ONE - M('a')) ** M('x'), ZERO)
    r = r + X.ite(X.rlt(f, M('φG1')), M('G1') * l ** M('c') * f ** M('d') * p ** M('y'), ZERO)
    r = r + X.ite(X.rlt(M('φG2'), f), M('G2') * l ** M('e') * f ** M('g') * p ** M('z'), ZERO)
    return X.tmax(r, ZERO)


def run(c):
    for opts in configs(c):
        P_ = c.prog(**opts)
        cf = Cfg(P_)
        tag = cfgtag(opts)
        ev = c.evs(positive=POS)
        V = cf.V
        for cn, kw in CLASSES:
            nm = '%s %s' % (tag, cn)

            def go():
                it = c.drv(P_)
                MP = mpar(it, 1, **kw)
                dv = it.vec('δp', 3, init=[S('δp%d' % i) for i in range(3)])
                l = Loc('δp')
                MP.f['δp'] = l
                it.base_mem[l] = dv
                it.st.mem[l] = dv
                Q = cf.state(it)
                q = it.out(Q)
                r = it.vec('r', V)                   # arbitrary previous contents
                it.run('source', r, Q, MP)
                got = it.out(r)
                want = [ZERO] * V
                want[2:5] = [S('δp%d' % i) for i in range(3)]
                if cf.VISCOUS:
                    th = theta1(cn, it, q, MP)
                    cs2 = S('MP.b02') * (q[0] / S('MP.ρ0')) ** S('MP.β')
                    D = sum(AdevG(q[5:14]), [])
                    want[5:14] = [-(cs2 * x * th) for x in D]
                if cf.THERMAL:
                    T = it.run('temperature', cf.state(it), MP)
                    for i in range(3):
                        want[14 + i] = -(q[0] * S('MP.cα2') * (q[14 + i] / q[0]) * T / (S('MP.κ') * q[0]))
                for i in range(V):
                    c.eq('%s: source of %s' % (nm, cf.names[i]), got[i], want[i], ev, floc(P_, 'source'),
                         'the source term is not the one of the model')
                c.eqs(nm + ': state left alone', it.out(Q), q, ev, floc(P_, 'source'), 'evaluating the source changes the state')
            c.attempt(nm, go)
        if not cf.MULTI:
            continue
        for kind, code in REACTIONS.items():
            nm = '%s reaction %s' % (tag, kind)

            def react():
                it = c.drv(P_)
                MP = mpar(it, 1, reaction=code, solid=False, power=False, bingham=False)
                Q = cf.state(it)
                q = it.out(Q)
                want = rate(kind, it, q, cf.mV, MP)
                c.eq(nm + ': rate', it.run('reaction_rate', Q, MP), want, ev, floc(P_, 'reaction_rate'),
                     'the reaction rate is not the one of the chosen kind')
                r = it.vec('r', V)
                it.run('source', r, Q, MP)
                got = it.out(r)
                c.eq(nm + ': source of the mass fraction', got[cf.mV], -(q[0] * want), ev, floc(P_, 'source'),
                     'the mass fraction is not consumed at the reaction rate')
                for i in (0, 1):
                    c.eq('%s: source of %s' % (nm, cf.names[i]), got[i], ZERO, ev, floc(P_, 'source'), 'mass and total energy have no source')
                for i in range(V - cf.LSET, V):
                    c.eq('%s: source of %s' % (nm, cf.names[i]), got[i], ZERO, ev, floc(P_, 'source'), 'the level sets have no source')
            c.attempt(nm, react)

        def unknown():
            it = c.drv(P_)
            MP = mpar(it, 1, reaction=3)
            try:
                it.run('reaction_rate', cf.state(it), MP)
            except Dead:
                return c.ok(tag + ': unknown reaction rejected')
            c.fail(tag + ': unknown reaction rejected', floc(P_, 'reaction_rate'), 'an unknown reaction type yields a rate')
        c.attempt(tag + ': unknown reaction rejected', unknown)
