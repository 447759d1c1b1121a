from phys import *          # noqa

RULE = ('value numbering: the flux adds, to whatever the output holds, exactly transport plus pressure, stress work and heat flow; formal derivatives of '
        'flux and non-conservative product along a generic gradient balance the thermodynamic identity (no entropy is produced by transport), for '
        'every material and direction')
ASSUME = ['exact real arithmetic', 'pressure, stress and temperature are those of the equation of state (C01, C06)']


def run(c):
    cs = configs(c) + [{'VISCOUS': False}]
    for opts in cs:
        try:
            P_ = c.prog(**opts)
        except FrontError as e:
            if opts.get('VISCOUS') is False:
                c.undecided(cfgtag(opts), 'this configuration does not compile: %s' % str(e)[:100])
                continue
            raise
        for en, code in EOS.items():
            if opts and en != 'STIFFENED_GAS' and not c.thorough:
                continue
            for d in range(3):
                nm = '%s %s direction %d' % (cfgtag(opts), en, d)
                c.attempt(nm, lambda: one(c, P_, opts, code, d, nm))


def callees(P_, q):
    seen, todo = [], [P_.one(q)]
    while todo:
        F = todo.pop()
        if F in seen:
            continue
        seen.append(F)

        def see(n):
            if isinstance(n, dict):
                f = n.get('f')
                if n.get('k') == 'call' and isinstance(f, dict):
                    todo.extend(P_.find(f.get('q', '')))
                for x in n.values():
                    see(x)
            elif isinstance(n, list):
                for x in n:
                    see(x)
        see(F.d['body'])
    return seen


def one(c, P_, opts, code, d, nm):
    cf = Cfg(P_)
    V = cf.V
    ev = c.evs(positive=POS)
    w = floc(P_, 'flux')
    it = c.drv(P_)
    MP = mpar(it, code, multi=bool(opts.get('MULTI')))
    Q = cf.state(it)
    q = [S(n) for n in cf.names]
    ρ, ρE = q[0], q[1]
    v = [x / ρ for x in q[2:5]]
    mat = cf.VISCOUS
    A = q[5:14]
    if cf.MULTI:
        # the closure of a mixture is implicit: any pressure law must do
        sur = S('π0') + q[0] * q[1] * S('π1') + sum3([S('π.%d' % i) * x for i, x in enumerate(q)])
        P_.one('pressure')

        def pres(self, F, a):
            x = self.out(self.mx(a[0]))
            return subst(sur, {s: y for s, y in zip(q, x) if s is not y})
        it.opaque['pressure'] = pres
        p = sur
        if not any(F.q == 'pressure' for F in callees(P_, 'flux')):
            raise Undecided('the pressure of a mixture is not obtained through pressure()')
    else:
        p = it.run('pressure', Q, MP)
    T = it.run('temperature', Q, MP) if cf.THERMAL else None
    J = [q[cf.iJ + i] / ρ for i in range(3)] if cf.THERMAL else None
    # dE/dA at constant entropy, from the closed form decided by C06
    cs2 = S('MP.b02') * (ρ / S('MP.ρ0')) ** S('MP.β')
    Dm = AdevG(A) if mat else None
    ψ = [cs2 * Dm[i][j] for i in range(3) for j in range(3)] if mat else None
    σ = [ZERO - ρ * sum3([A[3 * k + i] * ψ[3 * k + d] for k in range(3)]) for i in range(3)] if mat else [ZERO] * 3
    want = [ZERO] * V
    want[0] = q[2 + d]
    want[1] = v[d] * (ρE + p) - sum3([σ[i] * v[i] for i in range(3)])
    for i in range(3):
        want[2 + i] = v[d] * q[2 + i] + (p if i == d else ZERO) - σ[i]
    if mat:
        for i in range(3):
            want[5 + 3 * i + d] = sum3([A[3 * i + k] * v[k] for k in range(3)])
    if cf.THERMAL:
        a2 = S('MP.cα2')
        want[1] = want[1] + a2 * T * J[d]
        for i in range(3):
            want[cf.iJ + i] = v[d] * q[cf.iJ + i] + (T if i == d else ZERO)
    if cf.MULTI:
        want[cf.mV] = v[d] * q[cf.mV]
    r0 = [S('r%d' % i) for i in range(V)]
    r = it.vec('ret', V, init=r0)
    it.run('flux', r, Q, d, MP)
    got = it.out(r)
    for i in range(V):
        c.eq('%s: flux of %s' % (nm, cf.names[i]), got[i], r0[i] + want[i], ev, w, 'the flux added is not transport plus pressure, stress work and heat flow')
    # no entropy is produced by transport
    z = it.vec('ret0', V, init=[ZERO] * V)
    it.run('flux', z, Q, d, MP)
    F = it.out(z)
    g = [S('g%d' % i) for i in range(V)]
    b = it.vec('b', V, init=[ZERO] * V)
    it.run('Bdot', b, Q, it.vec('gr', V, init=g), d, MP)
    B = it.out(b)
    D = lambda f: sum3([diff(f, s) * h for s, h in zip(q, g)])
    Ut = [ZERO - D(f) - x for f, x in zip(F, B)]
    M = lambda f: sum3([diff(f, s) * (h + v[d] * k) for s, h, k in zip(q, Ut, g)])
    bal = ρ * M(ρE / ρ) - p / ρ * M(ρ) - ρ * sum3([v[i] * M(v[i]) for i in range(3)])
    if mat:
        bal = bal - ρ * sum3([ψ[i] * M(A[i]) for i in range(9)])
    if cf.THERMAL:
        bal = bal - ρ * a2 * sum3([J[i] * M(J[i]) for i in range(3)]) + T * a2 * D(J[d])
    c.eq('%s: entropy balance' % nm, bal, ZERO, ev, w, 'transport alone changes the entropy carried by the material')
    # scalars are carried unchanged
    for k in range(14, V):
        if cf.THERMAL and k < cf.iJ + 3:
            continue
        s = q[k] / ρ if cf.MULTI and k == cf.mV else q[k]
        c.eq('%s: %s is carried along' % (nm, cf.names[k]), M(s), ZERO, ev, w, 'a scalar changes along the path of the material')
