from phys import *          # noqa

RULE = ('value-numbering of the variable conversions: conserved -> primitive -> conserved is the identity in every configuration, the '
        'energy recovered for the pressure is the conserved energy minus kinetic, elastic, thermal-inertia and chemical parts, and the '
        'conversions touch no other component')
ASSUME = ['exact real arithmetic', 'one equation of state per material (mixtures are decided under C01)']


def run(c):
    for opts in configs(c):
        P_ = c.prog(**opts)
        cf = Cfg(P_)
        tag = cfgtag(opts)
        ev = c.evs(positive=POS)
        for en, code in EOS.items():
            for re in ((-1, 0) if cf.MULTI else (-1,)):
                if en not in ('STIFFENED_GAS', 'SHOCK_MG') and (re == 0 or cf.THERMAL) and not c.thorough:
                    continue
                nm = '%s %s%s' % (tag, en, ' reacting' if re == 0 else '')

                def roundtrip():
                    it = c.drv(P_)
                    MP = mpar(it, code, reaction=re)
                    Q = cf.state(it)
                    q0 = it.out(Q)
                    it.run('Pvec', Q, MP)
                    w = it.out(Q)
                    it.run('Cvec', Q, MP)
                    c.eqs(nm + ': conserved -> primitive -> conserved', it.out(Q), q0, ev, floc(P_, 'Cvec'))
                    # meaning of the primitive components
                    rho = q0[0]
                    p = it.run('pressure', cf.state(it), MP)
                    want = [rho, p] + [x / rho for x in q0[2:5]] + q0[5:14]
                    want += [x / rho for x in q0[14:17]] if cf.THERMAL else []
                    want += [q0[cf.mV] / rho] if cf.MULTI else []
                    want += q0[len(want):]
                    c.eqs(nm + ': primitive variables', w, want, ev, floc(P_, 'Pvec'))
                c.attempt(nm + ': round trip', roundtrip)

                def roundtrip2():
                    it = c.drv(P_)
                    MP = mpar(it, code, reaction=re)
                    Q = cf.state(it)
                    a = it.run('Cvec_to_Pvec', Q, MP)
                    pv = it.out(a)
                    q0 = it.out(Q)
                    rho = q0[0]
                    p = it.run('pressure', Q, MP)
                    want = [rho, p] + [q0[5 + 3 * i + j] for j in range(3) for i in range(3)] + [x / rho for x in q0[2:5]]
                    want += [x / rho for x in q0[14:17]] if cf.THERMAL else []
                    want += [q0[cf.mV] / rho] if cf.MULTI else []
                    want += q0[len(want):]
                    c.eqs(nm + ': Riemann-ordered primitive variables', pv, want, ev, floc(P_, 'Cvec_to_Pvec'))
                    b = it.run('Pvec_to_Cvec', a, MP)
                    c.eqs(nm + ': conserved -> Riemann-ordered primitive -> conserved', it.out(b), q0, ev, floc(P_, 'Pvec_to_Cvec'))
                c.attempt(nm + ': Riemann ordering', roundtrip2)

                def energy():
                    it = c.drv(P_)
                    MP = mpar(it, code, reaction=re)
                    Q = cf.state(it)
                    q = it.out(Q)
                    rho = q[0]
                    v = [x / rho for x in q[2:5]]
                    A = q[5:14]
                    want = q[1] / rho - sumsq(v) / 2
                    cs2 = S('MP.b02') * (rho / S('MP.ρ0')) ** S('MP.β')
                    Gm = it.run('Γ_MG', rho, MP)
                    want = want - (ONE - S('MP.β') / Gm) * cs2 / 4 * devG2(A)
                    if cf.THERMAL:
                        want = want - S('MP.cα2') * sumsq([x / rho for x in q[14:17]]) / 2
                    if re > -1:
                        want = want - S('MP.Qc') * (q[cf.mV] / rho - 1)
                    c.eq(nm + ': pressure is the EOS pressure of the internal energy', it.run('pressure', Q, MP),
                         it.run('pressure_mg', rho, want, MP), ev, floc(P_, 'pressure'))
                    c.eq(nm + ': temperature is the EOS temperature', it.run('temperature', Q, MP),
                         it.run('temperature_mg', rho, it.run('pressure', Q, MP), MP), ev, floc(P_, 'temperature'))
                c.attempt(nm + ': energy', energy)
