from phys import *          # noqa

RULE = ('formal differentiation on the value graph: the shear stress is minus density times A^T dE/dA at constant entropy, symmetric, the '
        'same through every accessor, and each hand-written derivative of stress, shear speed and energy equals the formal derivative')
ASSUME = ['exact real arithmetic']


def run(c):
    for opts in ([{}, {'THERMAL': True}] if not c.thorough else configs(c)):
        P_ = c.prog(**opts)
        cf = Cfg(P_)
        tag = cfgtag(opts)
        ev = c.evs(positive=POS)
        for en, code in EOS.items():
            if not c.thorough and en not in ('STIFFENED_GAS', 'SHOCK_MG'):
                continue
            nm = '%s %s' % (tag, en)
            it = c.drv(P_)
            MP = mpar(it, code)
            Q = cf.state(it)
            q = it.out(Q)
            rho = q[0]
            A = q[5:14]
            cs2 = S('MP.b02') * (rho / S('MP.ρ0')) ** S('MP.β')
            Dm = AdevG(A)
            sig = [[-(rho * cs2) * sum3([A[3 * k + i] * Dm[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]
            two = lambda F: len(F.params) == 2
            thr = lambda F: len(F.params) == 3

            def shear():
                c.eq(nm + ': shear speed', it.run('c_s2', rho, MP), cs2, ev, floc(P_, 'c_s2'))
                c.eq(nm + ': elastic energy', it.run('E_2A', rho, it.mat('Am', 3, 3, init=A), MP),
                     (ONE - S('MP.β') / it.run('Γ_MG', rho, MP)) * cs2 / 4 * devG2(A), ev, floc(P_, 'E_2A'))
            c.attempt(nm + ': shear', shear)

            def stress():
                s = rows(it.out(it.run('sigma', Q, MP, pred=two)), 3)
                for i in range(3):
                    for j in range(3):
                        c.eq('%s: stress[%d,%d]' % (nm, i, j), s[i][j], sig[i][j], ev, floc(P_, 'sigma'))
                        c.eq('%s: stress symmetric[%d,%d]' % (nm, i, j), s[i][j], s[j][i], ev, floc(P_, 'sigma'))
                for d in range(3):
                    s = it.out(it.run('sigma', Q, MP, d, pred=thr))
                    c.eqs('%s: stress column %d' % (nm, d), s, [sig[i][d] for i in range(3)], ev, floc(P_, 'sigma', pred=thr))
                    p = it.run('pressure', Q, MP)
                    s = it.out(it.run('Sigma', Q, MP, d))
                    c.eqs('%s: total stress column %d' % (nm, d), s, [(p if i == d else ZERO) - sig[i][d] for i in range(3)], ev,
                          floc(P_, 'Sigma'))
            c.attempt(nm + ': stress', stress)

            def sder():
                for d in range(3):
                    s = it.out(it.run('dsigmadρ', Q, MP, d))
                    c.eqs('%s: dstress/dρ column %d' % (nm, d), s, [diff(sig[d][i], rho) for i in range(3)], ev, floc(P_, 'dsigmadρ'))
                    s = rows(it.out(it.run('dsigmadA', Q, MP, d, pred=thr)), 3)
                    for i in range(3):
                        for j in range(3):
                            c.eq('%s: dstress[%d,%d]/dA[%d,%d]' % (nm, d, i, j, d), s[i][j], diff(sig[d][i], A[3 * j + d]), ev,
                                 floc(P_, 'dsigmadA', pred=thr))
            c.attempt(nm + ': stress derivatives', sder)

            def sder4():
                Am = it.mat('Am2', 3, 3, init=A)
                Gm = it.mat('Gm', 3, 3, init=sum(gram(A), []))
                Dv = it.mat('Dv', 3, 3, init=sum(Dm, []))
                for i in range(3):
                    for j in range(3):
                        for m in range(3):
                            for n in range(3):
                                g = it.run('dsigmadA', rho, cs2, Am, Gm, Dv, i, j, m, n, nparams=9)
                                c.eq('%s: dstress[%d,%d]/dA[%d,%d] (index form)' % (nm, i, j, m, n), g, diff(sig[i][j], A[3 * m + n]), ev,
                                     floc(P_, 'dsigmadA', nparams=9))
            if en == 'STIFFENED_GAS':
                c.attempt(nm + ': stress derivatives, index form', sder4)

            def eder():
                C0 = it.run('C_0', rho, MP)
                E = C0 / 4 * devG2(A)
                g = it.out(it.run('dEdA', Q, MP))
                c.eqs(nm + ': dE/dA', g, [diff(E, a) for a in A], ev, floc(P_, 'dEdA'))
                Es = cs2 / 4 * devG2(A)
                g = it.out(it.run('dEdA_s', Q, MP))
                c.eqs(nm + ': dE/dA at constant entropy', g, [diff(Es, a) for a in A], ev, floc(P_, 'dEdA_s'))
                c.eq(nm + ': dc_s2/dρ', it.run('dc_s2dρ', rho, MP), diff(cs2, rho), ev, floc(P_, 'dc_s2dρ'))
                c.eq(nm + ': dC_0/dρ', it.run('dC_0dρ', rho, MP), diff(C0, rho), ev, floc(P_, 'dC_0dρ'))
            c.attempt(nm + ': energy derivatives', eder)

            def edd():
                # total derivative of the energy by density and pressure at constant A
                p = it.run('pressure', Q, MP)
                Et = it.run('E_1', S('ρ'), S('p'), MP) + it.run('C_0', rho, MP) / 4 * devG2(A)
                c.eq(nm + ': dE/dρ', it.run('dEdρ', Q, MP), subst(diff(Et, rho), {S('p'): p}), ev, floc(P_, 'dEdρ'))
                c.eq(nm + ': dE/dp', it.run('dEdp', Q, MP), subst(diff(Et, S('p')), {S('p'): p}), ev, floc(P_, 'dEdp'))
                if cf.THERMAL:
                    J = [x / rho for x in q[14:17]]
                    c.eqs(nm + ': dE/dJ', it.out(it.run('dEdJ', Q, MP)), [S('MP.cα2') * x for x in J], ev, floc(P_, 'dEdJ'))
                    Jv = it.vec('Jv', 3, init=[S('J%d' % i) for i in range(3)])
                    T = S('T')
                    c.eqs(nm + ': heat flux', it.out(it.run('heat_flux', T, Jv, MP)), [S('MP.cα2') * T * S('J%d' % i) for i in range(3)], ev,
                          floc(P_, 'heat_flux'))
            c.attempt(nm + ': energy derivatives by state', edd)

        def norm():
            it = c.drv(P_)
            s = [S('s%d%d' % (min(i, j), max(i, j))) for i in range(3) for j in range(3)]
            tr = (s[0] + s[4] + s[8]) / 3
            dv = [s[k] - (tr if k % 4 == 0 else ZERO) for k in range(9)]
            c.eq(tag + ': equivalent stress', it.run('sigma_norm', it.mat('s', 3, 3, init=s)), X.sqrt(sumsq(dv) * 3 / 2), ev, floc(P_, 'sigma_norm'))
        c.attempt(tag + ': equivalent stress', norm)
