from phys import *          # noqa

RULE = ('formal differentiation on the value graph: the primitive Jacobian of the flux is the derivative of flux(conserved(P)), the '
        'primitive/conserved transformation is the inverse of the derivative of the conversion, and the system matrix is the derivative '
        'of the flux plus the non-conservative block, entry by entry')
ASSUME = ['exact real arithmetic', 'one equation of state per material (mixtures: the column of the mass fraction is only compared for reacting single-phase states)']


def run(c):
    for opts in configs(c):
        P_ = c.prog(**opts)
        cf = Cfg(P_)
        tag = cfgtag(opts)
        ev = c.evs(positive=POS)
        V = cf.V
        for en, code in EOS.items():
            if not c.thorough and en not in ('STIFFENED_GAS', 'SHOCK_MG', 'GODUNOV_ROMENSKI'):
                continue
            if opts and not c.thorough and en == 'GODUNOV_ROMENSKI':
                continue
            for re in ((-1, 0) if cf.MULTI else (-1,)):
                nm = '%s %s%s' % (tag, en, ' reacting' if re == 0 else '')

                def prim():
                    it = c.drv(P_)
                    MP = mpar(it, code, reaction=re)
                    pn = list(cf.names)
                    ps = [S('P.' + n) for n in pn]
                    ps[0], ps[1] = S('ρ'), S('p')
                    P = it.vec('P', V, init=list(ps))
                    it.run('Cvec', P, MP)
                    q = it.out(P)
                    # transformation: dP/dQ . dQ/dP = I
                    T = rows(it.out(it.run('dPdQ', P, MP)), V)
                    w = floc(P_, 'dPdQ')
                    J = [[diff(q[i], ps[j]) for j in range(V)] for i in range(V)]
                    M = matmul(T, J)
                    for i in range(V):
                        for j in range(V):
                            c.eq('%s: dP/dQ is inverse to dQ/dP [%d,%d]' % (nm, i, j), M[i][j], ONE if i == j else ZERO, ev, w)
                    for d in range(3):
                        F = it.vec('F%d' % d, V, init=[ZERO] * V)
                        it.run('flux', F, P, d, MP)
                        f = it.out(F)
                        G = rows(it.out(it.run('dFdP', P, d, MP)), V)
                        w = floc(P_, 'dFdP')
                        for i in range(V):
                            for j in range(V):
                                c.eq('%s: dF/dP direction %d [%d,%d]' % (nm, d, i, j), G[i][j], diff(f[i], ps[j]), ev, w)
                c.attempt(nm + ': primitive Jacobians', prim)

                def system():
                    it = c.drv(P_)
                    MP = mpar(it, code, reaction=re)
                    Q = cf.state(it)
                    qs = it.out(Q)
                    for d in range(3):
                        F = it.vec('F%d' % d, V, init=[ZERO] * V)
                        it.run('flux', F, Q, d, MP)
                        f = it.out(F)
                        B = it.mat('B%d' % d, V, V, init=[ZERO] * (V * V))
                        it.run('block', B, Q, d)
                        b = rows(it.out(B), V)
                        M = rows(it.out(it.run('system_matrix', Q, d, MP)), V)
                        for i in range(V):
                            for j in range(V):
                                c.eq('%s: system matrix direction %d [%d,%d]' % (nm, d, i, j), M[i][j], diff(f[i], qs[j]) + b[i][j], ev,
                                     floc(P_, 'system_matrix'))
                if c.thorough or en == 'STIFFENED_GAS':
                    c.attempt(nm + ': system matrix', system)
