from grid import *          # noqa

RULE = ('value-numbering: the jump term is the quadrature of the non-conservative product along the straight path, each numerical flux is '
        'the sum of the two physical fluxes plus its dissipation (largest speed, |averaged matrix|, averaged |matrix|) times the jump, and '
        'for equal states reduces to the physical flux in every direction')
ASSUME = ['exact real arithmetic', 'eigen-decompositions are uninterpreted (real) functions of the matrix']


def run(c):
    for opts in ([{}] + ([{'N': 3}] if c.thorough else [])):
        P_ = c.prog(**opts)
        cf = Cfg(P_)
        V, N = cf.V, cf.N
        tag = cfgtag(opts)
        for d in range(3):
            def jump(sub, sy, op):
                it = sub.drv(P_)
                MP = mpar(it, 0)
                L, R = [[S('%s.%s' % (s, n)) for n in cf.names] for s in 'LR']
                ev = sub.evs(positive=POS + ['L.ρ', 'R.ρ'])
                n, w = glob(it, 'NODES'), glob(it, 'WGHTS')
                got = facev(it, 'Bint', L, R, d, MP)
                D = [b - a for a, b in zip(L, R)]
                want = [ZERO] * V
                for i in range(N):
                    b = bd(it, None, [a + n[i] * x for a, x in zip(L, D)], D, d, MP)
                    want = [x + w[i] * y for x, y in zip(want, b)]
                for v in range(V):
                    sub.eq('%s jump term direction %d, %s' % (tag, d, cf.names[v]), got[v], want[v], ev, floc(P_, 'Bint'),
                           'the jump term is not the path integral of the non-conservative product')
                    sub.eq('%s jump term direction %d vanishes for equal states, %s' % (tag, d, cf.names[v]),
                           facev(it, 'Bint', L, L, d, MP)[v] if v == 0 else subst(got[v], dict(zip(R, L))), ZERO, ev, floc(P_, 'Bint'))
            c.staged('%s jump term %d' % (tag, d), jump)
            for nm in ('D_RUS', 'D_ROE', 'D_OSH'):
                def face(sub, sy, op):
                    it = sub.drv(P_)
                    kernels(it, V, ('flux', 'max_abs_eigs', 'system_matrix') if op else ())
                    MP = mpar(it, 0)
                    L, R = [[S('%s.%s' % (s, n)) for n in cf.names] for s in 'LR']
                    ev = sub.evs(positive=POS + ['L.ρ', 'R.ρ'])
                    n, w = glob(it, 'NODES'), glob(it, 'WGHTS')

                    def spec(L, R):
                        D = [a - b for a, b in zip(L, R)]
                        f = it.vec('f', V, init=[ZERO] * V)
                        for q in (L, R):
                            it.run('flux', f, it.vec('q', V, init=list(q)), d, MP)
                        f = it.out(f)

                        def ab(J):
                            m = it.mx(it.mat('J', V, V, init=list(J)))
                            vec = it.out(it.mfn('EigenSolver.eigenvectors', m, V, V))
                            val = it.out(it.mfn('eigenvalues', m, V))
                            s = X.mk('msolve', V, 1, tuple(vec), tuple(D))
                            b = [X.el(s, i) * X.tabs(val[i]) for i in range(V)]
                            return [sum3([vec[i * V + k] * b[k] for k in range(V)]) for i in range(V)]

                        def sysm(t):
                            return it.out(it.run('system_matrix', it.vec('qm', V, init=[b + t * x for b, x in zip(R, D)]), d, MP))
                        if nm == 'D_RUS':
                            s = X.tmax(it.run('max_abs_eigs', it.vec('ql', V, init=list(L)), d, MP),
                                       it.run('max_abs_eigs', it.vec('qr', V, init=list(R)), d, MP))
                            dis = [s * x for x in D]
                        elif nm == 'D_ROE':
                            J = [ZERO] * (V * V)
                            for i in range(N):
                                J = [a + w[i] * b for a, b in zip(J, sysm(n[i]))]
                            dis = ab(J)
                        else:
                            dis = [ZERO] * V
                            for i in range(N):
                                dis = [a + w[i] * b for a, b in zip(dis, ab(sysm(n[i])))]
                        return [a + b for a, b in zip(f, dis)]
                    got = facev(it, nm, L, R, d, MP)
                    want = spec(L, R)
                    for v in range(V):
                        sub.eq('%s %s direction %d, %s' % (tag, nm, d, cf.names[v]), got[v], want[v], ev, floc(P_, nm),
                               'the numerical flux is not central flux plus dissipation of the jump')
                    same = facev(it, nm, L, L, d, MP)
                    f = it.vec('f2', V, init=[ZERO] * V)
                    it.run('flux', f, it.vec('q2', V, init=list(L)), d, MP)
                    for v, x in enumerate(it.out(f)):
                        sub.eq('%s %s direction %d is consistent, %s' % (tag, nm, d, cf.names[v]), same[v], x + x, ev, floc(P_, nm),
                               'the numerical flux of two equal states is not the physical flux')
                c.staged('%s %s %d' % (tag, nm, d), face)
