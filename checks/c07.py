from phys import *          # noqa

RULE = ('formal differentiation on the value graph: the coefficient matrix in primitive variables (from the derivative of the flux and the '
        'non-conservative block) splits off the flow speed and an acoustic part whose square is the thermo-acoustic tensor; the largest '
        'wave speed is |v_d| plus the square root of the largest modulus of its eigenvalues')
ASSUME = ['exact real arithmetic', 'single-phase equations of state (the closure of a mixture is only available implicitly)']


def run(c):
    for opts in configs(c):
        P_ = c.prog(**opts)
        cf = Cfg(P_)
        tag = cfgtag(opts)
        ev = c.evs(positive=POS)
        V = cf.V
        for en, code in EOS.items():
            if not c.thorough and opts and en not in ('SHOCK_MG', 'JWL'):
                continue
            for d in range(3):
                nm = '%s %s direction %d' % (tag, en, d)

                def go():
                    it = c.drv(P_)
                    MP = mpar(it, code)
                    ps = [S('P.' + n) for n in cf.names]
                    ps[0], ps[1] = S('ρ'), S('p')
                    P = it.vec('P', V, init=list(ps))
                    it.run('Cvec', P, MP)
                    q = it.out(P)
                    qs = [S('Q.' + n) for n in cf.names]
                    Q2 = it.vec('Q2', V, init=list(qs))
                    it.run('Pvec', Q2, MP)
                    sb = dict(zip(qs, q))
                    T = [[subst(diff(x, y), sb) for y in qs] for x in it.out(Q2)]
                    J = [[diff(q[i], ps[j]) for j in range(V)] for i in range(V)]
                    F = it.vec('F', V, init=[ZERO] * V)
                    it.run('flux', F, P, d, MP)
                    B = it.mat('B', V, V, init=[ZERO] * (V * V))
                    it.run('block', B, P, d)
                    b = rows(it.out(B), V)
                    BJ = matmul(b, J)
                    M = [[diff(f, ps[j]) + BJ[i][j] for j in range(V)] for i, f in enumerate(it.out(F))]
                    N = matmul(T, M)
                    vd = ps[2 + d]
                    for i in range(V):
                        N[i][i] = N[i][i] - vd
                    U = [0, 1] + ([5 + 3 * i + d for i in range(3)] if cf.VISCOUS else [])
                    W = [2, 3, 4] + ([14 + d] if cf.THERMAL else [])
                    R = [i for i in range(V) if i not in U + W]
                    w = floc(P_, 'flux')
                    msg = 'the coefficient matrix does not have the characteristic structure of the equations'
                    for i in range(V):
                        for j in range(V):
                            if i in R or (i in U and j in U + R) or (i in W and j in W):
                                c.eq('%s: characteristic structure [%s,%s]' % (nm, cf.names[i], cf.names[j]), N[i][j], ZERO, ev, w, msg)
                    NW = [[N[i][k] for k in U] for i in W]
                    NU = [[N[k][j] for j in W] for k in U]
                    want = matmul(NW, NU)
                    n = len(W)
                    got = rows(it.out(it.run('thermo_acoustic_tensor', P, d, MP)), n)
                    for i in range(n):
                        for j in range(n):
                            c.eq('%s: acoustic tensor [%d,%d]' % (nm, i, j), got[i][j], want[i][j], ev, floc(P_, 'thermo_acoustic_tensor'),
                                 'the thermo-acoustic tensor is not the square of the acoustic part of the coefficient matrix')
                c.attempt(nm, go)

                def speed():
                    it = c.drv(P_)
                    MP = mpar(it, code)
                    Q = cf.state(it)
                    n = 4 if cf.THERMAL else 3
                    Ξ = it.out(it.run('thermo_acoustic_tensor', Q, d, MP))
                    got = it.run('max_abs_eigs', Q, d, MP)
                    lam = it.out(it.mfn('eigenvalues', it.mx(it.mat('Ξ', n, n, init=list(Ξ))), n))
                    m = X.tabs(lam[0])
                    for x in lam[1:]:
                        m = X.tmax(m, X.tabs(x))
                    q = it.out(Q)
                    c.eq(nm + ': largest wave speed', got, X.tabs(q[2 + d] / q[0]) + X.sqrt(m), ev, floc(P_, 'max_abs_eigs'),
                         'the largest wave speed is not |v_d| + sqrt(largest |eigenvalue| of the acoustic tensor)')
                if en == 'SHOCK_MG':
                    c.attempt(nm + ': speed', speed)

