from grid import *          # noqa
import c18

RULE = ('value graph: the star states lie on the wave curves of their own sides (the exact differentials of traction, temperature and the '
        'isentropic relation, with the impedance from the acoustic tensor) and meet the interface conditions (equal normal traction and '
        'velocity, no tangential traction when slipping; full traction and velocity when sticking; none at a vacuum); iteration is by rotate, '
        'relax, step until converged, rotate back, the original state when it fails')
ASSUME = ['exact real arithmetic', 'eigenvectors and eigenvalues of the acoustic tensor are those the library returns (uninterpreted)',
          'conversions between variables are decided by C02']


def run(c):
    for o in ({}, {'THERMAL': True}):
        P_ = c.prog(**o)
        t = cfgtag(o)
        for sgn in (1, -1):
            c.attempt('wave curves %s, side %d' % (t, sgn), lambda: curves(c, P_, sgn, t))
        c.attempt('contact waves %s' % t, lambda: contacts(c, P_, t))
    opts = [{}, {'RIEMANN_STICK': True}, {'THERMAL': True}]
    if c.thorough:
        opts += [{'THERMAL': True, 'RIEMANN_STICK': True}, {'MULTI': True}]
    for o in opts:
        P_ = c.prog(**o)
        t = cfgtag(o)
        for vac in (False, True):
            tg = 'interface conditions %s%s' % (t, ', vacuum' if vac else '')
            c.attempt(tg, lambda: stars(c, P_, vac, tg))
    for o in ({'STAR_TOL': '0.5'}, {'STAR_TOL': '0.5', 'RIEMANN_STICK': True}, {'STAR_TOL': '0.5', 'THERMAL': True}):
        P_ = c.prog(**o)
        for vac in (False, True):
            tg = 'convergence %s%s' % (cfgtag({k: v for k, v in o.items() if k != 'STAR_TOL'}), ', vacuum' if vac else '')
            c.attempt(tg, lambda: conv(c, P_, vac, tg))
    for o in ({}, {'RIEMANN_RELAXATION': False}):
        P_ = c.prog(**o)
        for vac in (False, True):
            for k in (0, 1, 3, 99):
                for bad in (False, True):
                    tg = 'iteration %s%s, %s%s' % (cfgtag(o), ', vacuum' if vac else '', 'never converging' if k > 9 else 'converging after %d' % k,
                                                   ', failing' if bad else '')
                    c.attempt(tg, lambda: iterate(c, P_, vac, k, bad, tg))


def atyp(cf, q, it=None):
    """Component names in the ordering of the wave curves."""
    n = list(cf.names)
    A = [n[5 + 3 * i + j] for j in range(3) for i in range(3)]
    return n[:2] + A + n[2:5] + n[14:]


def primstate(it, cf, MP, sfx=''):
    """State given by its primitive variables: (conserved view, symbols in the unusual ordering)."""
    names = atyp(cf, None)
    sy = {n: S(n + sfx) for n in cf.names}
    sy['ρE'] = S('p' + sfx)
    P = it.vec('P' + sfx, cf.V, init=[sy[n] for n in cf.names])
    it.run('Cvec', P, MP)
    # symbols: rho, p, v, A, J, lambda, level sets
    return it.vec('Q' + sfx, cf.V, init=it.out(P)), [sy[n] for n in names]


def curves(c, P_, sgn, t):
    cf = Cfg(P_)
    V = cf.V
    w = floc(P_, 'riemann_constraints')
    it = c.drv(P_)
    MP = mpar(it, 0)
    Q, x = primstate(it, cf, MP)
    m = 4 if cf.THERMAL else 3
    R = it.out(it.run('riemann_constraints', Q, sgn, MP))
    R = [R[V * i:V * i + V] for i in range(V)]
    ev = c.evs()
    P9 = [S(n) if n != 'ρE' else S('p') for n in cf.names]
    A = [S(n) for n in cf.names[5:14]]
    ρ, p = S('ρ'), S('p')
    Qv = it.vec('Q3', V, init=it.out(Q))
    Σ = it.out(it.run('Sigma', Qv, MP, 0))
    σ = it.out(it.run('sigma', Qv, MP, 0, nparams=3))
    c0 = it.run('c_0', Qv, MP)
    T = it.run('temperature', Qv, MP) if cf.THERMAL else None
    A1 = [S('A00'), S('A10'), S('A20')]
    lead = [ρ, p] + A1
    Ai = inv3(A)
    D = lambda e, k: sum3([diff(e, s) * R[i][k] for i, s in enumerate(lead)])
    for k in range(m):
        for i in range(3):
            c.eq('wave curves %s, side %d, column %d: traction %d' % (t, sgn, k, i), D(Σ[i], k), ONE if i == k else ZERO, ev, w,
                 'a unit step along a wave curve does not change the traction (or temperature) it is meant to by one and the others by nothing')
        δ = [sum3([Ai[3 * i + j] * R[2 + j][k] for j in range(3)]) for i in range(3)]
        c.eq('wave curves %s, side %d, column %d: mass' % (t, sgn, k), R[0][k], ρ * δ[0], ev, w,
             'the density does not follow the deformation along a wave curve')
        if cf.THERMAL:
            c.eq('wave curves %s, side %d, column %d: temperature' % (t, sgn, k), D(T, k), ONE if k == 3 else ZERO, ev, w,
                 'a unit step along a wave curve does not change the temperature by one (or a traction step changes it)')
        else:
            dp = sum3([(σ[i] - ρ * diff(σ[i], ρ)) * δ[i] for i in range(3)]) + ρ * c0 * c0 * δ[0]
            c.eq('wave curves %s, side %d, column %d: pressure' % (t, sgn, k), R[1][k], dp, ev, w, 'the pressure does not follow the deformation isentropically')
        for i in range(5, 11):
            c.eq('wave curves %s, side %d, column %d: component %d' % (t, sgn, k, i), R[i][k], ZERO, ev, w, 'a normal wave changes the tangential distortion')
    # impedance
    X1 = it.out(it.run('Xi1', ρ, p, Qv, MP, 0))
    X2 = it.out(it.run('Xi2', ρ, p, Qv, MP, 0))
    Ξ = [sum3([X1[5 * i + k] * X2[m * k + j] for k in range(5)]) for i in range(m) for j in range(m)]
    seen = []
    old = it.mfn
    E = c.evs(1, L=512, positive=POS)

    def mfn(name, mm, nout, cols=1):
        if 'eig' in name:
            v = it.vals(mm)
            if len(v) == m * m and all(equal(a, b, E) is None for a, b in zip(v, Ξ)):
                seen.append(name)
                return Vals(nout, cols, [S('%s.%d' % (name, i)) for i in range(nout * cols)])
            raise Undecided('eigenvalues of another matrix')
        return old(name, mm, nout, cols)
    it.mfn = mfn
    R2 = it.out(it.run('riemann_constraints', it.vec('Q4', V, init=it.out(Q)), sgn, MP))
    R2 = [R2[V * i:V * i + V] for i in range(V)]
    nv = sorted(set(seen))
    # which name is which: vectors come as m x m
    vec = [n for n in nv if 'vec' in n.lower() or n.endswith('.V')]
    lam = [n for n in nv if n not in vec]
    if len(vec) != 1 or len(lam) != 1:
        return c.undecided('wave curves %s, side %d: impedance' % (t, sgn), 'decomposition used: %s' % nv)
    q = [S('%s.%d' % (vec[0], i)) for i in range(m * m)]
    l = [S('%s.%d' % (lam[0], i)) for i in range(m)]
    # Y0 q = q diag(l^-1/2): rows 11.. of R are -sgn Y0 X1 X, so compare against any Y0 by applying the inverse relation
    # q^-1 (dv) = -sgn l^-1/2 q^-1 (X1 X)
    Xs = [[R2[i][k] for i in range(5)] for k in range(m)]
    import itertools
    qi = inverse(q, m)
    ev = c.evs(positive=POS + ['%s.%d' % (lam[0], i) for i in range(m)])
    for k in range(m):
        y = [sum3([X1[5 * i + j] * Xs[k][j] for j in range(5)]) for i in range(m)]
        dv = [R2[11 + i][k] for i in range(m)]
        for i in range(m):
            a = sum3([qi[m * i + j] * dv[j] for j in range(m)])
            b = sum3([qi[m * i + j] * y[j] for j in range(m)])
            c.eq('wave curves %s, side %d, column %d: impedance %d' % (t, sgn, k, i), a, ZERO - sgn * b / X.sqrt(l[i]), ev, w,
                 'velocity (and heat flow) do not change with the traction by the impedance of the wave on this side')
    for k in range(m):
        for i in range(m):
            c.eq('wave curves %s, side %d, outgoing wave %d component %d' % (t, sgn, k, i), R2[11 + i][m + k], sgn * q[m * i + k] / X.sqrt(l[k]), ev, w,
                 'an outgoing acoustic wave does not have the shape of its eigenvector')
        for i in range(11):
            c.eq('wave curves %s, side %d, outgoing wave %d component %d' % (t, sgn, k, i), R2[i][m + k], ZERO, ev, w, 'an outgoing wave changes the thermodynamic state')


def contacts(c, P_, t):
    """The waves that move with the material carry no change of traction, velocity, temperature or heat flow."""
    cf = Cfg(P_)
    V = cf.V
    w = floc(P_, 'eigen')
    it = c.drv(P_)
    MP = mpar(it, 0)
    Q, x = primstate(it, cf, MP)
    R = it.out(it.run('eigen', it.vec('Qe', V, init=it.out(Q)), 0, MP))
    R = [R[V * i:V * i + V] for i in range(V)]
    Qv = it.vec('Q3', V, init=it.out(Q))
    Σ = it.out(it.run('Sigma', Qv, MP, 0))
    T = it.run('temperature', Qv, MP) if cf.THERMAL else None
    m = 4 if cf.THERMAL else 3
    ev = c.evs(positive=POS)
    cols = [2 * m] if cf.THERMAL else range(2 * m, 14)
    sh = x[:11]
    for k in cols:
        for i in range(3):
            c.eq('contact wave %s, column %d: traction %d' % (t, k, i), sum3([diff(Σ[i], s) * R[j][k] for j, s in enumerate(sh)]), ZERO, ev, w,
                 'a wave that moves with the material changes the traction')
        for i in range(11, 11 + m):
            c.eq('contact wave %s, column %d: velocity %d' % (t, k, i - 11), R[i][k], ZERO, ev, w, 'a wave that moves with the material changes the velocity or heat flow')
        if T is not None:
            c.eq('contact wave %s, column %d: temperature' % (t, k), sum3([diff(T, s) * R[j][k] for j, s in enumerate(sh)]), ZERO, ev, w,
                 'a wave that moves with the material changes the temperature')
    if not cf.THERMAL:
        lead = (0, 1) + tuple(range(5, 11))
        for a, i in enumerate(lead):
            for b, k in enumerate(cols):
                c.eq('contact waves %s: independent [%d,%d]' % (t, a, b), R[i][k], ONE if a == b else ZERO, ev, w,
                     'the waves that move with the material are not the independent changes of density, pressure and tangential distortion')
    for i in range(11 + m, V):
        for k in range(V):
            c.eq('contact waves %s: scalar %d, column %d' % (t, i, k), R[i][k], ONE if i == k else ZERO, ev, w, 'level sets and mass fractions are not carried passively')


def inv3(A):
    return inverse(A, 3)


def inverse(A, n):
    """Inverse by adjugate."""
    def det(M):
        k = len(M)
        if k == 0:
            return ONE
        if k == 1:
            return M[0][0]
        return sum3([(M[0][j] if j % 2 == 0 else ZERO - M[0][j]) * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(k)])
    M = [list(A[n * i:n * i + n]) for i in range(n)]
    d = det(M)
    out = []
    for i in range(n):
        for j in range(n):
            mi = [r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j]
            x = det(mi) / d
            out.append(x if (i + j) % 2 == 0 else ZERO - x)
    return out


def stars(c, P_, vac, tg):
    cf = Cfg(P_)
    V = cf.V
    m = 4 if cf.THERMAL else 3
    w = floc(P_, 'star_stepper')
    it = c.drv(P_)
    stick = bool(gconst(P_, 'RIEMANN_STICK'))
    ML, MR = mpar(it, 0, name='ML'), mpar(it, -1 if vac else 4, name='MR')
    P_.one('riemann_constraints')
    calls = []

    def rc(self, F, a):
        q = tuple(self.out(self.mx(a[0] if isinstance(a[0], (View, EM)) else self.cur(a[0]))))
        s = a[1] if not isinstance(a[1], Loc) else self.cur(a[1])
        k = X.uf('all', 0, q + (lift(s), mpkey(self, a[2])))
        calls.append((k, s))
        return self.mat('RC', V, V, init=[X.uf('rc', i, (k,)) for i in range(V * V)])
    it.opaque['riemann_constraints'] = rc
    QL, QR = cf.state(it, 'L', 'QL'), cf.state(it, 'R', 'QR')
    vl, vr = it.out(QL), it.out(QR)
    aux = c.drv(P_)
    AL, AR = mpar(aux, 0, name='ML'), mpar(aux, 4, name='MR')

    def prim(q, MP):
        return it_out(aux.run('Cvec_to_Pvec', aux.vec('a%d' % len(aux.calls), V, init=list(q)), MP))

    def it_out(v):
        return aux.out(aux.mx(v))

    def tr(q, MP):
        x = aux.out(aux.run('Sigma', aux.vec('s%d' % len(aux.calls), V, init=list(q)), MP, 0))
        if cf.THERMAL:
            x = x + [aux.run('temperature', aux.vec('t%d' % len(aux.calls), V, init=list(q)), MP)]
        return list(x)
    it.run('star_stepper', QL, QR, ML, MR)
    gl, gr = it.out(QL), it.out(QR)
    ev = c.evs(positive=[x + s for x in POS for s in ('L', 'R', '')])
    RL = lambda i, j: X.uf('rc', V * i + j, (X.uf('all', 0, tuple(vl) + (ONE, mpkey(it, ML))),))
    RR = lambda i, j: X.uf('rc', V * i + j, (X.uf('all', 0, tuple(vr) + (-ONE, mpkey(it, MR))),))
    xl = tr(vl, AL)
    pl = prim(vl, AL)

    def back(p, MP):
        return it_out(aux.run('Pvec_to_Cvec', aux.vec('b%d' % len(aux.calls), V, init=list(p)), MP))
    vel = lambda q: [q[2] / q[0], q[3] / q[0], q[4] / q[0]] + ([q[14] / q[0]] if cf.THERMAL else [])
    if vac:
        d = [ZERO - x for x in xl]
        if cf.THERMAL:
            # no heat flow into the vacuum
            d[3] = (ZERO - vel(vl)[3] - sum3([RL(14, j) * d[j] for j in range(3)])) / RL(14, 3)
        want = back([pl[i] + sum3([RL(i, j) * d[j] for j in range(m)]) for i in range(V)], AL)
        c.eqs(tg + ': left', gl, want, ev, w, 'the star state next to a vacuum is not free of traction')
        c.eqs(tg + ': right', gr, [ZERO] * V, ev, w, 'the vacuum is given a state')
        return
    xr, pr = tr(vr, AR), prim(vr, AR)
    # rows of unknown star tractions: velocities (and heat flow) agree
    rows = range(m) if stick else ([0, 3] if cf.THERMAL else [0])
    rows = list(rows)
    yl, yr = vel(vl), vel(vr)
    n = len(rows)
    M = [RL(11 + i, j) - RR(11 + i, j) for i in rows for j in rows]
    b = [yr[i] - yl[i] + sum3([RL(11 + i, j) * xl[j] - RR(11 + i, j) * xr[j] for j in range(m)]) for i in rows]
    Mi = inverse(M, n)
    s = [ZERO] * m
    for a, i in enumerate(rows):
        s[i] = sum3([Mi[n * a + k] * b[k] for k in range(n)])
    for nm, got, p, x, R, MP in (('left', gl, pl, xl, RL, AL), ('right', gr, pr, xr, RR, AR)):
        want = back([p[i] + sum3([R(i, j) * (s[j] - x[j]) for j in range(m)]) for i in range(V)], MP)
        c.eqs('%s: %s' % (tg, nm), got, want, ev, w,
              'the star states do not meet the interface conditions on the wave curves of their sides')


def conv(c, P_, vac, tg):
    cf = Cfg(P_)
    V = cf.V
    w = floc(P_, 'check_star_convergence')
    it = c.drv(P_)
    stick = bool(gconst(P_, 'RIEMANN_STICK'))
    ML, MR = mpar(it, 0, name='ML'), mpar(it, -1 if vac else 0, name='MR')
    QL, QR = cf.state(it, 'L', 'QL'), cf.state(it, 'R', 'QR')
    vl, vr = it.out(QL), it.out(QR)

    def sig(self, F, a):
        nm = mpkey(self, a[1])
        d = dirn(self, a[2])
        q = self.out(self.mx(a[0] if isinstance(a[0], (View, EM)) else self.cur(a[0])))
        return self.vec('Sg', 3, init=[X.uf('Sigma%d' % d, i, (nm,) + tuple(q)) for i in range(3)])

    def temp(self, F, a):
        q = self.out(self.mx(a[0] if isinstance(a[0], (View, EM)) else self.cur(a[0])))
        return X.uf('T', 0, (mpkey(self, a[1]),) + tuple(q))
    it.opaque['Sigma'], it.opaque['temperature'] = sig, temp
    got = it.run('check_star_convergence', QL, QR, ML, MR)
    Σl = [X.uf('Sigma0', i, (mpkey(it, ML),) + tuple(vl)) for i in range(3)]
    Σr = [X.uf('Sigma0', i, (mpkey(it, MR),) + tuple(vr)) for i in range(3)]
    g = lambda M, n: S('%s.%s' % (M, n))
    tol = X.C(drive.IP.Fraction(1, 2)) if hasattr(drive.IP, 'Fraction') else ONE / 2
    near = TRUE
    want = TRUE
    h = ONE / 10 ** 6

    def need(x):
        nonlocal want, near
        want = band(want, X.rlt(x, tol))
        near = band(near, X.rlt(h, X.tabs(x - tol)))
    mn = lambda n: g('ML', n) if vac else X.tmin(g('ML', n), g('MR', n))
    for i in range(3 if stick or vac else 1):
        need(X.tabs(Σl[i] if vac else Σl[i] - Σr[i]) / (mn('b02') * mn('ρ0')))
        if not vac:
            need(X.tabs(vl[2 + i] / vl[0] - vr[2 + i] / vr[0]) / X.sqrt(mn('b02')))
    if cf.THERMAL:
        Tl, Tr = X.uf('T', 0, (mpkey(it, ML),) + tuple(vl)), X.uf('T', 0, (mpkey(it, MR),) + tuple(vr))
        qd = lambda M: g(M, 'cα2') / g(M, 'ρ0') * g(M, 'T0') * X.sqrt(g(M, 'T0') / g(M, 'cv'))
        ql, qr = g('ML', 'cα2') * Tl * vl[14] / vl[0], g('MR', 'cα2') * Tr * vr[14] / vr[0]
        q0 = qd('ML') if vac else X.tmin(qd('ML'), qd('MR'))
        need(X.tabs(ql if vac else ql - qr) / q0)
        if not vac:
            need(X.tabs(Tl - Tr) / mn('T0'))
    ev = order.ev2s(c.evs(2, positive=[x + s for x in POS for s in ('L', 'R')] + ['%s.%s' % (M, x) for M in ('ML', 'MR') for x in
                                                                                 ('ρ0', 'b02', 'cα2', 'T0', 'cv')]), L=8192)
    import numpy as np
    n = sum(int(e.b(want).sum()) for e in ev)
    c.feq(tg, ite(b_(got), ONE, ZERO), ite(want, ONE, ZERO), ev, w,
          'iteration stops at another criterion than traction and velocity (and heat) matching across the interface', when=near)
    if n >= 4:
        # among the converged ones
        c.feq(tg + ', accepted', ite(b_(got), ONE, ZERO), ONE, ev, w, 'a converged pair of states is iterated further', when=band(near, want))


def iterate(c, P_, vac, k, bad, tg):
    cf = Cfg(P_)
    V = cf.V
    w = floc(P_, 'left_star_state')
    it = c.drv(P_)
    rel = bool(gconst(P_, 'RIEMANN_RELAXATION'))
    ML, MR = mpar(it, 0, name='ML'), mpar(it, -1 if vac else 0, name='MR')
    depth = {}
    log = []

    def first(self, x):
        return c18.val(self, x)[0]

    def stage(nm, idx):
        P_.one(nm)
    for nm in ('check_star_convergence', 'ode_stepper_analytic', 'star_stepper'):
        P_.one(nm)

    def chkc(self, F, a):
        log.append((depth.get(first(self, a[0]), 0), dg(self, *a)))
        return depth.get(first(self, a[0]), 0) >= k

    def dg(self, *a):
        return X.uf('all', 0, sum((c18.val(self, x) if not isinstance(x, bool) else (int(x),) for x in a), ()))

    def ode(self, F, a):
        d = dg(self, *a)
        depth[X.uf('ode', 0, (d,))] = depth.get(first(self, a[0]), 0)
        put(self, a[0], [X.uf('ode', i, (d,)) for i in range(V)])

    def star(self, F, a):
        d = dg(self, *a)
        depth[X.uf('starL', 0, (d,))] = depth.get(first(self, a[0]), 0) + 1
        put(self, a[0], [X.uf('starL', i, (d,)) for i in range(V)])
        put(self, a[1], [X.uf('starR', i, (d,)) for i in range(V)])
    it.opaque['check_star_convergence'], it.opaque['ode_stepper_analytic'], it.opaque['star_stepper'] = chkc, ode, star
    it.isnan = lambda x: TRUE if bad else FALSE
    nv = [X.C(drive.IP.Fraction(3, 5)) if hasattr(drive.IP, 'Fraction') else ONE * 3 / 5, ONE * 4 / 5]
    n1 = it.vec('n', 2, init=nv)
    QL, QR = it.vec('QL', V), it.vec('QR', V)
    got = it.out(it.mx(it.run('left_star_state', QL, QR, ML, MR, S('dt'), n1)))
    aux = c.drv(P_)
    M = aux.out(aux.run('rotation_matrix', aux.vec('n', 2, init=nv)))

    def rotate(q, M):
        o = list(q)
        R = lambda x: [sum3([M[3 * i + j] * x[j] for j in range(3)]) for i in range(3)]
        o[2:5] = R(q[2:5])
        A = [[sum3([M[3 * i + a] * q[5 + 3 * a + b] * M[3 * j + b] for a in range(3) for b in range(3)]) for j in range(3)] for i in range(3)]
        o[5:14] = [A[i][j] for i in range(3) for j in range(3)]
        return o
    l0, r0 = [rd('QL', i) for i in range(V)], [rd('QR', i) for i in range(V)]
    l, r = rotate(l0, M), rotate(r0, M)
    kl, kr, dt = mpkey(it, ML), mpkey(it, MR), S('dt')
    d = lambda *a: X.uf('all', 0, sum((tuple(x) for x in a), ()))
    seq = [d(l, r, (kl, kr))]
    for _ in range(min(k, 10)):
        if rel:
            h = d(l, (dt / 2, kl))
            l = [X.uf('ode', i, (h,)) for i in range(V)]
            if not vac:
                h = d(r, (dt / 2, kr))
                r = [X.uf('ode', i, (h,)) for i in range(V)]
        h = d(l, r, (kl, kr))
        l, r = [X.uf('starL', i, (h,)) for i in range(V)], [X.uf('starR', i, (h,)) for i in range(V)]
        seq.append(d(l, r, (kl, kr)))
    MT = [M[3 * j + i] for i in range(3) for j in range(3)]
    want = l0 if bad else rotate(l, MT)
    ev = c.evs(1, L=32)
    c.eqs(tg, got, want, ev, w, 'the star state is not the rotated-back result of the iteration (or, when that fails, the original state)')
    if k < 10:
        c.true(tg + ': the iteration stops on the convergence of its states', bool(log), w, 'nothing judges whether the states have converged')
    for i, (dp, g) in enumerate(log):
        c.eq('%s: convergence check %d is on the states iterated' % (tg, i), g, seq[min(dp, len(seq) - 1)], ev, w,
             'convergence is not judged on the states iterated')
