from grid import *          # noqa
import c34 as bounds
import c18

RULE = ('value-numbering: one step is the stated composition of stages on the stated arguments; the half step moves every masked node by '
        'half the transport of its own reconstruction; each cell relaxes once on its own; the reaction integrator is the classical '
        'fourth-order scheme, refined only while it gives NaN; the implicit integrator is the collocation solution at the end of the step')
ASSUME = ['exact real arithmetic', 'pointwise physics is that decided by C04, C08, C28', 'stages are decided by their own properties']
PIPE = ('ode_launcher', 'weno_launcher', 'midstepper', 'fv_launcher', 'predictor')


def run(c):
    bounds.direct(c, c.prog(), ('ode_launcher', 'midstepper', 'split_stepper'))
    P_ = c.prog()
    cf = Cfg(P_)
    for nd in (1, 2):
        for q in ('split_stepper', 'ader_stepper'):
            for flag in (True, False):
                tg = '%s %dD%s' % (q.split('_')[0], nd, ', option set' if flag else '')
                c.attempt(tg, lambda: pipe(c, P_, cf, q, nd, flag, tg))
    c.staged('relaxation of all cells', lambda s, sy, op: cells(s, P_, cf, sy))
    for nd in (1, 2):
        c.staged('half step %dD' % nd, lambda s, sy, op, nd=nd: half(s, P_, cf, nd, sy, op))
    c.attempt('fourth-order step', lambda: rk(c, P_))
    c.attempt('implicit step', lambda: stiff(c, P_, cf))
    P2 = c.prog(MULTI=True)
    c.attempt('reaction step', lambda: react(c, P2))
    for o in ({}, {'THERMAL': True}):
        c.attempt('analytic step ' + cfgtag(o), lambda: analytic(c, c.prog(**o), cfgtag(o)))


def pipe(c, P_, cf, q, nd, flag, tg):
    V, N = cf.V, cf.N
    it = c.drv(P_)
    nX = [3, 2][:nd]
    ext = lambda k: 1 if nd == 0 else [nX[0] + 2 * k] if nd == 1 else [nX[0] + 2 * k, nX[1] + 2 * k]
    n = 1
    for x in nX:
        n *= x

    def size(k):
        r = 1
        for x in ext(k):
            r *= x
        return r
    val = c18.val

    def upd(nm, dst, args):
        v = it.mx(dst)
        dg = X.uf('all', 0, tuple(args))
        put(it, dst, [X.uf(nm, i, (dg,)) for i in range(v.rows * v.cols)])

    def ode(self, F, a):
        upd('ode', a[0], val(self, a[0]) + (a[1],) + val(self, a[2]))

    def weno(self, F, a):
        upd('weno', a[0], val(self, a[1]) + val(self, a[2]) + val(self, a[3]))

    def mid(self, F, a):
        upd('mid', a[0], sum((val(self, x) for x in a), ()))

    def fv(self, F, a):
        upd('fv', a[0], sum((val(self, x) for x in a), ()))

    def pred(self, F, a):
        upd('pred', a[0], sum((val(self, x) for x in a[1:]), ()))
    for nm, h in zip(PIPE, (ode, weno, mid, fv, pred)):
        P_.one(nm)
        it.opaque[nm] = h
    ev = c.evs(1, L=16)
    u, ub = it.vec('u', n * V), it.vec('ub', size(N) * V)
    mask = it.vec('mask', size(1), kind='b')
    MP = mpar(it, 0)
    dX = [S('dx'), S('dy')][:nd]
    dt = S('dt')
    it.run(q, u, ub, it.vec('nX', nd, kind='i', init=nX), dt, it.vec('dX', nd, init=dX), flag, psym('FLUX'), MP, mask)
    got = it.out(u)
    mk, nx, dX = mpkey(it, MP), tuple(nX), tuple(dX)
    mv = tuple(brd('mask', i) for i in range(size(1)))
    su = tuple(rd('u', i) for i in range(n * V))
    sb = tuple(rd('ub', i) for i in range(size(N) * V))

    def f(nm, k, a):
        dg = X.uf('all', 0, tuple(a))
        return tuple(X.uf(nm, i, (dg,)) for i in range(k))
    nw = size(1) * N ** nd * V
    if q == 'split_stepper':
        h = dt / 2
        su = f('ode', n * V, su + (h, mk))
        sb = f('ode', size(N) * V, sb + (h, mk))
        w = f('weno', nw, sb + nx + (mk,))
        if flag:
            w = f('mid', nw, w + (dt,) + dX + (mk,) + mv)
        su = f('fv', n * V, su + w + nx + (dt,) + dX + (0, 0, psym('FLUX'), mk) + mv)
        want = f('ode', n * V, su + (h, mk))
    else:
        w = f('weno', nw, sb + nx + (mk,))
        p = f('pred', nw * N, w + (dt,) + dX + (int(flag), 0, mk) + mv)
        want = f('fv', n * V, su + p + nx + (dt,) + dX + (1, 1, psym('FLUX'), mk) + mv)
    c.eqs(tg, got, list(want), ev, floc(P_, q), 'the step is not the stated composition of its stages')


def cells(sub, P_, cf, sy):
    V = cf.V
    nx = psym('nx') if sy else 2
    it = sub.drv(P_)

    def stage(nm):
        def h(self, F, a):
            put(self, a[0], [X.uf(nm, k, tuple(self.out(a[0])) + (lift(a[1]), mpkey(self, a[2]))) for k in range(V)])
        return h
    for nm in ('ode_stepper_analytic', 'ode_stepper_numerical'):
        P_.one(nm)
        it.opaque[nm] = stage(nm)
    u = it.vec('u', pmul(nx, V))
    MP = mpar(it, 0)
    it.run('ode_launcher', u, S('dt'), MP)
    ev = gevs(sub, [('nx', lambda o: (1, 6)), ('i', lambda o: (0, o['nx']))])
    for i in [psym('i')] if sy else range(nx):
        q = tuple(rd('u', padd(pmul(i, V), v)) for v in range(V))
        a = (S('dt'), mpkey(it, MP))
        q = tuple(X.uf('ode_stepper_analytic', k, q + a) for k in range(V))
        for v in range(V):
            sub.eq('relaxation of cell%s, %s' % ('' if sy else ' %d' % i, cf.names[v]), rdat(it, u, padd(pmul(i, V), v)),
                   X.uf('ode_stepper_numerical', v, q + a), ev, floc(P_, 'ode_launcher'),
                   'a cell is not advanced by its own relaxation and reaction over the given time')


def half(sub, P_, cf, nd, sy, op):
    V, N = cf.V, cf.N
    it = sub.drv(P_)
    if op:
        kernels(it, V, ('flux',))
    MP = mpar(it, 0)
    dX = [S('dx'), S('dy')][:nd]
    D = glob(it, 'DERVALS')
    ids = [(a,) for a in range(N)] if nd == 1 else [(a, b) for a in range(N) for b in range(N)]
    n1 = len(ids)
    for nx in [psym('nx')] if sy else sub.grids(2):
        w = it.vec('w', pmul(nx, n1 * V))
        mask = it.vec('mask', nx, kind='b')
        it.run('midstepper', w, S('dt'), it.vec('dX', nd, init=dX), MP, mask)
        ev = gevs(sub, [('nx', lambda o: (1, 6)), ('i', lambda o: (0, o['nx']))], positive=POS + ['dx', 'dy'])

        def flx(q, d):
            r = it.vec('fl', V, init=[ZERO] * V)
            it.run('flux', r, it.vec('fq', V, init=list(q)), d, MP)
            return it.out(r)
        for i in [psym('i')] if sy else range(nx):
            base = pmul(i, n1 * V)
            q = {a: [rd('w', padd(base, p * V + v)) for v in range(V)] for p, a in enumerate(ids)}
            fl = {(a, d): flx(q[a], d) for a in ids for d in range(nd)}
            for p, a in enumerate(ids):
                tot = [ZERO] * V
                for d in range(nd):
                    line = [a[:d] + (k,) + a[d + 1:] for k in range(N)]
                    dq = [sum3([D[a[d] * N + k] * q[b][v] for k, b in enumerate(line)]) for v in range(V)]
                    df = [sum3([D[a[d] * N + k] * fl[b, d][v] for k, b in enumerate(line)]) for v in range(V)]
                    b = bd(it, None, q[a], dq, d, MP)
                    tot = [t + (x + y) / dX[d] for t, x, y in zip(tot, df, b)]
                for v in range(V):
                    sub.eq('half step %dD, node %s, %s%s' % (nd, a, cf.names[v], '' if sy else ' cell %d' % i),
                           rdat(it, w, padd(base, p * V + v)), ite(brd('mask', i), q[a][v] - S('dt') / 2 * tot[v], q[a][v]), ev,
                           floc(P_, 'midstepper'), 'a masked node is not moved by half the transport of its cell, or another one is changed')


def rk(c, P_):
    w = floc(P_, 'runge_kutta_launcher')
    for steps in (1, 2, 4):
        for nans in range(0, 8):
            it = c.drv(P_)
            used = []
            ev = c.evs(1, L=32)

            def ref(n):
                y, h = S('y'), S('T') / n
                g = lambda x: X.uf('f', 0, (x,))
                for _ in range(n):
                    a = h * g(y)
                    b = h * g(y + a / 2)
                    d = h * g(y + b / 2)
                    e = h * g(y + d)
                    y = y + (a + 2 * b + 2 * d + e) / 6
                return y
            cnt = [0]

            def isnan(x):
                cnt[0] += 1
                return TRUE if cnt[0] <= nans else FALSE
            it.isnan = isnan
            fo = lambda it, a: X.uf('f', 0, (lift(a[0] if not isinstance(a[0], Loc) else it.cur(a[0])),))
            got = it.run('runge_kutta_launcher', fo, S('T'), S('y'), steps)
            n = steps
            k = 0
            while k < nans and n <= 64:
                n *= 2
                k += 1
            if n > 16:
                c.true('%d steps, %d refinements' % (steps, k), cnt[0] in (k, k + 1), w, 'refinement does not stop')
                continue
            c.eq('%d steps, %d refinements' % (steps, k), got, ref(n), ev, w, 'the integrator is not the classical fourth-order scheme')


def stiff(c, P_, cf):
    N = cf.N
    it = c.drv(P_)
    rootuf(it)
    fo = lambda it, a: X.uf('f', 0, (lift(a[0] if not isinstance(a[0], Loc) else it.cur(a[0])),))
    got = it.run('stiff_ode_solve', S('x0'), S('dt'), fo)
    ev = c.evs(1, L=32)
    nodes, w = gauss(N)
    x = S('x')
    psi = [lag(nodes, j, x) for j in range(N)]
    at = lambda e, z: subst(e, {x: z})
    y = [S('rooty%d' % i) for i in range(N)]
    res = []
    for i in range(N):
        # psi_i(1) psi_j(1) - int psi_i' psi_j
        r = ZERO
        for j in range(N):
            integ = sum3([w[k] * at(diff(psi[i], x), nodes[k]) * at(psi[j], nodes[k]) for k in range(N)])
            r = r + (at(psi[i], ONE) * at(psi[j], ONE) - integ) * y[j]
        res.append(r - S('x0') * at(psi[i], ZERO) - S('dt') * w[i] * X.uf('f', 0, (y[i],)))
    root = rootof(res, [S('x0')] * N)
    want = sum3([root[j] * at(psi[j], ONE) for j in range(N)])
    c.eq('implicit step', got, want, ev, floc(P_, 'stiff_ode_solve'),
         'the result is not the end value of the collocation solution of the given equation')


def react(c, P_):
    cf = Cfg(P_)
    V = cf.V
    iλ = cf.names.index('ρλ') if 'ρλ' in cf.names else int(gconst(P_, 'mV'))
    w = floc(P_, 'ode_stepper_numerical')
    for reac in (-1, 0, 1, 2):
        it = c.drv(P_)
        seen = []

        def rate(self, F, a):
            q = a[0] if isinstance(a[0], (View, EM)) else self.cur(a[0])
            return X.uf('rate', 0, tuple(self.out(self.mx(q))) + (mpkey(self, a[1]),))
        it.opaque['reaction_rate'] = rate

        def launch(self, F, a):
            fo = a[0]
            while isinstance(fo, Loc):
                fo = self.cur(fo)
            r = self.invoke(fo, [S('lam')])
            return X.uf('rk', 0, (lift(r), lift(a[1]), lift(a[2]), a[3] if isinstance(a[3], (int, Poly)) else a[3]))
        P_.one('runge_kutta_launcher')
        it.opaque['runge_kutta_launcher'] = launch
        MP = mpar(it, 0, REACTION=reac)
        q = it.vec('Q', V)
        it.run('ode_stepper_numerical', q, S('dt'), MP)
        got = it.out(q)
        ev = order.ev2s(c.evs(positive=POS + ['dt'], small=('rk',)), L=256)
        ρ, l0 = rd('Q', 0), rd('Q', iλ) / rd('Q', 0)
        qq = [rd('Q', i) if i != iλ else ρ * S('lam') for i in range(V)]
        r = X.uf('rk', 0, (-X.uf('rate', 0, tuple(qq) + (mpkey(it, MP),)), S('dt'), l0, int(gconst(P_, 'RK_STEPS'))))
        for i in range(V):
            want = rd('Q', i)
            if i == iλ and reac > -1:
                want = ite(X.rlt(ZERO, l0), ρ * X.tmax(ZERO, r), want)
            c.eq('reaction model %d, component %d' % (reac, i), got[i], want, ev, w,
                 'the mass fraction is not advanced by its reaction rate from its own value, or something else changes')


def analytic(c, P_, tag):
    cf = Cfg(P_)
    V = cf.V
    it = c.drv(P_)
    w = floc(P_, 'ode_stepper_analytic')

    def stage(nm):
        P_.one(nm)

        def h(self, F, a):
            put(self, a[0], [X.uf(nm, k, tuple(self.out(a[0])) + (lift(a[1]), mpkey(self, a[2]))) for k in range(V)])
        it.opaque[nm] = h
    visc, therm = bool(gconst(P_, 'VISCOUS')), bool(gconst(P_, 'THERMAL'))
    for nm in ('analyticSolver_distortion', 'analyticSolver_thermal'):
        stage(nm)
    MP = mpar(it, 0)
    l = Loc('δp')
    MP.f['δp'] = l
    it.base_mem[l] = it.st.mem[l] = it.vec('δp', 3, init=[S('MP.δp%d' % i) for i in range(3)])
    q = it.vec('Q', V)
    it.run('ode_stepper_analytic', q, S('dt'), MP)
    got = it.out(q)
    ev = c.evs()
    δ = it.out(it.mx(it.cur(MP.f['δp'])))
    s = [rd('Q', i) + (δ[i - 2] * S('dt') if 2 <= i < 5 else ZERO) for i in range(V)]
    for on, nm in ((visc, 'analyticSolver_distortion'), (therm, 'analyticSolver_thermal')):
        if on:
            s = [X.uf(nm, k, tuple(s) + (S('dt'), mpkey(it, MP))) for k in range(V)]
    c.eqs('analytic step' + tag, got, s, ev, w, 'body force, distortion and thermal relaxation are not applied once each over the given time')
