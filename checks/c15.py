from grid import *          # noqa
import c34 as bounds

RULE = ('value-numbering on a grid of symbolic size: the predictor residual is the space-time weak form of the equations with the '
        'reconstruction as initial value, and every masked cell ends up either with an accepted fixed point of that system or with the '
        'root found by the equation solver; other cells are untouched')
ASSUME = ['exact real arithmetic', 'the equation solver is an uninterpreted function of residual and guess',
          'the fixed-point iteration is analysed with the iteration limit set to 2']


def system(it, cf, N, nd):
    """Node lists, weights and coupling of the space-time basis."""
    V = cf.V
    W, D = glob(it, 'WGHTS'), glob(it, 'DERVALS')
    nodes, w = gauss(N)
    # <psi_i, psi_j'> and psi_i(1) psi_j(1), from the nodes alone
    x = S('x')
    psi = [lag(nodes, j, x) for j in range(N)]
    dpsi = [diff(p, x) for p in psi]
    at = lambda f, v: subst(f, {x: v})
    K = [[w[i] * at(dpsi[j], nodes[i]) for j in range(N)] for i in range(N)]
    M = [[at(psi[i], ONE) * at(psi[j], ONE) - K[j][i] for j in range(N)] for i in range(N)]
    e0 = [at(psi[i], ZERO) for i in range(N)]
    dv = [[at(dpsi[j], nodes[i]) for j in range(N)] for i in range(N)]
    return w, K, M, e0, dv


def idx(N, nd):
    r = [()]
    for _ in range(nd):
        r = [a + (b,) for a in r for b in range(N)]
    return r


def rhs_spec(it, cf, N, nd, q, ww, dt, dX, MP, sysd):
    """dt*(weighted source - non-conservative product - flux divergence) + initial value."""
    V = cf.V
    w, K, M, e0, dv = sysd
    ids = idx(N, nd)                       # spatial nodes
    n1 = len(ids)
    pos = {a: k for k, a in enumerate(ids)}
    out = []
    fl = {}

    def flux_at(t, a, d):
        if (t, a, d) not in fl:
            f = it.vec('sf', V, init=[ZERO] * V)
            it.run('flux', f, it.vec('sq', V, init=list(q[t * n1 + pos[a]])), d, MP)
            fl[t, a, d] = it.out(f)
        return fl[t, a, d]
    for t in range(N):
        for a in ids:
            k = t * n1 + pos[a]
            wt = w[t]
            for i in a:
                wt = wt * w[i]
            s = srcv(it, q[k], MP)
            for d in range(nd):
                line = [a[:d] + (j,) + a[d + 1:] for j in range(N)]
                dq = [sum3([dv[a[d]][j] * q[t * n1 + pos[b]][v] for j, b in enumerate(line)]) / dX[d] for v in range(V)]
                b_ = bd(it, None, q[k], dq, d, MP)
                s = [x - y for x, y in zip(s, b_)]
            r = [wt * x for x in s]
            for d in range(nd):
                wo = w[t]
                for e, i in enumerate(a):
                    if e != d:
                        wo = wo * w[i]
                line = [a[:d] + (j,) + a[d + 1:] for j in range(N)]
                for j, b in enumerate(line):
                    f = flux_at(t, b, d)
                    r = [x - wo * K[a[d]][j] * y / dX[d] for x, y in zip(r, f)]
            out.append([dt * x + y for x, y in zip(r, ww[k])])
    return out


def mass(N, nd, V, q, sysd):
    w, K, M, e0, dv = sysd
    ids = idx(N, nd)
    n1 = len(ids)
    out = []
    for t in range(N):
        for p, a in enumerate(ids):
            wt = ONE
            for i in a:
                wt = wt * w[i]
            out.append([wt * sum3([M[t][k] * q[k * n1 + p][v] for k in range(N)]) for v in range(V)])
    return out


def matop(it, N, nd, sysd):
    """Kronecker matrix of the time coupling and the spatial weights."""
    w, K, M, e0, dv = sysd
    ids = idx(N, nd)
    n1 = len(ids)
    n = N * n1
    A = [ZERO] * (n * n)
    for t in range(N):
        for k in range(N):
            for p, a in enumerate(ids):
                wt = ONE
                for i in a:
                    wt = wt * w[i]
                A[(t * n1 + p) * n + k * n1 + p] = M[t][k] * wt
    return A, n


def icond(N, nd, V, wq, sysd):
    w, K, M, e0, dv = sysd
    ids = idx(N, nd)
    out = []
    for t in range(N):
        for p, a in enumerate(ids):
            wt = e0[t]
            for i in a:
                wt = wt * w[i]
            out.append([wt * wq[p][v] for v in range(V)])
    return out


def flat(x):
    return [z for y in x for z in y]


def run(c):
    bounds.direct(c, c.prog(), ('predictor',))
    for opts, tag in (({}, ''),) + ((({'N': 3}, '[N=3] '),) if c.thorough else ()):
        P_ = c.prog(**opts)
        cf = Cfg(P_)
        V, N = cf.V, cf.N
        for nd in (1, 2):
            cover(c, P_, cf, V, N, nd, '%s%dD' % (tag, nd))


def cover(c, P_, cf, V, N, nd, tag):
    n1 = N ** nd
    KS = ('flux', 'source')
    dX = [S('dx'), S('dy')][:nd]

    def resid(sub, sy, op):
        it = sub.drv(P_)
        if op:
            kernels(it, V, KS)
        MP = mpar(it, 0, solid=False, power=False, bingham=False)
        ev = sub.evs(positive=POS + ['dx', 'dy'])
        sysd = system(it, cf, N, nd)
        if not op:
            # the real kernels: one time level of one node pair is enough
            pass
        q = it.mat('q', N * n1, V)
        ww = it.mat('Ww', N * n1, V)
        qv, wv = rows(it.out(q), V), rows(it.out(ww), V)
        fn = 'rhs%d' % nd
        r = rows(it.out(it.run(fn, q, ww, S('dt'), *dX, MP)), V)
        want = rhs_spec(it, cf, N, nd, qv, wv, S('dt'), dX, MP, sysd)
        for k in range(N * n1):
            for v in range(V):
                sub.eq('%s weak form, node %d, %s' % (tag, k, cf.names[v]), r[k][v], want[k][v], ev, floc(P_, fn),
                       'the right-hand side is not the weighted source minus transport and flux divergence')
        fo = 'obj%d' % nd
        o = rows(it.out(it.run(fo, it.vec('q', N * n1 * V), ww, S('dt'), *dX, MP)), V)
        mq = mass(N, nd, V, qv, sysd)
        for k in range(N * n1):
            for v in range(V):
                sub.eq('%s residual, node %d, %s' % (tag, k, cf.names[v]), o[k][v], want[k][v] - mq[k][v], ev, floc(P_, fo),
                       'the residual is not the weak form of the equations')
    c.staged(tag + ' weak form', resid)

    def pred(sub, sy, op, STIFF, IG):
        for nc in ([psym('nx')] if sy else sub.grids(1, 2)):
            it = sub.drv(P_)
            it.gsym['DG_IT'] = 2
            kernels(it, V, KS)
            rootuf(it)
            MP = mpar(it, 0, solid=False, power=False, bingham=False)
            sysd = system(it, cf, N, nd)
            fn = 'predictor'
            qh = it.vec('qh', pmul(nc, N * n1 * V))
            wh = it.vec('wh', pmul(nc, n1 * V))
            mask = it.vec('mask', nc, kind='b')
            it.run(fn, qh, wh, S('dt'), it.vec('dX', nd, init=list(dX)), STIFF, IG, MP, mask)
            ev = gevs(sub, [('nx', lambda o: (1, 6)), ('i', lambda o: (0, o['nx']))], positive=POS + ['dx', 'dy', 'dt'], n=1, L=192,
                      small=('dt',))
            ev = order.ev2s(ev, L=192)
            w = floc(P_, 'predictor%d' % nd)
            for i in ([psym('i')] if sy else range(nc)):
                wq = [[rd('wh', padd(pmul(i, n1 * V), p * V + v)) for v in range(V)] for p in range(n1)]
                ww = icond(N, nd, V, wq, sysd)
                g = [wq[p] for t in range(N) for p in range(n1)]
                y = rows([S('rooty%d' % k) for k in range(N * n1 * V)], V)
                res = rhs_spec(it, cf, N, nd, y, ww, S('dt'), dX, MP, sysd)
                mq = mass(N, nd, V, y, sysd)
                root = rootof([a - b for r1, r2 in zip(res, mq) for a, b in zip(r1, r2)], flat(g))
                if STIFF:
                    want = root
                else:
                    A, n = matop(it, N, nd, sysd)
                    want = list(root)
                    its, q0 = [], g
                    for _ in range(2):
                        r = rhs_spec(it, cf, N, nd, q0, ww, S('dt'), dX, MP, sysd)
                        ms = X.mk('msolve', n, V, tuple(A), tuple(flat(r)))
                        q1 = rows([X.el(ms, k) for k in range(n * V)], V)
                        far = FALSE
                        for a, b in zip(flat(q1), flat(q0)):
                            far = bor(far, X.rlt(lift(gconst(P_, 'DG_TOL')) * (ONE + X.tabs(b)), X.tabs(a - b)))
                        its.append((far, flat(q1)))
                        q0 = q1
                    for far, q1 in reversed(its):
                        nan = FALSE
                        for a in q1:
                            nan = bor(nan, X.buf_('isnan', (a,)))
                        want = [ite(far, a, ite(nan, b, d)) for a, b, d in zip(want, root, q1)]
                m = brd('mask', i)
                off = pmul(i, N * n1 * V)
                for k in range(N * n1 * V):
                    old = rd('qh', padd(off, k))
                    sub.eq('%s predictor%s%s, node %d, %s%s' % (tag, ' implicit' if STIFF else '', ' stiff guess' if IG else '', k // V,
                                                                cf.names[k % V], '' if sy else ' cell %s of %s' % (i, nc)),
                           rdat(it, qh, padd(off, k)), ite(m, want[k], old), ev, w,
                           'a masked cell does not hold an accepted solution of its own predictor equations, or another cell is changed')
    for STIFF in (True, False):
        for IG in ((False, True) if STIFF else (False,)):
            c.staged('%s predictor%s%s' % (tag, ' implicit' if STIFF else '', ' stiff guess' if IG else ''),
                     lambda sub, sy, op, STIFF=STIFF, IG=IG: pred(sub, sy, op, STIFF, IG))
