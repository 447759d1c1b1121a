from grid import *          # noqa

RULE = ('value-numbering of the program constants: nodes and weights are the Gauss-Legendre rule on [0,1] (they satisfy its defining moment '
        'equations), the basis is the Lagrange basis of those nodes, and end values, derivative values, stencil, smoothness and space-time '
        'matrices are the integrals and values they stand for; no constant reads another one that is initialised later')
ASSUME = ['exact real arithmetic', 'up to four nodes (closed-form eigenvalues of the symmetric companion matrix)']


def run(c):
    for opts in ({}, {'N': 3}) if not c.thorough else ({}, {'N': 3}, {'N': 4}, {'N': 1}):
        try:
            P_ = c.prog(**opts)
        except FrontError:
            continue
        c.attempt('N=%s' % opts.get('N', 'default'), lambda: cover(c, P_))


def cover(c, P_):
    N = int(gconst(P_, 'N'))
    it = c.drv(P_)
    ev = c.evs()
    tg = 'N=%d' % N
    nodes, w = gauss(N)
    x = S('x')
    psi = [lag(nodes, j, x) for j in range(N)]
    at = lambda f, v: subst(f, {x: v})
    dpsi = [diff(f, x) for f in psi]
    dv = [[at(dpsi[j], nodes[i]) for j in range(N)] for i in range(N)]
    end = [[at(psi[j], e) for j in range(N)] for e in (ZERO, ONE)]

    def tab(name, want, what, where=None):
        c.attempt('%s %s' % (tg, name), lambda: c.eqs('%s %s' % (tg, name), glob(it, name), want, ev, where or ('constant ' + name), what))
    # the routines themselves (bound to Python) and the constants made from them
    for fn, want, what in (('scaled_nodes', nodes, 'not the Gauss-Legendre nodes'), ('scaled_weights', w, 'not the Gauss-Legendre weights')):
        c.attempt('%s %s' % (tg, fn), lambda: c.eqs('%s %s()' % (tg, fn), it.out(it.run(fn)), want, ev, floc(P_, fn), what))

    def moments():
        n_, w_ = it.out(it.run('scaled_nodes')), it.out(it.run('scaled_weights'))
        for k in range(2 * N):
            m = ZERO
            for a, b in zip(n_, w_):
                t = b
                for _ in range(k):
                    t = t * a
                m = m + t
            c.eq('%s moment %d' % (tg, k), m, ONE / (k + 1), ev, floc(P_, 'leggauss'), 'the rule does not integrate x^%d' % k)
    c.attempt(tg + ' moments', moments)
    if N < 2:
        return
    tab('NODES', nodes, 'not the Gauss-Legendre nodes')
    tab('WGHTS', w, 'not the Gauss-Legendre weights')
    tab('ENDVALS', end[0] + end[1], 'not the end values of the basis')
    tab('DERVALS', sum(dv, []), 'not the derivatives of the basis at the nodes')
    E = [[end[1][i] * end[1][j] for j in range(N)] for i in range(N)]
    K = [[w[i] * dv[i][j] for j in range(N)] for i in range(N)]
    tab('DG_END', sum(E, []), 'not the products of the basis at the right end')
    tab('DG_DER', sum(K, []), 'not the inner products of basis and derivative')
    tab('DG_MAT', [E[i][j] - K[j][i] for i in range(N) for j in range(N)], 'not the time coupling matrix')

    def consist():
        M, D = glob(it, 'DG_MAT'), glob(it, 'DERVALS')
        for i in range(N):
            c.eq('%s constant data solve the time coupling, row %d' % (tg, i), sum3(M[i * N:i * N + N]), glob(it, 'ENDVALS')[i], ev, 'constant DG_MAT')
            c.eq('%s derivative of a constant, row %d' % (tg, i), sum3(D[i * N:i * N + N]), ZERO, ev, 'constant DERVALS')
    c.attempt(tg + ' consistency', consist)
    # stencil matrices: integrals of the basis over the cells of each stencil
    F2, C2 = (N - 1) // 2, (N - 1) - (N - 1) // 2
    co = []
    for f in psi:
        cs, g, fact = [], f, 1
        for k in range(N):
            cs.append(at(g, ZERO) / fact)
            g = diff(g, x)
            fact *= k + 1
        co.append(cs)

    def integ(j, a):
        return sum3([co[j][k] * (ONE * ((a + 1) ** (k + 1) - a ** (k + 1))) / (k + 1) for k in range(N)])
    for nm, o in (('mL', -(N - 1)), ('mR', 0)) + ((('mCL', -C2), ('mCR', -F2)) if N > 2 else ()):
        tab(nm, [integ(j, i + o) for i in range(N) for j in range(N)], 'not the integrals of the basis over the stencil')
        inv = it.inverse([integ(j, i + o) for i in range(N) for j in range(N)], N)
        tab(nm + 'inv', inv if isinstance(inv, list) else it.out(inv), 'not the inverse of the stencil matrix')
    sg = [ZERO] * (N * N)
    for i in range(N):
        for j in range(N):
            a, b = psi[i], psi[j]
            for _ in range(1, N):
                a, b = diff(a, x), diff(b, x)
                # products of degree < 2N are integrated exactly by the rule
                sg[i * N + j] = sg[i * N + j] + sum3([w[k] * at(a, nodes[k]) * at(b, nodes[k]) for k in range(N)])
    tab('SIG', sg, 'not the smoothness matrix')

    # initialisation order: within a file in textual order, across files unspecified
    def order_():
        dyn = {}
        for g in P_.globals.values():
            if 'i' in g and not g.get('constinit') and not folded(P_, g):
                dyn[g['n']] = g
        for n, g in sorted(dyn.items()):
            used, seen = set(), set()
            reach(P_, g['i'], used, seen)
            late = [h['n'] for h in (dyn[u] for u in used if u in dyn and u != n)
                    if os.path.normpath(h['file']) != os.path.normpath(g['file']) or h['l'] >= g['l']]
            c.true('%s %s is initialised from what is initialised before it' % (tg, n), not late,
                   '%s:%s' % (relp(g['file']), g['l']), 'uses %s, which may not be initialised yet' % ', '.join(sorted(late)))
    c.attempt(tg + ' initialisation order', order_)


def folded(P_, g):
    """Scalar made of literals and library mathematics: the compiler folds it."""
    if not g.get('internal'):
        return False
    used, seen = set(), set()
    reach(P_, g['i'], used, seen)
    return all(h.get('constinit') for h in P_.globals.values() if h['n'] in used) and not any(P_.bysig.get(s) for s in seen) \
        and g['tt'][g['t']]['c'] == 'b'


def reach(P_, x, used, seen):
    """Globals read by an expression or by what it calls."""
    if isinstance(x, dict):
        if 'g' in x and 'n' in x:
            used.add(x['n'])
        sig = x.get('sig')
        if isinstance(sig, str) and sig not in seen:
            seen.add(sig)
            for F in P_.bysig.get(sig, []):
                reach(P_, F.body, used, seen)
        for v in x.values():
            reach(P_, v, used, seen)
    elif isinstance(x, (list, tuple)):
        for v in x:
            reach(P_, v, used, seen)
