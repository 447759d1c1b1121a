from phys import *          # noqa

RULE = ('value-numbering with a generic rotation: flux, source and non-conservative product of a rotated state are the rotated flux, source '
        'and product; the interface frame is orthonormal with the normal as first axis, and rotating back restores the state')
ASSUME = ['exact real arithmetic', 'level sets and mass fraction are scalars under rotation']


def quat():
    """Generic rotation matrix (every rotation but a null set)."""
    a, b, d, e = S('q0'), S('q1'), S('q2'), S('q3')
    n = a * a + b * b + d * d + e * e
    two = lambda x: x + x
    R = [[a * a + b * b - d * d - e * e, two(b * d - a * e), two(b * e + a * d)],
         [two(b * d + a * e), a * a - b * b + d * d - e * e, two(d * e - a * b)],
         [two(b * e - a * d), two(d * e + a * b), a * a - b * b - d * d + e * e]]
    return [[x / n for x in r] for r in R]


def rotate(cf, q, R):
    q = list(q)
    out = list(q)
    out[2:5] = matvec(R, q[2:5])
    if cf.VISCOUS:
        A = rows(q[5:14], 3)
        B = [[sum3([R[i][k] * A[k][l] * R[j][l] for k in range(3) for l in range(3)]) for j in range(3)] for i in range(3)]
        out[5:14] = sum(B, [])
    if cf.THERMAL:
        out[14:17] = matvec(R, q[14:17])
    return out


def run(c):
    for opts in configs(c):
        P_ = c.prog(**opts)
        cf = Cfg(P_)
        tag = cfgtag(opts)
        ev = c.evs(positive=POS)
        R = quat()
        V = cf.V
        names = cf.names

        def vecs(it, MP, q, f, d=None):
            Q = it.vec('Q_%s_%s' % (f, d), V, init=list(q))
            F = it.vec('F_%s_%s' % (f, d), V, init=[ZERO] * V)
            if f == 'flux':
                it.run('flux', F, Q, d, MP)
            elif f == 'source':
                it.run('source', F, Q, MP)
            return it.out(F)

        mats = [('gas', dict(eos=0, solid=False, power=False, bingham=False))]
        if not opts.get('MULTI'):
            mats += [('power-law fluid', dict(eos=0, solid=False, power=True, bingham=False)),
                     ('plastic solid', dict(eos=1, solid=True, power=True, bingham=False))]
        for mn, kw in mats:
            nm = '%s %s' % (tag, mn)

            def go():
                it = c.drv(P_)
                MP = mpar(it, **kw)
                q = [S(n) for n in names]
                qr = rotate(cf, q, R)
                Fd = [vecs(it, MP, q, 'flux', d) for d in range(3)]
                for k in range(3):
                    got = vecs(it, MP, qr, 'flux', k)
                    want = rotate(cf, [sum3([R[k][d] * Fd[d][i] for d in range(3)]) for i in range(V)], R)
                    for i in range(V):
                        c.eq('%s: flux in rotated direction %d, %s' % (nm, k, names[i]), got[i], want[i], ev, floc(P_, 'flux'),
                             'the flux of a rotated state is not the rotated flux')
            c.attempt(nm + ': flux', go)

            def src():
                it = c.drv(P_)
                MP = mpar(it, **kw)
                q = [S(n) for n in names]
                qr = rotate(cf, q, R)
                MP2 = mpar(it, **kw)
                δ = [S('MP.δp%d' % i) for i in range(3)]
                for M, x in ((MP, δ), (MP2, matvec(R, δ))):
                    dv = it.vec('δp', 3, init=x)
                    l = Loc('δp')
                    M.f['δp'] = l
                    it.base_mem[l] = dv
                    it.st.mem[l] = dv
                s = vecs(it, MP, q, 'source')
                got = vecs(it, MP2, qr, 'source')
                want = rotate(cf, s, R)
                for i in range(V):
                    c.eq('%s: source, %s' % (nm, names[i]), got[i], want[i], ev, floc(P_, 'source'),
                         'the source of a rotated state is not the rotated source')
            c.attempt(nm + ': source', src)

        def prod():
            it = c.drv(P_)
            MP = mpar(it)
            q = [S(n) for n in names]
            g = [[S('g%d_%d' % (d, i)) for i in range(V)] for d in range(3)]

            def total(q, g):
                tot = [ZERO] * V
                for d in range(3):
                    r = it.vec('r', V, init=[ZERO] * V)
                    it.run('Bdot', r, it.vec('Q', V, init=list(q)), it.vec('x', V, init=list(g[d])), d, MP)
                    tot = [a + b for a, b in zip(tot, it.out(r))]
                return tot
            gr = [[sum3([R[k][d] * rotate(cf, g[d], R)[i] for d in range(3)]) for i in range(V)] for k in range(3)]
            want = rotate(cf, total(q, g), R)
            got = total(rotate(cf, q, R), gr)
            for i in range(V):
                c.eq('%s: non-conservative product, %s' % (tag, names[i]), got[i], want[i], ev, floc(P_, 'Bdot'),
                     'the non-conservative product of a rotated state is not the rotated product')
        c.attempt(tag + ': product', prod)

        # interface frame
        for n in (1, 2, 3):
            nm = '%s: frame of a %d-dimensional normal' % (tag, n)

            def frame():
                it = c.drv(P_)
                if n == 1:
                    cands = [[ONE], [-ONE]]
                elif n == 2:
                    t = S('t')
                    cands = [[(ONE - t * t) / (ONE + t * t), (t + t) / (ONE + t * t)]]
                else:
                    s, t = S('s'), S('t')
                    m = ONE + s * s + t * t
                    cands = [[(s + s) / m, (t + t) / m, (s * s + t * t - ONE) / m]]
                for e in cands:
                    M = rows(it.out(it.run('rotation_matrix', it.vec('n', n, init=e))), 3)
                    e3 = e + [ZERO] * (3 - n)
                    for j in range(3):
                        c.eq('%s: first axis[%d]' % (nm, j), M[0][j], e3[j], ev, floc(P_, 'rotation_matrix'),
                             'the first axis of the interface frame is not the normal')
                    for i in range(3):
                        for j in range(3):
                            c.eq('%s: axes %d,%d' % (nm, i, j), sum3([M[i][k] * M[j][k] for k in range(3)]), ONE if i == j else ZERO, ev,
                                 floc(P_, 'rotation_matrix'), 'the axes of the interface frame are not orthonormal')
            c.attempt(nm, frame)

        def back():
            it = c.drv(P_)
            q = [S(n) for n in names]
            Q = it.vec('Q', V, init=q)
            Rm = it.mat('R', 3, 3, init=sum(R, []))
            it.run('rotate_tensors', Q, Rm)
            for i, (g, w) in enumerate(zip(it.out(Q), rotate(cf, q, R))):
                c.eq('%s: rotated state, %s' % (tag, names[i]), g, w, ev, floc(P_, 'rotate_tensors'))
            RT = it.mat('RT', 3, 3, init=[R[j][i] for i in range(3) for j in range(3)])
            it.run('rotate_tensors', Q, RT)
            for i, (g, w) in enumerate(zip(it.out(Q), q)):
                c.eq('%s: rotated back, %s' % (tag, names[i]), g, w, ev, floc(P_, 'rotate_tensors'))
        c.attempt(tag + ': rotate', back)
