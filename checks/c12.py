from grid import *          # noqa
import c34 as bounds

RULE = ('value-numbering on a grid of symbolic size: the extended grid holds the interior unchanged, and every ghost cell is the image of '
        'the cell its boundary type prescribes (edge cell, opposite side, or mirror cell with the reflected velocity and distortion), '
        'corners included')
ASSUME = ['exact real arithmetic', 'at least as many cells as ghost layers in every direction',
          'singular vectors are uninterpreted functions of the matrix']
BT = {'transmissive': 0, 'periodic': 1, 'slip': 2, 'stick': 3, 'moving': 4, 'symmetric': 5}


def image(it, cf, kind, q, d, destress):
    """State of a ghost cell whose source cell holds q."""
    q = list(q)
    if kind in ('transmissive', 'periodic'):
        return q
    o = list(q)
    if kind in ('slip', 'symmetric'):
        o[2 + d] = -q[2 + d]
    else:
        for k in range(3):
            o[2 + k] = -q[2 + k]
    if kind == 'moving':
        o[2] = o[2] + q[0] * 2
        o[1] = q[1] + (o[2] * o[2] - q[2] * q[2]) / (q[0] * 2)
    if kind == 'symmetric':
        for i in range(3):
            for j in range(3):
                if (i == d) != (j == d):
                    o[5 + 3 * i + j] = -q[5 + 3 * i + j]
    elif destress:
        A = q[5:14]
        m = it.mx(it.mat('A', 3, 3, init=list(A)))
        U = it.out(it.mfn('svd.U', m, 3, 3))
        W = it.out(it.mfn('svd.V', m, 3, 3))
        a, b, c_, e, f, g, h, i, j = A
        det = a * (f * j - g * i) - b * (e * j - g * h) + c_ * (e * i - f * h)
        r = det ** (ONE / 3)
        for i in range(3):
            for j in range(3):
                o[5 + 3 * i + j] = r * 2 * sum3([U[3 * i + k] * W[3 * j + k] for k in range(3)]) - A[3 * i + j]
    return o


def source_index(kind, side, a, n, N):
    """Interior index a ghost cell at distance a from the outer edge is an image of."""
    if kind == 'transmissive':
        return 0 if side == 0 else padd(n, -1)
    if kind == 'periodic':
        return padd(n, a - N) if side == 0 else a
    return N - 1 - a if side == 0 else padd(n, -1 - a)


def run(c):
    bounds.direct(c, c.prog(), ('boundaries',))
    cover(c, {}, '')
    cover(c, ALT, '[ALT] ')


def cover(c, opts, tag):
    P_ = c.prog(**opts)
    cf = Cfg(P_)
    V, N = cf.V, cf.N
    DES = bool(gconst(P_, 'DESTRESS'))
    kinds = list(BT)
    w = floc(P_, 'boundaries')
    msg = 'a ghost cell is not the image its boundary type prescribes'
    for n_, kl in enumerate(kinds):
        kr = kinds[(n_ + 1) % 6]

        def one(sub, sy, op):
            it = sub.drv(P_)
            for nx in ([psym('nx')] if sy else sub.grids(2, 3)):
                u = it.vec('u', pmul(nx, V))
                ub = it.vec('ub', pmul(padd(nx, 2 * N), V))
                nX = it.vec('nX', 1, kind='i', init=[nx])
                bt = it.vec('bt', 2, kind='i', init=[BT[kl], BT[kr]])
                it.run('boundaries', u, ub, nX, bt)
                ev = gevs(sub, [('nx', lambda o: (N, 7)), ('i', lambda o: (0, o['nx']))], positive=POS)
                src = lambda i: [rd('u', padd(pmul(i, V), v)) for v in range(V)]
                got = lambda i, v: rdat(it, ub, padd(pmul(i, V), v))
                tg = '' if sy else ' (%s cells)' % nx
                for i in ([psym('i')] if sy else range(nx)):
                    for v in range(V):
                        sub.eq(tag + '1D %s/%s interior%s %s' % (kl, kr, tg if sy else tg + str(i), cf.names[v]), got(padd(i, N), v), src(i)[v], ev, w,
                               'the interior of the extended grid is not the grid')
                for side, k in ((0, kl), (1, kr)):
                    for a in range(N):
                        o = image(it, cf, k, src(source_index(k, side, a, nx, N)), 0, DES)
                        for v in range(V):
                            sub.eq(tag + '1D %s at side %d, ghost %d%s, %s' % (k, side, a, tg, cf.names[v]),
                                   got(a if side == 0 else padd(nx, N + a), v), o[v], ev, w, msg)
                sub.eqs(tag + '1D %s/%s: grid left alone%s' % (kl, kr, tg), [rdat(it, u, v) for v in range(V)], src(0), ev, w,
                        'applying boundary conditions changes the grid')
        c.staged(tag + '1D %s/%s' % (kl, kr), one)
        if opts and not c.thorough:
            continue

        def two(sub, sy, op):
            it = sub.drv(P_)
            ks = [kl, kr, kinds[(n_ + 2) % 6], kinds[(n_ + 3) % 6]]
            for nx, ny in ([(psym('nx'), psym('ny'))] if sy else sub.grids((2, 3), (3, 2))):
                NY = padd(ny, 2 * N)
                u = it.vec('u', pmul(pmul(nx, ny), V))
                ub = it.vec('ub', pmul(pmul(padd(nx, 2 * N), NY), V))
                nX = it.vec('nX', 2, kind='i', init=[nx, ny])
                bt = it.vec('bt', 4, kind='i', init=[BT[k] for k in ks])
                it.run('boundaries', u, ub, nX, bt)
                ev = gevs(sub, [('nx', lambda o: (N, 6)), ('ny', lambda o: (N, 6)), ('i', lambda o: (0, o['nx'])), ('j', lambda o: (0, o['ny']))],
                          positive=POS)
                got = lambda I, J, v: rdat(it, ub, padd(pmul(padd(pmul(I, NY), J), V), v))

                def xrow(where, j):
                    """where: interior index or (side, a)."""
                    if isinstance(where, tuple):
                        side, a = where
                        return image(it, cf, ks[side], xrow(source_index(ks[side], side, a, nx, N), j), 0, DES)
                    return [rd('u', padd(pmul(padd(pmul(where, ny), j), V), v)) for v in range(V)]
                xs = [('i', psym('i'))] if sy else [('%d' % i, i) for i in range(nx)]
                xs += [('ghost %d/%d' % (s, a), (s, a)) for s in (0, 1) for a in range(N)]
                ys = [('j', psym('j'))] if sy else [('%d' % j, j) for j in range(ny)]
                ys += [('ghost %d/%d' % (s, a), (s, a)) for s in (0, 1) for a in range(N)]
                idx = lambda wh, n: padd(wh, N) if not isinstance(wh, tuple) else (wh[1] if wh[0] == 0 else padd(n, N + wh[1]))
                if not sub.thorough and not sub.given:
                    xs = xs if sy else xs[:2] + xs[-1:]
                    ys = ys if sy else ys[:2] + ys[-1:]
                for xn, x in xs:
                    for yn, y in ys:
                        if isinstance(y, tuple):
                            o = image(it, cf, ks[2 + y[0]], xrow(x, source_index(ks[2 + y[0]], y[0], y[1], ny, N)), 1, DES)
                        else:
                            o = xrow(x, y)
                        for v in range(V):
                            sub.eq(tag + '2D %s: cell (%s, %s)%s, %s' % ('/'.join(ks), xn, yn, '' if sy else ' of %sx%s' % (nx, ny), cf.names[v]),
                                   got(idx(x, nx), idx(y, ny), v), o[v], ev, w, msg)
        c.staged(tag + '2D %s' % kl, two)
