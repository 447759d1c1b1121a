from grid import *          # noqa
import c34 as bounds

RULE = ('value-numbering on a grid of symbolic size: after the cell-interior update every masked cell has gained exactly the quadrature of '
        'source minus non-conservative product over its own reconstruction, and every other cell is unchanged')
ASSUME = ['exact real arithmetic', 'pointwise physics is that decided by C04 and C08']


def run(c):
    bounds.direct(c, c.prog(), ('fv_launcher',))
    P_ = c.prog()
    cf = Cfg(P_)
    V, N = cf.V, cf.N
    for TIME in (True, False):
        for SRC in (True, False):
            tg = '%s%s' % ('space-time' if TIME else 'space', ', with sources' if SRC else ', without sources')
            nt = N if TIME else 1

            def one(sub, sy, op):
                it = sub.drv(P_)
                if op:
                    kernels(it, V, ('source',))
                MP = mpar(it, 0, solid=False, power=False, bingham=False)
                grids = [psym('nx')] if sy else sub.grids(2, 3)
                for nx in grids:
                    u = it.vec('u', pmul(nx, V))
                    rec = it.vec('rec', pmul(padd(nx, 2), nt * N * V))
                    mask = it.vec('mask', padd(nx, 2), kind='b')
                    it.run('centers1', u, rec, nx, S('dt'), S('dx'), SRC, TIME, MP, mask)
                    W, D = glob(it, 'WGHTS'), glob(it, 'DERVALS')
                    ev = gevs(sub, [('nx', lambda o: (1, 6)), ('i', lambda o: (0, o['nx']))], positive=POS)
                    for i in ([psym('i')] if sy else range(nx)):
                        m = brd('mask', padd(i, 1))
                        want = [rd('u', padd(pmul(i, V), v)) for v in range(V)]
                        for t in range(nt):
                            q = [[rd('rec', padd(pmul(padd(pmul(padd(i, 1), nt), t), N * V), s * V + v)) for v in range(V)] for s in range(N)]
                            wt = S('dt') * W[t] if TIME else S('dt')
                            for s in range(N):
                                dq = [sum3([D[s * N + k] * q[k][v] for k in range(N)]) for v in range(V)]
                                b = bd(it, None, q[s], dq, 0, MP)
                                f = srcv(it, q[s], MP) if SRC else [ZERO] * V
                                want = [w + ite(m, wt * W[s] * (f[v] - b[v] / S('dx')), ZERO) for v, w in enumerate(want)]
                        for v in range(V):
                            sub.eq('1D %s, %s%s' % (tg, cf.names[v], '' if sy else ' cell %s of %s' % (i, nx)),
                                   rdat(it, u, padd(pmul(i, V), v)), want[v], ev, floc(P_, 'centers1'),
                                   'a cell is not advanced by the quadrature of its own source and non-conservative product')
            c.staged('1D ' + tg, one)

            def two(sub, sy, op):
                it = sub.drv(P_)
                if op:
                    kernels(it, V, ('source',))
                MP = mpar(it, 0, solid=False, power=False, bingham=False)
                grids = [(psym('nx'), psym('ny'))] if sy else sub.grids((2, 3), (1, 2))
                for nx, ny in grids:
                    u = it.vec('u', pmul(pmul(nx, ny), V))
                    rec = it.vec('rec', pmul(pmul(padd(nx, 2), padd(ny, 2)), nt * N * N * V))
                    mask = it.vec('mask', pmul(padd(nx, 2), padd(ny, 2)), kind='b')
                    it.run('centers2', u, rec, nx, ny, S('dt'), S('dx'), S('dy'), SRC, TIME, MP, mask)
                    W, D = glob(it, 'WGHTS'), glob(it, 'DERVALS')
                    ev = gevs(sub, [('nx', lambda o: (1, 5)), ('ny', lambda o: (1, 5)), ('i', lambda o: (0, o['nx'])), ('j', lambda o: (0, o['ny']))],
                              positive=POS)
                    for i, j in ([(psym('i'), psym('j'))] if sy else [(a, b) for a in range(nx) for b in range(ny)]):
                        cell = padd(pmul(padd(i, 1), padd(ny, 2)), padd(j, 1))
                        m = brd('mask', cell)
                        cu = padd(pmul(i, ny), j)
                        want = [rd('u', padd(pmul(cu, V), v)) for v in range(V)]
                        for t in range(nt):
                            base = pmul(padd(pmul(cell, nt), t), N * N * V)
                            q = [[[rd('rec', padd(base, (a * N + b) * V + v)) for v in range(V)] for b in range(N)] for a in range(N)]
                            wt = S('dt') * W[t] if TIME else S('dt')
                            for a in range(N):
                                for b in range(N):
                                    dx = [sum3([D[a * N + k] * q[k][b][v] for k in range(N)]) for v in range(V)]
                                    dy = [sum3([D[b * N + k] * q[a][k][v] for k in range(N)]) for v in range(V)]
                                    bx = bd(it, None, q[a][b], dx, 0, MP)
                                    by = bd(it, None, q[a][b], dy, 1, MP)
                                    f = srcv(it, q[a][b], MP) if SRC else [ZERO] * V
                                    want = [w + ite(m, wt * W[a] * W[b] * (f[v] - bx[v] / S('dx') - by[v] / S('dy')), ZERO)
                                            for v, w in enumerate(want)]
                        for v in range(V):
                            sub.eq('2D %s, %s%s' % (tg, cf.names[v], '' if sy else ' cell %s,%s of %sx%s' % (i, j, nx, ny)),
                                   rdat(it, u, padd(pmul(cu, V), v)), want[v], ev, floc(P_, 'centers2'),
                                   'a cell is not advanced by the quadrature of its own source and non-conservative product')
            c.staged('2D ' + tg, two)
