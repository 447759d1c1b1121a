from grid import *          # noqa
import c34 as bounds

RULE = ('value-numbering: the time step equals the Courant number divided by the largest sum of directional speed over cell size among the '
        'active cells of all non-vacuum materials, reduced for the first steps, and never reaches past the end time')
ASSUME = ['exact real arithmetic', 'grids of up to 3 cells and 3 materials (the loops treat cells and materials uniformly)']


def run(c):
    bounds.direct(c, c.prog(), ('timestep',))
    P_ = c.prog()
    cf = Cfg(P_)
    V = cf.V
    w = floc(P_, 'timestep')
    for nd in (1, 2):
        for nc, mats in ((1, (0,)), (3, (0, 0)), (2, (0, -1, 4)), (2, (-1, 0))):
            for count in (0, 5, 6, 40):
                tg = '%dD, %d cells, materials %s, step %d' % (nd, nc, mats, count)

                def go():
                    it = c.drv(P_)
                    kernels(it, V, ('max_abs_eigs',))
                    gs = [it.vec('g%d' % m, nc * V) for m in range(len(mats))]
                    ms = [it.vec('m%d' % m, nc, kind='b') for m in range(len(mats))]
                    mp = [mpar(it, e, name='MP%d' % m) for m, e in enumerate(mats)]
                    dX = [S('dx'), S('dy')][:nd]
                    got = it.run('timestep', svec(it, gs), svec(it, ms), it.vec('dX', nd, arr=True, init=dX), S('CFL'), S('t'), S('tf'), count,
                                 svec(it, mp), len(mats))
                    ev = c.evs(positive=POS + ['dx', 'dy', 'CFL', 'speed0', 'speed1', 'tf'], small=('CFL',))
                    ev = order.ev2s(ev, L=512)
                    mx = ZERO
                    for m, e in enumerate(mats):
                        if e < 0:
                            continue
                        for i in range(nc):
                            q = [rd('g%d' % m, i * V + v) for v in range(V)]
                            s = ZERO
                            for d in range(nd):
                                s = s + X.uf('speed%d' % d, 0, (mpkey(it, mp[m]),) + tuple(q)) / dX[d]
                            mx = ite(brd('m%d' % m, i), X.tmax(mx, s), mx)
                    dt = S('CFL') / mx
                    if count <= 5:
                        dt = dt / 5
                    want = ite(X.rlt(S('tf'), S('t') + dt), S('tf') - S('t'), dt)
                    c.eq(tg, got, want, ev, w, 'the time step is not the Courant limit of all active cells, clipped to the end time')
                c.attempt(tg, go)
