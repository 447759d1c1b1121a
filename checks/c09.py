from grid import *          # noqa
import c34 as bounds

RULE = ('value-numbering on a grid of symbolic size: after the interface update every cell has lost, on each of its faces, exactly the '
        'interface flux of the traces of the two adjoining reconstructions (entering with opposite sign on the two sides) plus half the '
        'jump term, and nothing else; faces with an unmasked side contribute nothing')
ASSUME = ['exact real arithmetic', 'numerical fluxes and jump term are those decided by C11']
FLUX = {'RUSANOV': 0, 'ROE': 1, 'OSHER': 2}
DN = {0: 'D_RUS', 1: 'D_ROE', 2: 'D_OSH'}
KS = ('flux', 'D_RUS', 'D_ROE', 'D_OSH', 'Bint')
K2 = ('flux', 'max_abs_eigs', 'system_matrix')


def run(c):
    bounds.direct(c, c.prog(), ('fv_launcher',))
    P_ = c.prog()
    cf = Cfg(P_)
    V, N = cf.V, cf.N
    for TIME in (True, False):
        for fn, code in FLUX.items():
            tg = '%s %s' % (fn, 'space-time' if TIME else 'space')
            nt = N if TIME else 1
            if TIME and fn != 'ROE' and not c.thorough:
                pass

            def one(sub, sy, op):
                it = sub.drv(P_)
                kernels(it, V, KS if op else K2)
                MP = mpar(it, 0, solid=False, power=False, bingham=False)
                for nx in ([psym('nx')] if sy else sub.grids(1, 2)):
                    u = it.vec('u', pmul(nx, V))
                    rec = it.vec('rec', pmul(padd(nx, 2), nt * N * V))
                    mask = it.vec('mask', padd(nx, 2), kind='b')
                    it.run('interfs1', u, rec, nx, S('dt'), S('dx'), TIME, code, MP, mask)
                    W, E = glob(it, 'WGHTS'), glob(it, 'ENDVALS')
                    ev = gevs(sub, [('nx', lambda o: (1, 6)), ('i', lambda o: (0, o['nx']))], positive=POS)

                    def trace(I, t, e):
                        base = pmul(padd(pmul(I, nt), t), N * V)
                        return [sum3([E[e * N + s] * rd('rec', padd(base, s * V + v)) for s in range(N)]) for v in range(V)]
                    for i in ([psym('i')] if sy else range(nx)):
                        I = padd(i, 1)
                        mk = lambda d: brd('mask', padd(I, d))
                        want = [rd('u', padd(pmul(i, V), v)) for v in range(V)]
                        for t in range(nt):
                            k = (S('dt') * W[t] if TIME else S('dt')) / (S('dx') * 2)
                            for L, sg, m in ((I, 1, band(mk(0), mk(1))), (padd(I, -1), -1, band(mk(-1), mk(0)))):
                                ql, qr = trace(L, t, 1), trace(padd(L, 1), t, 0)
                                f = facev(it, DN[code], ql, qr, 0, MP)
                                b = facev(it, 'Bint', ql, qr, 0, MP)
                                want = [w - ite(m, k * (b[v] + (f[v] if sg > 0 else -f[v])), ZERO) for v, w in enumerate(want)]
                        for v in range(V):
                            sub.eq('1D %s, %s%s' % (tg, cf.names[v], '' if sy else ' cell %s of %s' % (i, nx)),
                                   rdat(it, u, padd(pmul(i, V), v)), want[v], ev, floc(P_, 'interfs1'),
                                   'the interface update of a cell is not the pair of face fluxes of its two faces')
            c.staged('1D ' + tg, one)

            def two(sub, sy, op):
                it = sub.drv(P_)
                kernels(it, V, KS if op else K2)
                MP = mpar(it, 0, solid=False, power=False, bingham=False)
                for nx, ny in ([(psym('nx'), psym('ny'))] if sy else sub.grids((2, 1), (1, 2))):
                    u = it.vec('u', pmul(pmul(nx, ny), V))
                    ncb = pmul(padd(nx, 2), padd(ny, 2))
                    rec = it.vec('rec', pmul(ncb, nt * N * N * V))
                    mask = it.vec('mask', ncb, kind='b')
                    it.run('interfs2', u, rec, nx, ny, S('dt'), S('dx'), S('dy'), TIME, code, MP, mask)
                    W, E = glob(it, 'WGHTS'), glob(it, 'ENDVALS')
                    ev = gevs(sub, [('nx', lambda o: (1, 5)), ('ny', lambda o: (1, 5)), ('i', lambda o: (0, o['nx'])), ('j', lambda o: (0, o['ny']))],
                              positive=POS)
                    cell = lambda a, b: padd(pmul(a, padd(ny, 2)), b)

                    def trace(I, J, t, d, e, s):
                        base = pmul(padd(pmul(cell(I, J), nt), t), N * N * V)
                        at = lambda k: (k * N + s) if d == 0 else (s * N + k)
                        return [sum3([E[e * N + k] * rd('rec', padd(base, at(k) * V + v)) for k in range(N)]) for v in range(V)]
                    for i, j in ([(psym('i'), psym('j'))] if sy else [(a, b) for a in range(nx) for b in range(ny)]):
                        I, J = padd(i, 1), padd(j, 1)
                        cu = padd(pmul(i, ny), j)
                        want = [rd('u', padd(pmul(cu, V), v)) for v in range(V)]
                        mk = lambda a, b: brd('mask', cell(padd(I, a), padd(J, b)))
                        for t in range(nt):
                            for d in (0, 1):
                                k = (S('dt') * W[t] if TIME else S('dt')) / ((S('dx') if d == 0 else S('dy')) * 2)
                                e = (1, 0) if d == 0 else (0, 1)
                                for off, sg in ((0, 1), (-1, -1)):
                                    A = (padd(I, off * e[0]), padd(J, off * e[1]))
                                    B_ = (padd(A[0], e[0]), padd(A[1], e[1]))
                                    m = band(mk(0, 0), mk(e[0] * sg, e[1] * sg))
                                    for s in range(N):
                                        ql, qr = trace(*A, t, d, 1, s), trace(*B_, t, d, 0, s)
                                        f = facev(it, DN[code], ql, qr, d, MP)
                                        b = facev(it, 'Bint', ql, qr, d, MP)
                                        want = [w - ite(m, k * W[s] * (b[v] + (f[v] if sg > 0 else -f[v])), ZERO) for v, w in enumerate(want)]
                        for v in range(V):
                            sub.eq('2D %s, %s%s' % (tg, cf.names[v], '' if sy else ' cell %s,%s of %sx%s' % (i, j, nx, ny)),
                                   rdat(it, u, padd(pmul(cu, V), v)), want[v], ev, floc(P_, 'interfs2'),
                                   'the interface update of a cell is not the pair of face fluxes of its four faces')
            c.staged('2D ' + tg, two)

    # the launcher performs the interior and the interface update, once each
    for nd in (1, 2):
        def launch(sub, sy, op):
            n = (2, 1)[:nd]

            def prep():
                it = sub.drv(P_)
                kernels(it, V, KS + ('source',) if op else K2 + ('source',))
                MP = mpar(it, 0, solid=False, power=False, bingham=False)
                nc, nb = 1, 1
                for x in n:
                    nc, nb = nc * x, nb * (x + 2)
                return it, MP, it.vec('u', nc * V), it.vec('rec', nb * N ** (nd + 1) * V), it.vec('mask', nb, kind='b')
            it, MP, u, rec, mask = prep()
            nX = it.vec('nX', nd, kind='i', init=list(n))
            dX = it.vec('dX', nd, init=[S('dx'), S('dy')][:nd])
            it.run('fv_launcher', u, rec, nX, S('dt'), dX, True, True, 0, MP, mask)
            got = it.out(u)
            it, MP, u, rec, mask = prep()
            h = [S('dx'), S('dy')][:nd]
            it.run('centers%d' % nd, u, rec, *n, S('dt'), *h, True, True, MP, mask)
            it.run('interfs%d' % nd, u, rec, *n, S('dt'), *h, True, 0, MP, mask)
            want = it.out(u)
            ev = sub.evs(positive=POS)
            for k, (g, w) in enumerate(zip(got, want)):
                sub.eq('%dD finite-volume step [%d]' % (nd, k), g, w, ev, floc(P_, 'fv_launcher'),
                       'the finite-volume step is not the interior plus the interface update')
        c.staged('%dD finite-volume step' % nd, launch)
