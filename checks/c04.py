from phys import *          # noqa

RULE = ('value-numbering: the non-conservative product equals the block matrix times the gradient in every direction, the block matrix has '
        'exactly the advective entries of the distortion and level-set equations, and neither depends on anything but the velocity')
ASSUME = ['exact real arithmetic']


def spec(cf, v, d):
    """Non-zero entries of B_d."""
    B = {}
    if cf.VISCOUS:
        for i in range(3):
            for j in range(3):
                r = 5 + 3 * i + j
                B[r, r] = v[d]
            for k in range(3):
                r, s = 5 + 3 * i + d, 5 + 3 * i + k
                B[r, s] = B.get((r, s), ZERO) - v[k]
    for k in range(cf.LSET):
        B[cf.V - 1 - k, cf.V - 1 - k] = v[d]
    return B


def run(c):
    cs = configs(c) + [{'VISCOUS': False}] + ([{'LSET': 1}] if c.thorough else [])
    for opts in cs:
        try:
            P_ = c.prog(**opts)
        except FrontError as e:
            if opts.get('VISCOUS') is False:
                c.undecided(cfgtag(opts), 'this configuration does not compile: %s' % str(e)[:100])
                continue
            raise
        cf = Cfg(P_)
        tag = cfgtag(opts)
        ev = c.evs(positive=POS)
        V = cf.V
        for d in range(3):
            nm = '%s direction %d' % (tag, d)

            def go():
                it = c.drv(P_)
                MP = mpar(it)
                Q = cf.state(it)
                v = [S('ρv%d' % i) / S('ρ') for i in range(3)]
                want = spec(cf, v, d)
                B = it.mat('B', V, V, init=[ZERO] * (V * V))
                it.run('block', B, Q, d)
                b = rows(it.out(B), V)
                for i in range(V):
                    for j in range(V):
                        c.eq('%s: block[%d,%d]' % (nm, i, j), b[i][j], want.get((i, j), ZERO), ev, floc(P_, 'block'))
                x = it.vec('x', V)
                xs = it.out(x)
                r = it.vec('r', V)          # arbitrary previous contents
                it.run('Bdot', r, Q, x, d, MP)
                got = it.out(r)
                for i in range(V):
                    w = ZERO
                    for j in range(V):
                        if (i, j) in want:
                            w = w + want[i, j] * xs[j]
                    c.eq('%s: Bdot[%d]' % (nm, i), got[i], w, ev, floc(P_, 'Bdot'))
                c.eqs(nm + ': state left alone', it.out(Q) + it.out(x), [S(n) for n in cf.names] + xs, ev, floc(P_, 'Bdot'))
            c.attempt(nm, go)
