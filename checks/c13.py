from grid import *          # noqa
import c34 as bounds

RULE = ('value-numbering on a grid of symbolic size: a cell of the predictor mask is set exactly when it or a face neighbour is to be '
        'updated, a ghost cell exactly when the interior cell it adjoins needs it, and corner ghosts never; nothing depends on the previous '
        'contents of the mask')
ASSUME = ['at least one cell in every direction']


def orx(*xs):
    r = FALSE
    for x in xs:
        r = bor(r, x)
    return r


def run(c):
    bounds.direct(c, c.prog(), ('extend_mask',))
    P_ = c.prog()
    w = floc(P_, 'extend_mask')
    msg = 'the predictor mask is not the updated cells and their face neighbours'

    def one(sub, sy, op):
        it = sub.drv(P_)
        for nx in ([psym('nx')] if sy else sub.grids(1, 2, 4)):
            mask = it.vec('mask', nx, kind='b')
            mb = it.vec('mb', padd(nx, 2), kind='b')
            it.run('extend_mask', mask, mb, it.vec('nX', 1, kind='i', init=[nx]))
            ev = gevs(sub, [('nx', lambda o: (1, 7)), ('i', lambda o: (0, o['nx']))])
            m = lambda i: brd('mask', i)

            def inner(i):
                return orx(m(i), band(ilt(0, i), m(padd(i, -1))), band(ilt(i, padd(nx, -1)), m(padd(i, 1))))
            for i in ([psym('i')] if sy else range(nx)):
                sub.beq('1D interior cell %s%s' % (i, '' if sy else ' of %s' % nx), rdat(it, mb, padd(i, 1)), inner(i), ev, w, msg)
                if not sy:
                    pass
            sub.beq('1D left ghost%s' % ('' if sy else ' of %s' % nx), rdat(it, mb, 0), inner(0), ev, w, msg)
            sub.beq('1D right ghost%s' % ('' if sy else ' of %s' % nx), rdat(it, mb, padd(nx, 1)), inner(padd(nx, -1)), ev, w, msg)
            for i in ([psym('i')] if sy else range(nx)):
                sub.beq('1D input mask left alone %s%s' % (i, '' if sy else ' of %s' % nx), rdat(it, mask, i), m(i), ev, w, 'the input mask is modified')
    c.staged('1D', one)

    def two(sub, sy, op):
        for nx, ny in ([(psym('nx'), psym('ny'))] if sy else sub.grids((1, 1), (2, 3), (3, 2))):
            it = sub.drv(P_)
            mask = it.vec('mask', pmul(nx, ny), kind='b')
            mb = it.vec('mb', pmul(padd(nx, 2), padd(ny, 2)), kind='b')
            it.run('extend_mask', mask, mb, it.vec('nX', 2, kind='i', init=[nx, ny]))
            ev = gevs(sub, [('nx', lambda o: (1, 6)), ('ny', lambda o: (1, 6)), ('i', lambda o: (0, o['nx'])), ('j', lambda o: (0, o['ny']))])
            m = lambda i, j: brd('mask', padd(pmul(i, ny), j))
            got = lambda I, J: rdat(it, mb, padd(pmul(I, padd(ny, 2)), J))
            tg = '' if sy else ' of %sx%s' % (nx, ny)
            for i in ([psym('i')] if sy else range(nx)):
                for j in ([psym('j')] if sy else range(ny)):
                    want = orx(m(i, j), band(ilt(0, i), m(padd(i, -1), j)), band(ilt(i, padd(nx, -1)), m(padd(i, 1), j)),
                               band(ilt(0, j), m(i, padd(j, -1))), band(ilt(j, padd(ny, -1)), m(i, padd(j, 1))))
                    sub.beq('2D interior cell %s,%s%s' % (i, j, tg), got(padd(i, 1), padd(j, 1)), want, ev, w, msg)
                    sub.beq('2D input mask left alone %s,%s%s' % (i, j, tg), rdat(it, mask, padd(pmul(i, ny), j)), m(i, j), ev, w,
                            'the input mask is modified')
                sub.beq('2D ghost of cell %s,first%s' % (i, tg), got(padd(i, 1), 0), m(i, 0), ev, w, msg)
                sub.beq('2D ghost of cell %s,last%s' % (i, tg), got(padd(i, 1), padd(ny, 1)), m(i, padd(ny, -1)), ev, w, msg)
            for j in ([psym('j')] if sy else range(ny)):
                sub.beq('2D ghost of cell first,%s%s' % (j, tg), got(0, padd(j, 1)), m(0, j), ev, w, msg)
                sub.beq('2D ghost of cell last,%s%s' % (j, tg), got(padd(nx, 1), padd(j, 1)), m(padd(nx, -1), j), ev, w, msg)
            for a in (0, 1):
                for b in (0, 1):
                    sub.beq('2D corner %d%d%s' % (a, b, tg), got(pmul(a, padd(nx, 1)), pmul(b, padd(ny, 1))), FALSE, ev, w, 'a corner ghost is set')
    c.staged('2D', two)

    def ext():
        it = c.drv(P_)
        ev = c.evs()
        for n in (1, 2, 3):
            ns = [psym('n%d' % k) for k in range(n)]
            nX = it.vec('nX', n, kind='i', init=list(ns))
            e = psym('ext')
            got = it.run('extended_dimensions', nX, e)
            want = 1
            for x in ns:
                want = pmul(want, padd(x, pmul(2, e)))
            c.eq('cells of the %d-dimensional extended grid' % n, lift(got), lift(want), ev, floc(P_, 'extended_dimensions'))
    c.attempt('cells of the extended grid', ext)
