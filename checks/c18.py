from fractions import Fraction as Fr

from grid import *          # noqa

RULE = ('value flow through the time loop with every stage an uninterpreted function of all it is given: each step fills the material grids '
        'from the merged state, takes its length from them, advances every non-vacuum material with its own boundary extension, mask and '
        'parameters, merges, then limits, renormalises and (when due) rotates and resets, and what is returned last is the state after the last step')
ASSUME = ['exact real arithmetic', 'the stages themselves are decided by their own properties', 'time steps of fixed literal length']
STAGES = ('fill_ghost_cells', 'timestep', 'boundaries', 'extend_mask', 'split_stepper_para', 'ader_stepper_para', 'make_u',
          'limit_concentration', 'renorm_distortion', 'rotate_distortion', 'contorted', 'reset_distortion')


def val(it, x):
    """Flat tuple of the values of an argument."""
    while isinstance(x, Loc):
        x = it.cur(x)
    if isinstance(x, IP.SVec):
        return sum((val(it, e) for e in x.e), ())
    if isinstance(x, (Mx, EM)):
        return tuple(it.out(it.mx(x)))
    if isinstance(x, Rec):
        return (mpkey(it, x),)
    if isinstance(x, bool) or x is TRUE or x is FALSE:
        return (int(x is True or x is TRUE),)
    return (x,)


class Over(Exception):
    pass


class Loop:
    """The time loop with opaque stages; steps = literal step lengths."""

    def __init__(self, c, it, V, steps):
        self.it, self.V, self.steps, self.k = it, V, list(steps), 0
        self.seen = []
        for s in STAGES:
            it.opaque[s] = getattr(self, 'h_' + s)

    def ufs(self, nm, n, args):
        return [X.uf(nm, i, args) for i in range(n)]

    def upd(self, it, dst, nm, args):
        v = it.mx(dst)
        n = v.rows * v.cols
        if v.kind == 'b':
            put(it, dst, [X.buf_('%s.%d' % (nm, i), args) for i in range(n)])
        else:
            put(it, dst, self.ufs(nm, n, args))

    def h_fill_ghost_cells(self, it, F, a):
        args = sum((val(it, x) for x in a[2:]), ())
        gs, ms = self.elems(it, a[0]), self.elems(it, a[1])
        for m, (g, k) in enumerate(zip(gs, ms)):
            self.upd(it, g, 'fill%d' % m, args)
            self.upd(it, k, 'fillmask%d' % m, args)

    def elems(self, it, x):
        while isinstance(x, Loc):
            x = it.cur(x)
        return [it.cur(e) for e in x.e]

    def h_timestep(self, it, F, a):
        self.seen.append(tuple(sum((val(it, x) for x in a), ())))
        k = self.k
        self.k += 1
        if k >= len(self.steps):
            raise Over()
        return self.steps[k]

    def h_boundaries(self, it, F, a):
        self.upd(it, a[1], 'bound', val(it, a[0]) + val(it, a[2]) + val(it, a[3]))

    def h_extend_mask(self, it, F, a):
        self.upd(it, a[1], 'extmask', val(it, a[0]) + val(it, a[2]))

    def step(nm):
        def h(self, it, F, a):
            self.upd(it, a[0], nm, sum((val(it, x) for x in a), ()))
        return h
    h_split_stepper_para = step('split')
    h_ader_stepper_para = step('ader')
    h_make_u = step('merge')
    h_limit_concentration = step('limit')
    h_renorm_distortion = step('renorm')
    h_rotate_distortion = step('rotate')
    h_reset_distortion = step('reset')

    def h_contorted(self, it, F, a):
        return X.buf_('contorted', sum((val(it, x) for x in a), ()))


def drive_loop(c, P_, cf, steps, mats, split, nd=1, tf=1):
    V = cf.V
    it = c.drv(P_)
    # literal control, symbolic states
    for s in STAGES:
        P_.one(s)
    cur = [None]
    it.isnan = lambda x: FALSE
    lp = Loop(c, it, V, [lift(Fr(s)) for s in steps])
    for s in STAGES:
        it.opaque[s] = (lambda f: lambda self, F, a: f(self, F, a))(getattr(lp, 'h_' + s))
    nX = [2, 1][:nd]
    nc = 2
    N = cf.N
    mp = [mpar(it, e, name='MP%d' % m) for m, e in enumerate(mats)]
    dX = [S('dx'), S('dy')][:nd]
    u = it.vec('u', nc * V)
    args = dict(u=u, tf=lift(tf), nX=it.vec('nX', nd, kind='i', init=nX), dX=it.vec('dX', nd, arr=True, init=dX), CFL=S('CFL'),
                bt=it.vec('bt', 2 * nd, kind='i', init=[0] * (2 * nd)), SPLIT=split, HALF=brd('half', 0), STIFF=brd('stiff', 0), FLUX=psym('FLUX'),
                MPs=svec(it, mp), tol=S('tol'))
    ret = it.run('iterator', *args.values())
    return it, lp, mp, args, ret, nX, nc


def run(c):
    P_ = c.prog()
    cf = Cfg(P_)
    for split in (True, False):
        for mats in ((0,), (0, 4), (0, -1)):
            tg = '%s, materials %s' % ('split' if split else 'unsplit', mats)
            c.attempt(tg, lambda: one(c, P_, cf, split, mats, tg))


    for opts in ({}, ALT):
        P_ = c.prog(**opts)
        tg = '%s, eleven steps' % cfgtag({} if not opts else {'ROTATE_DISTORTION': True})
        c.attempt(tg, lambda: one(c, P_, Cfg(P_), True, (0,), tg, ['1/11'] * 11))


def one(c, P_, cf, split, mats, tg, steps=('1/2', '1/2')):
    V, N = cf.V, cf.N
    try:
        it, lp, mp, args, ret, nX, nc = drive_loop(c, P_, cf, steps, mats, split)
    except Over:
        return c.fail('%s: the loop ends at the end time' % tg, floc(P_, 'iterator'), 'another step is taken once the lengths of the steps add up to the end time')
    ev = c.evs(positive=POS)
    w = floc(P_, 'iterator')
    msg = 'the stages of a time step are not applied in order to the values they belong to'
    n = nc * V
    mpk = tuple(mpkey(it, m) for m in mp)
    nx, dX, bt = tuple(nX), (S('dx'),), (0, 0)
    u = tuple(rd('u', i) for i in range(n))
    dt = ZERO
    t = ZERO
    for k, s in enumerate(steps):
        fa = u + nx + dX + (dt,) + mpk
        gs = [tuple(X.uf('fill%d' % m, i, fa) for i in range(n)) for m in range(len(mats))]
        ms = [tuple(X.buf_('fillmask%d.%d' % (m, i), fa) for i in range(nc)) for m in range(len(mats))]
        seen = lp.seen[k] if k < len(lp.seen) else ()
        want = sum(gs, ()) + sum(ms, ()) + dX + (S('CFL'), t, ONE, k) + mpk + (len(mats),)
        same = len(seen) == len(want) and all(eqv(a, b, ev) for a, b in zip(seen, want))
        c.true('%s: step %d takes its length from the filled material grids' % (tg, k + 1), same, w,
               'the time step is not computed from the grids and masks the step advances')
        dt = lift(Fr(s))
        for m, e in enumerate(mats):
            if e < 0:
                continue
            ub = tuple(X.uf('bound', i, gs[m] + nx + bt) for i in range((nX[0] + 2 * N) * V))
            mb = tuple(X.buf_('extmask.%d' % i, ms[m] + nx) for i in range(nX[0] + 2))
            flag = brd('half', 0) if split else brd('stiff', 0)
            sa = gs[m] + ub + nx + (dt,) + dX + (flag, psym('FLUX'), mpk[m]) + mb
            gs[m] = tuple(X.uf('split' if split else 'ader', i, sa) for i in range(n))
        u2 = u + sum(gs, ()) + sum(ms, ()) + mpk
        u = tuple(X.uf('merge', i, u2) for i in range(n))
        u = tuple(X.uf('limit', i, u) for i in range(n))
        t = t + dt
        u = tuple(X.uf('renorm', i, u + mpk) for i in range(n))
        if bool(gconst(P_, 'ROTATE_DISTORTION')) and (k + 1) % 10 == 0:
            u = tuple(X.uf('rotate', i, u + mpk) for i in range(n))
        ct = X.buf_('contorted', u + (S('tol'),))
        u = tuple(ite(ct, X.uf('reset', i, u + mpk), u[i]) for i in range(n))
    last = it.out(it.mx(it.cur(ret.e[99])))
    c.true('%s: %d steps taken' % (tg, len(steps)), len(lp.seen) >= len(steps), w, 'the loop ends before the end time')
    for i in (0, 1, 5, V - 1, V, n - 1):
        c.eq('%s: final state, component %d' % (tg, i), last[i], u[i], ev, w, msg)


def eqv(a, b, ev):
    if isinstance(a, bool) or isinstance(b, bool) or getattr(a, '__class__', None).__name__ == 'B':
        return bequal(b_(a), b_(b), ev) is None
    if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
        return a == b
    return equal(lift(a), lift(b), ev) is None
