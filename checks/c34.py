from grid import *          # noqa
import importlib
from chk import Check

RULE = ('effect analysis on literal grids: every subscript, segment, block and row of every routine that walks a grid lies inside the array it is '
        'applied to, and operands of an assignment have the same shape, for every combination of masks, states and levels at once '
        '(guards stay symbolic) and every grid shape listed')
ASSUME = ['arrays are as large as the callers of the routine make them (u: nX cells, ub: N ghost cells per side, reconstruction and mask: one)',
          'grids of up to four cells per direction; loops over larger grids have the same form']
SHAPES = {1: ((1,), (2,), (3,), (5,)), 2: ((1, 1), (1, 2), (2, 1), (2, 3), (3, 2), (3, 4))}


def prod(g):
    r = 1
    for x in g:
        r *= x
    return r


def ghost(g, n):
    return tuple(x + 2 * n for x in g)


def setup(c, P_, op=True):
    it = c.drv(P_)
    cf = Cfg(P_)
    if op:
        kernels(it, cf.V, ('flux', 'source', 'D_RUS', 'D_ROE', 'D_OSH', 'Bint', 'Pvec', 'Cvec'))
    return it, cf


def ivec(it, g):
    return it.vec('nX', len(g), kind='i', init=list(g))


def hvec(it, g, arr=False):
    return it.vec('dX', len(g), arr=arr, init=[S('dx'), S('dy')][:len(g)])


def r_boundaries(c, P_, g, k):
    it, cf = setup(c, P_)
    bt = [(k + j) % 6 for j in range(2 * len(g))]
    if 1 in bt:             # periodic on one side means on the other
        bt = [1 if 1 in bt[2 * (j // 2):2 * (j // 2) + 2] else b for j, b in enumerate(bt)]
    it.run('boundaries', it.vec('u', prod(g) * cf.V), it.vec('ub', prod(ghost(g, cf.N)) * cf.V), ivec(it, g), it.vec('bt', 2 * len(g), kind='i', init=bt))


def r_extend_mask(c, P_, g, k):
    it, cf = setup(c, P_)
    it.run('extend_mask', it.vec('m', prod(g), kind='b'), it.vec('mb', prod(ghost(g, 1)), kind='b'), ivec(it, g))


def r_weno(c, P_, g, k):
    it, cf = setup(c, P_)
    if len(g) > 1 and gconst(P_, 'PRIM_RECONSTRUCT'):
        return          # one dimension decides the conversion
    if cf.N > 2 and len(g) > 1:
        # the coefficients nest too deeply to write out: their reads and writes alone
        P_.one('coeffs')

        def co(self, F, a):
            d = X.uf('all', 0, args_of(self, a[1]))
            put(self, a[0], [X.uf('coeff', i, (d,)) for i in range(cf.N * cf.V)])
        it.opaque['coeffs'] = co
    n = cf.N ** len(g)
    it.run('weno_launcher', it.vec('wh', prod(ghost(g, 1)) * n * cf.V), it.vec('ub', prod(ghost(g, cf.N)) * cf.V), ivec(it, g), mpar(it, 0))


def r_fv(c, P_, g, k):
    it, cf = setup(c, P_)
    TIME, SRC = bool(k & 1), bool(k & 2)
    n = cf.N ** (len(g) + TIME)
    it.run('fv_launcher', it.vec('u', prod(g) * cf.V), it.vec('rec', prod(ghost(g, 1)) * n * cf.V), ivec(it, g), S('dt'), hvec(it, g), SRC, TIME, k % 3,
           mpar(it, 0), it.vec('mask', prod(ghost(g, 1)), kind='b'))


def r_ode(c, P_, g, k):
    it, cf = setup(c, P_)

    def st(self, F, a):
        put(self, a[0], [X.uf('ode', i, args_of(self, a[0])) for i in range(cf.V)])
    for nm in ('ode_stepper_analytic', 'ode_stepper_numerical'):
        P_.one(nm)
        it.opaque[nm] = st
    it.run('ode_launcher', it.vec('u', prod(g) * cf.V), S('dt'), mpar(it, 0))


def r_mid(c, P_, g, k):
    it, cf = setup(c, P_)
    it.run('midstepper', it.vec('w', prod(g) * cf.N ** len(g) * cf.V), S('dt'), hvec(it, g), mpar(it, 0), it.vec('mask', prod(g), kind='b'))


def r_pred(c, P_, g, k):
    it, cf = setup(c, P_)
    it.gsym['DG_IT'] = 1
    rootuf(it)
    n = cf.N ** len(g)
    it.run('predictor', it.vec('qh', prod(g) * n * cf.N * cf.V), it.vec('wh', prod(g) * n * cf.V), S('dt'), hvec(it, g), bool(k & 1), bool(k & 2),
           mpar(it, 0), it.vec('mask', prod(g), kind='b'))


def r_timestep(c, P_, g, k):
    it, cf = setup(c, P_)
    kernels(it, cf.V, ('max_abs_eigs',))
    n, nm = prod(g), 2
    it.run('timestep', svec(it, [it.vec('g%d' % m, n * cf.V) for m in range(nm)]), svec(it, [it.vec('k%d' % m, n, kind='b') for m in range(nm)]),
           hvec(it, g, True), S('CFL'), S('t'), S('tf'), k, svec(it, [mpar(it, e, name='MP%d' % m) for m, e in enumerate((0, -1 if k & 1 else 4))]), nm)


def r_split(c, P_, g, k):
    """The whole step: the sizes the stages hand to each other."""
    it, cf = setup(c, P_)

    def st(self, F, a):
        put(self, a[0], [X.uf('ode', i, args_of(self, a[0])) for i in range(cf.V)])
    for nm in ('ode_stepper_analytic', 'ode_stepper_numerical'):
        P_.one(nm)
        it.opaque[nm] = st
    it.run('split_stepper', it.vec('u', prod(g) * cf.V), it.vec('ub', prod(ghost(g, cf.N)) * cf.V), ivec(it, g), S('dt'), hvec(it, g), bool(k & 1), k % 3,
           mpar(it, 0), it.vec('mask', prod(ghost(g, 1)), kind='b'))


def r_ader(c, P_, g, k):
    it, cf = setup(c, P_)
    it.gsym['DG_IT'] = 1
    rootuf(it)
    it.run('ader_stepper', it.vec('u', prod(g) * cf.V), it.vec('ub', prod(ghost(g, cf.N)) * cf.V), ivec(it, g), S('dt'), hvec(it, g), bool(k & 1), k % 3,
           mpar(it, 0), it.vec('mask', prod(ghost(g, 1)), kind='b'))


TABLE = (('boundaries', r_boundaries, range(6)), ('extend_mask', r_extend_mask, (0,)), ('weno_launcher', r_weno, (0,)), ('fv_launcher', r_fv, range(4)),
         ('ode_launcher', r_ode, (0,)), ('midstepper', r_mid, (0,)), ('predictor', r_pred, (0, 1, 2)), ('timestep', r_timestep, (0, 9)),
         ('split_stepper', r_split, (0, 1)), ('ader_stepper', r_ader, (0,)))
# reflections need as many cells as there are ghost cells
NEEDN = ('boundaries',)
# small enough for two dimensions and higher orders
SMALL = {'predictor': ((1,), (1, 1)), 'ader_stepper': ((2,), (1, 1)), 'weno_launcher': SHAPES[1][:3] + ((1, 1), (1, 2), (2, 1)),
         'split_stepper': ((1,), (2,), (1, 2)), 'fv_launcher': ((1,), (2,), (3,), (1, 1), (1, 2), (2, 1)), 'midstepper': ((1,), (2,), (1, 1), (2, 1))}


def direct(c, P_, names, tag=''):
    """The routines named, on small literal grids."""
    for nm, f, ks in TABLE:
        if names and nm not in names:
            continue
        for g in SMALL.get(nm, SHAPES[1] + SHAPES[2]):
            if nm in NEEDN and min(g) < Cfg(P_).N:
                continue
            for k in ks:
                t = '%s%s on %s cells (case %d)' % (tag, nm, 'x'.join(map(str, g)), k)
                n0 = len(c.bad)
                c.attempt(t, lambda: f(c, P_, g, k))
                c.note_calls()
                if len(c.bad) == n0:
                    c.ok('inside the arrays: ' + t)


def run(c):
    P_ = c.prog()
    direct(c, P_, None)
    direct(c, c.prog(**ALT), ('boundaries', 'weno_launcher', 'fv_launcher', 'midstepper', 'extend_mask'), '[ALT] ')
    direct(c, c.prog(N=3), ('weno_launcher', 'fv_launcher', 'midstepper'), '[N=3] ')
    if c.thorough:
        direct(c, c.prog(N=4), ('boundaries', 'weno_launcher', 'fv_launcher', 'midstepper'), '[N=4] ')
    # the routines that follow literal level sets, as their own checks drive them
    for m in ('c18', 'c20', 'c21', 'c22', 'c24', 'c27'):
        sub = Bounds(c.pid, c.tier, c.level, c.rule)
        sub.progs, sub.seed = c.progs, c.seed
        sub.attempt(m, lambda: importlib.import_module(m).run(sub))
        sub.note_calls()
        c.bad += sub.bad
        c.functions |= sub.functions
        c.units |= sub.units
        for k in range(sub.nruns):
            c.ok('inside the arrays: run %d of the inputs of %s' % (k, m.upper()))


class Bounds(Check):
    """Another check's runs without its verdicts."""

    def skip(self, *a, **k):
        return True
    eq = beq = feq = eqs = true = same = ok = undecided = skip

    def fail(self, name, where, msg):
        if name.startswith(('inside the arrays', 'shapes agree')):
            Check.fail(self, name, where, msg)
