"""C25: the matrix-free Newton-Krylov solver."""
import numpy as np
from grid import *          # noqa
from phys import gconst
import terms as X
import interp as IP
import order

RULE = ('value numbering with the residual function uninterpreted (and, where noted, linear with symbolic coefficients): the Jacobian product is the '
        'difference quotient at the current iterate; one LGMRES cycle leaves a residual orthogonal to the image of its search space, for a symbolic '
        'matrix (QR factors with their own meaning); every accepted step satisfies the decrease condition; iterate and residual stay in step')
ASSUME = ['exact real arithmetic', 'generic data: a condition that has one truth value on every ordered lane is taken to have it (no breakdown of the '
          'Krylov space)', 'QR and least-squares solves of Eigen return what they are documented to return']


def run(c):
    for nm, fn in (('product', product), ('cycle', cycle), ('search', search), ('armijo', armijo), ('stop', stop), ('newton', newton)):
        c.attempt(nm, lambda: fn(c))


def loc(P, q):
    F = P.one(q)
    return '%s:%d %s' % (F.file, F.line, q)


def make(it, P, cls, *args):
    r = IP.Rec(it, cls, cls, fresh=True)
    ctor = [f for f in P.find('%s::%s' % (cls, cls)) if len(f.params) == len(args)][0]
    meth(it, r, ctor, *args)
    return r


def meth(it, r, F, *args):
    F = it.prog.one(F) if isinstance(F, str) else F
    it.frames.append(IP.Frame(F, F.tt))
    try:
        return it.call(F, list(args), this=r)
    finally:
        it.frames.pop()


def residual(it, name='F'):
    """An uninterpreted residual: one function per component."""
    def F(self, args):
        x = self.out(self.mx(args[0]))
        n = len(x)
        return self.vec('F', n, init=[X.uf(name, i, tuple(X.lift(z) for z in x)) for i in range(n)])
    return F


def FU(x, name='F'):
    return [X.uf(name, i, tuple(X.lift(z) for z in x)) for i in range(len(x))]


def ss(p, n):
    return [S('%s%d' % (p, i)) for i in range(n)]


def maxabs(v):
    r = X.tabs(v[0])
    for x in v[1:]:
        r = X.tmax(r, X.tabs(x))
    return r


def norm2(v):
    return sum3([x * x for x in v])


def product(c):
    P = c.prog()
    ev = order.ev2s(c.evs())
    w = loc(P, 'KrylovJacobian::matvec')
    for n in (1, 2, 3) if c.thorough else (1, 2):
        it = c.drv(P)
        x, f, v, x2, f2 = (ss(p, n) for p in ('x', 'f', 'v', 'y', 'g'))
        J = make(it, P, 'KrylovJacobian', it.vec('x', n, init=x), it.vec('f', n, init=f), residual(it))
        for tag, a, b in (('', x, f), (' after update', x2, f2)):
            if tag:
                meth(it, J, 'KrylovJacobian::update', it.vec('y', n, init=a), it.vec('g', n, init=b))
            got = it.out(meth(it, J, 'KrylovJacobian::matvec', it.vec('v', n, init=v)))
            om = X.sqrt(gconst(P, 'mEPS')) * X.tmax(X.C(1), maxabs(a)) / X.tmax(X.C(1), maxabs(b))
            h = om / X.sqrt(norm2(v))
            Fv = FU([p + h * q for p, q in zip(a, v)])
            for i in range(n):
                c.feq('n=%d product%s [%d]' % (n, tag, i), got[i], (Fv[i] - b[i]) / h, ev, w,
                      'the Jacobian product is not the difference quotient of the residual along the direction at the current iterate')
        z = it.out(meth(it, J, 'KrylovJacobian::matvec', it.vec('0', n, init=[X.C(0)] * n)))
        for i in range(n):
            c.feq('n=%d product with nothing [%d]' % (n, i), z[i], X.C(0), ev, w, 'the product with the zero vector is not zero')


def lanes(c, it, L=256):
    es = order.ev2s(c.evs(), L=L)
    it.lanes = es[0]
    return es


def cycle(c):
    P = c.prog()
    w = loc(P, 'lgmres')
    for n in (4, 5) if c.thorough else (4,):
        for k in (1, 2):
            for old in (0, 1, 2):
                for pre in (False, True):
                    if pre and (old or k == 2) or old + k > n - 1:
                        continue
                    nm = 'n=%d, %d new and %d recycled directions%s' % (n, k, old, ', preconditioned' if pre else '')
                    c.attempt(nm, lambda: each(c, P, w, n, k, old, pre, nm))
    # a guess that is good enough is returned as it is
    n = 2
    big, tiny = [X.C(300), X.C(400)], [X.C(1) / X.C(10 ** 6), X.C(2) / X.C(10 ** 6)]
    for nm, b, x0, tol in (('guess within the tolerance', ss('b', n), ss('x', n), X.C(10) ** 40), ('no right-hand side', [X.C(0)] * n, ss('x', n), X.C(10) ** 40),
                           ('guess within the relative tolerance', big, [X.C(0)] * 2, X.C(2)),
                           ('guess within the absolute tolerance', tiny, [X.C(0)] * 2, X.C(1) / X.C(100000))):
        it = c.drv(P)
        es = lanes(c, it)
        r = it.run('lgmres_wrapper', it.mat('A', n, n, init=[X.C(z) for z in (1, 2, 0, 3)]), it.vec('b', n, init=b), it.vec('x0', n, init=x0), it.mat('M', 0, 0),
                   tol, 1, 1, 1, svec(it, []))
        c.eqs(nm, it.out(r), x0, es, w, 'a guess whose residual is within the tolerance is not returned unchanged')


def each(c, P, w, n, k, old, pre, nm):
    try:
        cyc(c, P, w, n, k, old, pre, nm)
    except IP.Unmodelled:
        # a condition depends on the data (a direction adds nothing to the space): lane by lane
        for seed in range(6):
            cyc(c, P, w, n, k, old, pre, nm, seed)


def cyc(c, P, w, n, k, old, pre, nm, seed=None):
    it = c.drv(P)
    if seed is None:
        es = lanes(c, it)
    else:
        es = [order.Ev2(L=1, seed=100 + seed)]
        it.lanes = es[0]
        nm += ' lane %d' % seed
    A, b, x0, M = ss('a', n * n), ss('b', n), ss('x', n), ss('m', n * n)

    def mul(a, v):
        return [sum3([a[n * i + j] * v[j] for j in range(n)]) for i in range(n)]
    prev = [ss('p%d.' % i, n) for i in range(old)]
    box = IP.Loc('kept')
    it.st.mem[box] = svec(it, [it.vec('ov%d' % i, n, init=p) for i, p in enumerate(prev)])
    r = it.run('lgmres_wrapper', it.mat('A', n, n, init=A), it.vec('b', n, init=b), it.vec('x0', n, init=x0),
               it.mat('M', n, n, init=M) if pre else it.mat('M', 0, 0), X.C(-1), 1, k, 1, box)
    x = it.out(r)
    P_ = (lambda v: mul(M, v)) if pre else (lambda v: v)
    r0 = P_([p - q for p, q in zip(b, mul(A, x0))])
    rr = P_([p - q for p, q in zip(b, mul(A, x))])
    dx = [p - q for p, q in zip(x, x0)]
    # the search space: what was handed over, then the residual and its images
    space = [list(p) for p in prev]
    z = r0
    if not old:
        for _ in range(k):
            space.append(z)
            z = P_(mul(A, z))
    else:
        space.append(z)
    for j, z in enumerate(space):
        az = P_(mul(A, z))
        ortho(c, '%s: residual against direction %d' % (nm, j), rr, az, es, w)
    # one vector kept: the latest update, normalised
    kept = [it.st.mem[l] for l in it.st.mem[box].e]
    c.true('%s: vectors kept' % nm, len(kept) == 1, w, 'not the given number of vectors is kept for the next solve')
    if len(kept) == 1:
        nd = X.sqrt(norm2(dx))
        for i, (p, q) in enumerate(zip(it.out(kept[0]), dx)):
            c.feq('%s: vector kept [%d]' % (nm, i), p, q / nd, es, w, 'the vector kept is not the normalised update', tol=1e-4)


def ortho(c, nm, u, v, es, w):
    num, den = sum3([p * q for p, q in zip(u, v)]), X.sqrt(norm2(u) * norm2(v))
    bad = tot = 0
    for e in es:
        with np.errstate(all='ignore'):
            a, b = np.abs(e.f(num)), e.f(den)
            m = np.isfinite(a) & np.isfinite(b) & (b > 0)
            bad += int((a > 1e-3 * b)[m].sum())
            tot += int(m.sum())
    if tot < min(50, sum(e.L for e in es)):
        return c.undecided(nm, 'no lanes')
    # rounding spoils badly scaled lanes only
    if bad <= tot // 4 and (bad == 0 or tot > 1):
        c.ok(nm)
    elif bad >= tot // 2:
        c.fail(nm, w, 'the residual left by a cycle is not orthogonal to the image of its search space (it is not minimal)')
    else:
        c.undecided(nm, 'rounding')


def search(c):
    """The update of the line search, whatever the scalar search tried."""
    P = c.prog()
    w = loc(P, '_nonlin_line_search')
    ev = order.ev2s(c.evs())
    ph = P.one('phi', 7)
    n = 2
    half = X.C(1) / X.C(2)
    for tag, tried, ret in (('first step', [1], 1), ('second step', [1, half], half), ('an earlier step', [1, half], 1), ('an untried step', [1], half),
                            ('no step', [], 0), ('a repeated step', [1, 1], 1)):
        it = c.drv(P)
        x, dx = ss('x', n), ss('d', n)

        def armijo(self, F, a):
            for s in tried:
                got = self.call(ph, [X.lift(s)] + list(a[1:]))
                c.feq('%s: merit at %s' % (tag, s), got, norm2(FU([p + X.lift(s) * q for p, q in zip(x, dx)])), ev, loc(P, 'phi'),
                      'the merit function is not the squared norm of the residual at the trial point')
            c.feq('%s: merit at the start' % tag, a[0], norm2(FU(x)), ev, w, 'the search does not start from the squared norm of the residual')
            return X.lift(ret)
        P.one('scalar_search_armijo')
        it.opaque['scalar_search_armijo'] = armijo
        xv, fv = it.vec('x', n, init=x), it.vec('Fx', n, init=FU(x))
        it.run('_nonlin_line_search', residual(it), xv, fv, it.vec('dx', n, init=dx))
        want = [p + X.lift(ret) * q for p, q in zip(x, dx)]
        for i in range(n):
            c.feq('%s: iterate [%d]' % (tag, i), it.out(xv)[i], want[i], ev, w, 'the iterate is not moved by the accepted step along the direction')
            c.feq('%s: residual [%d]' % (tag, i), it.out(fv)[i], FU(want)[i], ev, w, 'the residual handed back is not that of the new iterate')


def armijo(c):
    """The scalar search against every tenth of a set of merit values."""
    P = c.prog()
    w = loc(P, 'scalar_search_armijo')
    P.one('phi', 7)
    vals = [X.C(p) / X.C(q) for p, q in ((1, 2), (9, 10), (99999, 100000), (1, 1), (3, 2), (4, 1), (30, 1))]
    rnd = np.random.default_rng(5)
    seqs = [[vals[i] for i in rnd.integers(0, len(vals), 12)] for _ in range(200 if c.thorough else 60)]
    seqs += [[X.C(3)] * 40, [X.C(4), X.C(1) / X.C(2)], [X.C(4), X.C(2), X.C(1) / X.C(2)] + [X.C(1)] * 9]
    for k, seq in enumerate(seqs):
        c.attempt('merit sequence %d' % k, lambda: scan(c, P, w, k, seq))


def scan(c, P, w, k, seq):
    it = c.drv(P)
    es = lanes(c, it, 64)
    e = es[0]
    tried = []

    def num(t):
        return float(np.broadcast_to(e.f(X.lift(t)), (e.L,))[0])

    def ph(self, F, a):
        s = num(a[0])
        tried.append((s, num(seq[min(len(tried), len(seq) - 1)])))
        return seq[min(len(tried) - 1, len(seq) - 1)]
    it.opaque['phi'] = ph
    z = [it.vec(x, 1, init=[X.C(0)]) for x in ('F', 'x', 'd')]
    r = num(it.run('scalar_search_armijo', X.C(1), None, None, z[0], residual(it), z[1], z[2]))
    nm = 'merit sequence %d' % k
    if not all(np.isfinite(s) for s, p in tried):
        return          # these merit values have no interpolating cubic with a minimum
    ok = [s for s, p in tried if p <= 1 - 1e-4 * s]
    c.true(nm + ': accepted', (r == ok[0]) if ok else r == 1., w,
           'the step returned (%g) is not the first one tried that decreases the merit function enough (tried %s), nor the full step when none does'
           % (r, tried))
    c.true(nm + ': stops there', not ok or tried[-1][0] == ok[0], w, 'the search goes on after an acceptable step')
    c.true(nm + ': tries', tried and tried[0][0] == 1. and len(tried) >= (1 if ok else 3), w, 'the search does not begin with the full step')
    if len(tried) > 1 and tried[0][1]:
        c.true(nm + ': second', abs(tried[1][0] - 1 / (2 * tried[0][1])) < 1e-12, w,
               'the second step is not the minimiser of the parabola through the merit values and the slope')


def stop(c):
    P = c.prog()
    w = loc(P, 'TerminationCondition::check')
    names = ('ftol', 'frtol', 'xtol', 'xrtol')
    ev = order.ev2s(c.evs(positive=names), L=4096)
    n = 2
    it = c.drv(P)
    tol = [S(x) for x in names]
    T_ = make(it, P, 'TerminationCondition', *tol)
    f0 = None
    for k in range(4):
        f, x, d = (ss('%s%d.' % (p, k), n) for p in 'fxd')
        if k == 3:
            f = [X.C(0)] * n
        r = meth(it, T_, 'TerminationCondition::check', it.vec('f', n, init=f), it.vec('x', n, init=x), it.vec('d', n, init=d))
        fn, xn, dn = maxabs(f), maxabs(x), maxabs(d)
        f0 = fn if f0 is None else f0
        want = bor(req(fn, X.C(0)), band(X.rle(fn, tol[0]), X.rle(fn / tol[1], f0), X.rle(dn, tol[2]), X.rle(dn / tol[3], xn)))
        bad = 0
        for e in ev:
            bad += int((np.broadcast_to(e.b(X.b_(r)), (e.L,)) != np.broadcast_to(e.b(X.b_(want)), (e.L,))).sum())
        c.true('call %d' % k, bad == 0, w, 'the iteration stops on another condition than the absolute and relative tolerances on residual and step')


def newton(c):
    P = c.prog()
    w = loc(P, 'nonlin_solve')
    P.one('_nonlin_line_search'), P.one('KrylovJacobian::solve'), P.one('TerminationCondition::check')
    for n in (1, 2):
        for stopat in (0, 1, 2, 99):
            c.attempt('n=%d, stop at %d' % (n, stopat), lambda: loop(c, P, w, n, stopat))
    # the linear solve: the correction equation at the current iterate
    n = 2
    it = c.drv(P)
    ev = order.ev2s(c.evs())
    x, f, b, v = (ss(p, n) for p in 'xfbv')
    J = make(it, P, 'KrylovJacobian', it.vec('x', n, init=x), it.vec('f', n, init=f), residual(it))
    w2 = loc(P, 'KrylovJacobian::solve')
    F0 = P.one('lgmres')

    def lg(self, F, a):
        m, p, rhs, guess, ov, tol = a[:6]
        mv = self.invoke(self.cur(m) if isinstance(m, IP.Loc) else m, [it.vec('v', n, init=v)])
        want = it.out(meth(it, J, 'KrylovJacobian::matvec', it.vec('v', n, init=v)))
        for i in range(n):
            c.feq('solve: product [%d]' % i, it.out(mv)[i], want[i], ev, w2, 'the linear solve does not use the Jacobian product at the current iterate')
        for i, (p_, q) in enumerate(zip(it.out(val(self, rhs)), b)):
            c.eq('solve: right-hand side [%d]' % i, p_, q, ev, w2, 'the right-hand side is not the one asked for')
        for i, p_ in enumerate(it.out(val(self, guess))):
            c.eq('solve: guess [%d]' % i, p_, X.C(0), ev, w2, 'the linear solve does not start from zero')
        c.eq('solve: tolerance', val(self, tol), S('tol'), ev, w2, 'the tolerance is not the one asked for')
        return self.vec('z', n, init=ss('z', n))
    it.opaque[F0.q] = lg
    r = meth(it, J, 'KrylovJacobian::solve', it.vec('b', n, init=b), S('tol'))
    c.eqs('solve: result', it.out(r), ss('z', n), ev, w2, 'the solution is not handed back')


def val(it, v):
    v = it.cur(v) if isinstance(v, IP.Loc) else v
    return it.mx(v) if isinstance(v, (IP.EM, IP.View, IP.Mx)) else v


def loop(c, P, w, n, stopat):
    nm = 'n=%d, stop at %d' % (n, stopat)
    it = c.drv(P)
    es = lanes(c, it, 64)
    x = ss('x', n)
    st = {'x': x, 'dx': None, 'k': 0, 'solve': 0, 'ls': 0}

    def same(what, got, want, msg):
        for i, (p, q) in enumerate(zip(got, want)):
            c.feq('%s, iteration %d: %s [%d]' % (nm, st['k'], what, i), p, q, es, w, msg)

    def check(self, F, a):
        f, y, d = (it.out(val(self, z)) for z in a)
        same('residual tested', f, FU(st['x']), 'the residual tested is not that of the current iterate')
        same('iterate tested', y, st['x'], 'the iterate tested is not the current one')
        if st['dx'] is not None:
            same('step tested', d, st['dx'], 'the step tested is not the latest one')
        return 1 if st['k'] == stopat else 0

    def solve(self, F, a):
        st['k'] += 1
        st['solve'] += 1
        same('right-hand side', it.out(val(self, a[0])), FU(st['x']), 'the Newton correction is not computed from the current residual')
        J = self.othis
        same('Jacobian iterate', it.out(val(self, J.f['x0'])), st['x'], 'the Jacobian is not that of the current iterate')
        same('Jacobian residual', it.out(val(self, J.f['f0'])), FU(st['x']), 'the Jacobian differences against an old residual')
        e = es[0]
        t = np.broadcast_to(e.f(X.lift(val(self, a[1]))), (e.L,))
        c.true('%s, iteration %d: tolerance' % (nm, st['k']), bool(np.all((t < 1) | ~np.isfinite(t)) and np.all((t > 0) | ~np.isfinite(t))), w,
               'the linear solve is asked for no reduction of the residual')
        return self.vec('z', n, init=ss('z%d.' % st['solve'], n))

    def ls(self, F, a):
        st['ls'] += 1
        d = [-z for z in ss('z%d.' % st['solve'], n)]
        same('direction', it.out(val(self, a[3])), d, 'the search direction is not minus the solution of the correction equation')
        same('search from', it.out(val(self, a[1])), st['x'], 'the line search does not start at the current iterate')
        same('search residual', it.out(val(self, a[2])), FU(st['x']), 'the line search is not given the current residual')
        st['dx'] = d
        st['x'] = ss('y%d.' % st['ls'], n)
        for z, new in ((a[1], st['x']), (a[2], FU(st['x']))):
            put(self, z, new)
        return None
    it.opaque['TerminationCondition::check'] = check
    it.opaque['KrylovJacobian::solve'] = solve
    it.opaque['_nonlin_line_search'] = ls
    it.opaque.pop('nonlin_solve', None)
    r = it.run('nonlin_solve', residual(it), it.vec('x', n, init=x), S('a'), S('b'), S('c'), S('d'))
    same('result', it.out(r), st['x'], 'the latest iterate is not returned')
    c.true('%s: iterations' % nm, st['solve'] == stopat if stopat < 9 else st['solve'] >= 2, w, 'the iteration does not stop where the condition holds')
