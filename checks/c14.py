from grid import *          # noqa
import c34 as bounds

RULE = ('value-numbering on a grid of symbolic size: the reconstruction in every cell is the weighted mean of the polynomials that match the '
        'cell averages of its stencils with the oscillation-dependent weights; it reproduces constants, keeps the cell average, is exact '
        'for polynomial data the stencils resolve, and next to corners uses only the stencil away from the corner')
ASSUME = ['exact real arithmetic', 'at least two cells in every direction']


class Weno:
    def __init__(self, it, N, LAMS, LAMC, EPS):
        self.N, self.LS, self.LC, self.E = N, LAMS, LAMC, EPS
        nodes, w = gauss(N)
        self.nodes, self.w = nodes, w
        x = S('x')
        psi = [lag(nodes, j, x) for j in range(N)]
        # monomial coefficients of the basis by differentiation at 0
        co = []
        for f in psi:
            cs, g, fact = [], f, 1
            for k in range(N):
                cs.append(subst(g, {x: ZERO}) / fact)
                g = diff(g, x)
                fact *= k + 1
            co.append(cs)
        self.co = co

        def integ(c_, a, b):
            return sum3([c_[k] * (ONE * (b ** (k + 1) - a ** (k + 1))) / (k + 1) for k in range(len(c_))])
        self.st = []
        offs = [(-(N - 1), 'L', self.LS), (0, 'R', self.LS)]
        if N > 2:
            F2, C2 = (N - 1) // 2, (N - 1) - (N - 1) // 2
            offs.append((-C2, 'CL', self.LC))
            if N % 2 == 0:
                offs.append((-F2, 'CR', self.LC))
        for o, nm, lam in offs:
            M = [integ(co[j], i + o, i + o + 1) for i in range(N) for j in range(N)]
            inv = it.inverse(M, N)
            self.st.append((o, nm, lam, it.out(inv) if not isinstance(inv, list) else inv))
        # oscillation indicator: sum of the L2 products of all derivatives
        self.sig = [[ZERO] * N for _ in range(N)]
        for i in range(N):
            for j in range(N):
                a, b = list(co[i]), list(co[j])
                t = ZERO
                for _ in range(1, N):
                    a = [a[k] * k for k in range(1, len(a))]
                    b = [b[k] * k for k in range(1, len(b))]
                    pr = [ZERO] * (len(a) + len(b) - 1)
                    for m, y in enumerate(a):
                        for n, z in enumerate(b):
                            pr[m + n] = pr[m + n] + y * z
                    t = t + integ(pr, 0, 1)
                self.sig[i][j] = t

    def coeffs(self, data, use=None):
        """data[k] = average of the cell at distance k from the left end of the stencil (centre N-1)."""
        N = self.N
        num, den = [ZERO] * N, ZERO
        for o, nm, lam, inv in self.st:
            d = [data[N - 1 + o + k] for k in range(N)]
            w = [sum3([inv[i * N + k] * d[k] for k in range(N)]) for i in range(N)]
            t = sum3([w[i] * self.sig[i][j] * w[j] for i in range(N) for j in range(N)]) + self.E
            om = lam / (((t * t) * (t * t)) * ((t * t) * (t * t)))
            if use is not None and nm in use:
                om = ite(use[nm], om, ZERO)
            num = [a + b * om for a, b in zip(num, w)]
            den = den + om
        return [a / den for a in num]


def run(c):
    bounds.direct(c, c.prog(), ('weno_launcher',))
    for opts, tag in (({}, ''), (ALT, '[ALT] ')) + (({'N': 3}, '[N=3] '), ({'N': 4}, '[N=4] ')):
        cover(c, opts, tag)


def cover(c, opts, tag):
    P_ = c.prog(**opts)
    cf = Cfg(P_)
    V, N = cf.V, cf.N
    w = floc(P_, 'weno_launcher')
    PRIM = bool(gconst(P_, 'PRIM_RECONSTRUCT'))
    NOC = bool(gconst(P_, 'NO_CORNERS'))
    num = lambda n: lift(gconst(P_, n))
    G = N - 1
    comps = range(V)
    msg = 'the reconstruction is not the weighted mean of the stencil polynomials'

    def prim(it, q, MP, back=False):
        if not PRIM:
            return q
        v = it.vec('pq', V, init=list(q))
        it.run('Cvec' if back else 'Pvec', v, MP)
        return it.out(v)

    def one(sub, sy, op):
        for nx in ([psym('nx')] if sy else sub.grids(1, 2)):
            it = sub.drv(P_)
            if op:
                kernels(it, V, ('Pvec', 'Cvec'))
            MP = mpar(it, 0)
            W = Weno(it, N, num('LAMS'), num('LAMC'), num('EPS'))
            n2 = padd(nx, 2)
            wh = it.vec('wh', pmul(n2, N * V))
            ub = it.vec('ub', pmul(padd(nx, 2 * N), V))
            it.run('weno_launcher', wh, ub, it.vec('nX', 1, kind='i', init=[nx]), MP)
            ev = gevs(sub, [('nx', lambda o: (1, 6)), ('i', lambda o: (0, o['nx'] + 2))], positive=POS)
            for i in ([psym('i')] if sy else range(nx + 2)):
                rows_ = [prim(it, [rd('ub', padd(pmul(padd(i, k), V), v)) for v in range(V)], MP) for k in range(2 * N - 1)]
                rc = [W.coeffs([rows_[k][v] for k in range(2 * N - 1)]) for v in range(V)]
                for a in range(N):
                    want = prim(it, [rc[v][a] for v in range(V)], MP, True)
                    got = [rdat(it, wh, padd(pmul(padd(pmul(i, N), a), V), v)) for v in range(V)]
                    for v in comps:
                        sub.eq('%s1D node %d, %s%s' % (tag, a, cf.names[v], '' if sy else ' cell %s of %s' % (i, nx)), got[v], want[v], ev, w, msg)
                if PRIM or opts:
                    continue
                # consequences stated directly
                vs = [rdat(it, wh, padd(pmul(padd(pmul(i, N), a), V), 0)) for a in range(N)]
                av = sum3([W.w[a] * vs[a] for a in range(N)])
                sub.eq('%s1D cell average%s' % (tag, '' if sy else ' cell %s of %s' % (i, nx)), av, rows_[N - 1][0], ev, w,
                       'the reconstruction does not keep the cell average')
                con = {rows_[k][0]: S('K') for k in range(2 * N - 1)}
                lin = {rows_[k][0]: S('K') + S('M') * (ONE * k) for k in range(2 * N - 1)}
                for a in range(N):
                    sub.eq('%s1D constant data, node %d%s' % (tag, a, '' if sy else ' cell %s of %s' % (i, nx)), subst(vs[a], con), S('K'), ev, w,
                           'constant data are not reproduced')
                    sub.eq('%s1D linear data, node %d%s' % (tag, a, '' if sy else ' cell %s of %s' % (i, nx)), subst(vs[a], lin),
                           S('K') + S('M') * (ONE * (N - 1) + W.nodes[a] - ONE / 2), ev, w, 'linear data are not reproduced')
    c.staged(tag + '1D', one)
    if opts and not c.thorough:
        comps2 = [0, 3, V - 1]
    else:
        comps2 = range(V)

    def two(sub, sy, op):
        for nx, ny in ([(psym('nx'), psym('ny'))] if sy else sub.grids((2, 3), (3, 2))):
            it = sub.drv(P_)
            if op:
                kernels(it, V, ('Pvec', 'Cvec'))
            MP = mpar(it, 0)
            W = Weno(it, N, num('LAMS'), num('LAMC'), num('EPS'))
            n2, m2 = padd(nx, 2), padd(ny, 2)
            NY = padd(ny, 2 * N)
            wh = it.vec('wh', pmul(pmul(n2, m2), N * N * V))
            ub = it.vec('ub', pmul(pmul(padd(nx, 2 * N), NY), V))
            it.run('weno_launcher', wh, ub, it.vec('nX', 2, kind='i', init=[nx, ny]), MP)
            ev = gevs(sub, [('nx', lambda o: (N, 6)), ('ny', lambda o: (N, 6)), ('i', lambda o: (0, o['nx'] + 2)), ('j', lambda o: (0, o['ny'] + 2))],
                      positive=POS)
            cells = [(psym('i'), psym('j'))] if sy else [(a, b) for a in range(nx + 2) for b in range(ny + 2)]
            for i, j in cells:
                P_cell = {}

                def src(k, l):
                    """Data row k (x) and l (y) of the stencil of cell i, j."""
                    if (k, l) not in P_cell:
                        o = pmul(padd(pmul(padd(i, k), NY), padd(j, l)), V)
                        P_cell[k, l] = prim(it, [rd('ub', padd(o, v)) for v in range(V)], MP)
                    return P_cell[k, l]
                xs = []
                for l in range(2 * N - 1):
                    J = padd(j, l)
                    use = None
                    if NOC:
                        edge = bor(ilt(J, N), ilt(padd(NY, -N - 1), J))
                        ok_l = ige(i, N)
                        ok_r = ile(i, padd(n2, -N - 1))
                        use = {'L': bor(bnot(edge), ok_l), 'R': bor(bnot(edge), ok_r)}
                        if N > 2:
                            F2 = (N - 1) // 2
                            use['CL'] = bor(bnot(edge), ige(padd(i, F2), N))
                            use['CR'] = bor(bnot(edge), ile(padd(i, -F2), padd(n2, -N - 1)))
                    xs.append([W.coeffs([src(k, l)[v] for k in range(2 * N - 1)], use) for v in range(V)])
                use = None
                if NOC:
                    edge = bor(ieq(i, 0), ieq(i, padd(n2, -1)))
                    use = {'L': bor(bnot(edge), ige(j, 1)), 'R': bor(bnot(edge), ile(j, padd(m2, -2)))}
                for a in range(N):
                    rc = [W.coeffs([xs[l][v][a] for l in range(2 * N - 1)], use) for v in range(V)]
                    for b in range(N):
                        want = prim(it, [rc[v][b] for v in range(V)], MP, True)
                        o = pmul(padd(pmul(padd(pmul(padd(pmul(i, m2), j), N), a), N), b), V)
                        for v in comps2:
                            sub.eq('%s2D node %d,%d, %s%s' % (tag, a, b, cf.names[v], '' if sy else ' cell %s,%s of %sx%s' % (i, j, nx, ny)),
                                   rdat(it, wh, padd(o, v)), want[v], ev, w, msg)
    if not PRIM:
        c.staged(tag + '2D', two)
