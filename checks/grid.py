"""Shared vocabulary of the grid checks: kernels replaced by uninterpreted
functions of their arguments, and grids of symbolic or literal extent."""
from phys import *          # noqa


# the other value of every switch that does not change the layout of the state
ALT = {'N': 3, 'DESTRESS': True, 'NO_CORNERS': False, 'PRIM_RECONSTRUCT': True, 'ROTATE_DISTORTION': True, 'RIEMANN_STICK': True,
       'RIEMANN_RELAXATION': False}


def put(it, dst, vals, op='='):
    v = it.mx(dst)
    it.assign(v, Vals(v.rows, v.cols, list(vals)), op)


def args_of(it, x):
    return tuple(it.out(x))


def mpkey(it, MP):
    """A material enters an uninterpreted kernel by name."""
    while isinstance(MP, Loc):
        MP = it.cur(MP)
    while getattr(MP, 'parent', None) is not None:
        MP = MP.parent
    if not isinstance(MP, Rec):
        raise Unmodelled('material argument')
    return S('material:' + MP.name) if MP.idx is None else X.rd('material:' + MP.name, MP.idx)


def direction(d):
    return int(d) if not isinstance(d, Poly) else d


def kernels(it, V, names=('flux', 'source', 'system_matrix', 'max_abs_eigs')):
    """Replace pointwise physics by uninterpreted functions."""
    def ufv(name, d, mp, *xs):
        a = (mpkey(it, mp),) + sum((tuple(x) for x in xs), ())
        return [X.uf('%s%s' % (name, d), i, a) for i in range(V)]

    def flux(self, F, a):
        put(self, a[0], ufv('flux', dirn(self, a[2]), a[3], args_of(self, a[1])), '+=')

    def source(self, F, a):
        put(self, a[0], ufv('source', '', a[2], args_of(self, a[1])))

    def maxeig(self, F, a):
        return X.uf('speed%s' % dirn(self, a[1]), 0, (mpkey(self, a[2]),) + args_of(self, a[0]))

    def sysm(self, F, a):
        return self.mat('sysm', V, V, init=[X.uf('system%s' % dirn(self, a[1]), i, (mpkey(self, a[2]),) + args_of(self, a[0])) for i in range(V * V)])

    def face(nm):
        def h(self, F, a):
            r = ufv(nm, dirn(self, a[2]), a[3], args_of(self, a[0]), args_of(self, a[1]))
            return self.vec(nm, V, init=r)
        return h
    def conv(nm):
        def h(self, F, a):
            put(self, a[0], ufv(nm, '', a[1], args_of(self, a[0])))
        return h
    tab = {'Pvec': conv('Pvec'), 'Cvec': conv('Cvec'), 'flux': flux, 'source': source, 'max_abs_eigs': maxeig, 'system_matrix': sysm}
    for n in ('D_RUS', 'D_ROE', 'D_OSH', 'Bint'):
        tab[n] = face(n)
    for n in names:
        it.opaque[n] = tab[n]
    return ufv


def dirn(it, d):
    d = d if not isinstance(d, Loc) else it.cur(d)
    if isinstance(d, Poly):
        raise Unmodelled('direction is not a constant')
    return int(d)


def glob(it, name):
    """Values of a global constant of the program (row-major list)."""
    for key, g in it.prog.globals.items():
        if g.get('n') == name and 'i' in g:
            k = key if not isinstance(key, tuple) else key[1]
            it.frames.append(drive.IP.Frame(None, g['tt']))
            sv = getattr(it, 'curtu', None)
            it.curtu = g['tu']
            try:
                l = it.gvar({'n': name, 'g': k})
                return it.out(it.mx(it.cur(l)))
            finally:
                it.curtu = sv
                it.frames.pop()
    return spec_const(it, name)


def gauss(n):
    """Gauss-Legendre nodes and weights on [0, 1] (algebraic)."""
    if n == 2:
        r = ONE / X.sqrt(ONE * 3)
        return [(ONE - r) / 2, (ONE + r) / 2], [ONE / 2, ONE / 2]
    if n == 3:
        r = X.sqrt(ONE * 3 / 5)
        return [(ONE - r) / 2, ONE / 2, (ONE + r) / 2], [ONE * 5 / 18, ONE * 4 / 9, ONE * 5 / 18]
    if n == 1:
        return [ONE / 2], [ONE]
    if n == 4:
        s = X.sqrt(ONE * 6 / 5) * 2 / 7
        a, b = X.sqrt(ONE * 3 / 7 - s), X.sqrt(ONE * 3 / 7 + s)
        t = X.sqrt(ONE * 30)
        return ([(ONE - b) / 2, (ONE - a) / 2, (ONE + a) / 2, (ONE + b) / 2],
                [(ONE * 18 - t) / 72, (ONE * 18 + t) / 72, (ONE * 18 + t) / 72, (ONE * 18 - t) / 72])
    raise Unmodelled('no closed form for %d nodes' % n)


def lag(nodes, j, x):
    r = ONE
    for k, n in enumerate(nodes):
        if k != j:
            r = r * (x - n) / (nodes[j] - n)
    return r


def spec_const(it, name):
    n = int(gconst(it.prog, 'N'))
    nodes, w = gauss(n)
    x = S('x')
    if name == 'NODES':
        return nodes
    if name == 'WGHTS':
        return w
    if name == 'ENDVALS':
        return [lag(nodes, j, e) for e in (ZERO, ONE) for j in range(n)]
    if name == 'DERVALS':
        return [subst(diff(lag(nodes, j, x), x), {x: nodes[i]}) for i in range(n) for j in range(n)]
    raise FrontError('constant %s vanished' % name)


def ints(evs_args, L, dims, seed):
    """Integer lanes: every name of dims drawn from its range; later ranges may depend on earlier names."""
    rng = drive.IP.np.random.default_rng(seed)
    out = {}
    for n, f in dims:
        lo, hi = f(out)
        lo = lo if not isinstance(lo, int) else drive.IP.np.full(L, lo)
        hi = hi if not isinstance(hi, int) else drive.IP.np.full(L, hi)
        out[n] = (lo + (rng.random(L) * (hi - lo)).astype(drive.IP.np.int64)).astype(drive.IP.np.int64)
    return out


def gevs(c, dims, n=None, L=None, extra=None, **kw):
    """Interpretations with integer symbols ranging over grids."""
    n = n or (6 if c.thorough else 2)
    L = L or (256 if c.thorough else 96)
    out = []
    for k in range(n):
        iv = ints(None, L, dims, c.seed * 77 + k)
        out.append(Ev(L=L, seed=c.seed * 1000 + k, ints=iv, **kw))
    return out


def rdat(it, v, off):
    """Value of buffer element of a driver vector after the run."""
    return it.readbuf(v.buf, norm(off) if isinstance(off, Poly) else off)


def bd(it, ufv, q, dq, d, MP):
    """Non-conservative product through the program's own routine."""
    V = len(q)
    r = it.vec('bd', V)
    it.run('Bdot', r, it.vec('bq', V, init=list(q)), it.vec('bx', V, init=list(dq)), d, MP)
    return it.out(r)


def srcv(it, q, MP):
    V = len(q)
    r = it.vec('sv', V)
    it.run('source', r, it.vec('sq', V, init=list(q)), MP)
    return it.out(r)


def facev(it, name, ql, qr, d, MP):
    V = len(ql)
    return it.out(it.run(name, it.vec('ql', V, init=list(ql)), it.vec('qr', V, init=list(qr)), d, MP))


def rootuf(it):
    """Equation solver: an uninterpreted function of the residual (as a function
    of a generic vector), the guess and the tolerance."""
    def h(self, F, a):
        g = a[1] if isinstance(a[1], (View, EM)) else self.cur(a[1])
        g = self.out(self.mx(g))
        n = len(g)
        fo = a[0]
        while isinstance(fo, Loc):
            fo = self.cur(fo)
        r = self.invoke(fo, [self.vec('rooty', n, init=[S('rooty%d' % i) for i in range(n)])])
        r = self.out(self.mx(r) if not isinstance(r, (list,)) else r)
        v = rootof(r, g)
        em = self.vec('root', n, init=v)
        return em
    it.opaque['nonlin_solve'] = h


def rootof(resid, guess):
    k = tuple(lift(x) for x in resid) + tuple(lift(x) for x in guess)
    return [X.uf('root', i, k) for i in range(len(guess))]


def svec(it, xs):
    """std::vector holding the given values."""
    ls = []
    for k, x in enumerate(xs):
        l = Loc('elem%d' % k)
        if isinstance(x, View):
            # an owning matrix over the buffer of the view
            em = EM(x.buf, x.rows, x.cols, False, x.kind, x.arr, True, x.cols != 1)
            it.st.mem[l] = em
            it.base_mem[l] = em
        else:
            it.st.mem[l] = x
            it.base_mem[l] = x
        ls.append(l)
    return IP.SVec(ls)
