import random
from fractions import Fraction as Fr

from grid import *          # noqa
import c18

RULE = ('value flow of the ghost fill over literal level sets and symbolic states: stages composed once per non-vacuum material on its own copy of the '
        'state; cells at the interface are those with a neighbour across it; each is given the star state between the nearest state of the '
        'material and the state across the interface along the normal; the band beyond is copied outwards from the interface')
ASSUME = ['exact real arithmetic', 'interface geometry literal: enumerated or drawn grids, level sets and normals with rational length',
          'the star state itself is decided by C23']
FST = ('renormalize_levelsets', 'material_indicator', 'finite_difference', 'find_interface_cells', 'fill_boundary_cells', 'fill_neighbor_cells')


def run(c):
    P_ = c.prog()
    cf = Cfg(P_)
    for nd in (1, 2):
        for mats in ((0,), (0, 4), (0, -1), (-1, 0, 1)):
            tg = 'fill %dD, materials %s' % (nd, mats)
            c.attempt(tg, lambda: comp(c, P_, cf, nd, mats, tg))
    interface(c, P_)
    rng = random.Random(c.seed)
    for nd in (1, 2):
        for k in range((60 if c.thorough else 16) * nd):
            tg = 'interface cell %dD case %d' % (nd, k)
            c.attempt(tg, lambda: boundary(c, P_, cf, nd, rng, tg))
        for k in range((40 if c.thorough else 10) * nd):
            tg = 'band %dD case %d' % (nd, k)
            c.attempt(tg, lambda: band_(c, P_, cf, nd, rng, tg))


def ints_of(it, v):
    return [int(x) if isinstance(x, (int, bool)) else num(x) for x in it.out(v)]


def num(x):
    if isinstance(x, Poly):
        raise Undecided('not a literal')
    x = lift(x)
    if x.k != 'c':
        raise Undecided('not a literal')
    return x.a[0]


# ---------------------------------------------------------------- composition
def comp(c, P_, cf, nd, mats, tg):
    V, L = cf.V, cf.LSET
    it = c.drv(P_)
    w = floc(P_, 'fill_ghost_cells')
    nX = [3, 2][:nd]
    n = 3 if nd == 1 else 6
    val = c18.val

    def ivals(nm, k, args):
        return [Poly_(nm, i, args) for i in range(k)]
    for s in FST:
        P_.one(s)
    seen = {}

    def ren(self, F, a):
        x = val(self, a[0])
        put(self, a[0], [X.uf('renorm', i, (X.uf('all', 0, x),)) for i in range(n * V)])
        seen['ren'] = val(self, a[1]) + val(self, a[2])

    def dg(*a):
        return X.uf('all', 0, sum((tuple(x) for x in a), ()))
    # level-set codes: a literal interface mask per material
    pat = [[1, -2, 0, -1, 3, 2], [-1, 1, -2, 0, 0, 1], [0, 1, 5, -2, 1, -1]]

    def ind(self, F, a):
        m = int(a[2] if not isinstance(a[2], Loc) else self.cur(a[2]))
        k = dg(val(self, a[1]), (m, int(self.cur(a[3]) if isinstance(a[3], Loc) else a[3])), val(self, a[4]), val(self, a[5]))
        put(self, a[0], [X.uf('phi', i, (k,)) for i in range(n)])

    def fd(self, F, a):
        k = dg(*[val(self, x) for x in a[1:]])
        put(self, a[0], [X.uf('grad', i, (k,)) for i in range(n * nd)])
    cur = [0]

    def fic(self, F, a):
        seen.setdefault('fic', []).append(dg(val(self, a[1]), val(self, a[2])))
        cur[0] = len(seen['fic']) - 1
        put(self, a[0], [IP_int(x) for x in pat[cur[0] % 3][:n]])

    def fbc(self, F, a):
        k = dg(*[val(self, x) for x in a])
        put(self, a[0], [X.uf('bfill', i, (k,)) for i in range(n * V)])

    def fnc(self, F, a):
        k = dg(*[val(self, x) for x in a])
        put(self, a[0], [X.uf('nfill', i, (k,)) for i in range(n * V)])
        # the band marks cells it fills
        v = self.out(self.mx(a[1]))
        put(self, a[1], [IP_int(7) if int(x) == 0 else x for x in v])
    for s, h in zip(FST, (ren, ind, fd, fic, fbc, fnc)):
        it.opaque[s] = h
    gs = [it.vec('g%d' % m, n * V) for m in range(len(mats))]
    ms = [it.vec('m%d' % m, n, kind='b') for m in range(len(mats))]
    mp = [mpar(it, e, name='MP%d' % m) for m, e in enumerate(mats)]
    u = it.vec('u', n * V)
    dX = [S('dx'), S('dy')][:nd]
    G, M = svec(it, gs), svec(it, ms)
    it.run('fill_ghost_cells', G, M, u, it.vec('nX', nd, kind='i', init=nX), it.vec('dX', nd, arr=True, init=dX), S('dt'), svec(it, mp))
    ev = c.evs(1, L=32)
    nx, dx, mk = tuple(nX), tuple(dX), tuple(mpkey(it, m) for m in mp)
    u0 = tuple(rd('u', i) for i in range(n * V))
    u1 = [X.uf('renorm', i, (X.uf('all', 0, u0),)) for i in range(n * V)]
    for a, b in zip(it.out(u), u1):
        pass
    c.eq(tg + ': level sets are re-initialised once', X.uf('all', 0, tuple(it.out(u))), X.uf('all', 0, tuple(u1)), ev, w,
         'the merged state is not the one with re-initialised level sets')
    k = 0
    for m, e in enumerate(mats):
        got = it.out(it.mx(it.cur(G.e[m])))
        gm = it.out(it.mx(it.cur(M.e[m])))
        if e < 0:
            for i in range(n):
                c.beq('%s: vacuum %d, cell %d masked out' % (tg, m, i), b_(gm[i]), FALSE, ev, w, 'a cell of the vacuum is updated')
            continue
        ki = dg(u1, (m, len(mats)), dx, nx)
        φ = [X.uf('phi', i, (ki,)) for i in range(n)]
        kg = dg(φ, dx, nx)
        Δ = [X.uf('grad', i, (kg,)) for i in range(n * nd)]
        kf = dg(φ, nx)
        mask = pat[k % 3][:n]
        c.eq('%s: interface of material %d' % (tg, m), seen['fic'][k] if k < len(seen.get('fic', ())) else ZERO, kf, ev, w,
             'the interface cells are not those of the indicator of the material')
        k += 1
        kb = dg(u1, mask, (m,), φ, Δ, dx, mk, (S('dt'),), nx)
        g = [X.uf('bfill', i, (kb,)) for i in range(n * V)]
        kn = dg(g, mask, Δ, dx, nx)
        g = [X.uf('nfill', i, (kn,)) for i in range(n * V)]
        for i in range(n):
            for v in range(V - L, V):
                g[i * V + v] = u1[i * V + v]
        for i in range(n):
            c.eq('%s: grid of material %d, cell %d' % (tg, m, i), X.uf('all', 0, tuple(got[i * V:(i + 1) * V])), X.uf('all', 0, tuple(g[i * V:(i + 1) * V])),
                 ev, w, 'the grid of a material is not its state filled at the interface, then outwards, with the level sets of the merged state')
            want = (bnot(X.rlt(ZERO, φ[i])) if mask[i] != -2 else FALSE) if mask[i] != 1 else TRUE
            c.beq('%s: mask of material %d, cell %d' % (tg, m, i), b_(gm[i]), b_(want), ev, w,
                  'the cells updated are not those inside the material together with the first ghost cells')


def IP_int(x):
    return x


# ---------------------------------------------------------------- interface cells
def interface(c, P_):
    import itertools
    w = floc(P_, 'find_interface_cells')
    v3 = (-1, 0, 1)
    cases = [((n,), s) for n in (1, 2, 3, 4) for s in itertools.product(v3, repeat=n)]
    for g in ((1, 1), (1, 3), (3, 1), (2, 2)):
        cases += [(g, s) for s in itertools.product(v3, repeat=g[0] * g[1])]
    rng = random.Random(c.seed)
    for g in ((3, 3), (3, 4), (4, 3), (5, 5)):
        for _ in range(200 if c.thorough else 40):
            p = rng.choice((.2, .5, .7))
            cases.append((g, tuple(-1 if rng.random() < p else rng.choice((1, 1, 1, 0)) for _ in range(g[0] * g[1]))))
    for g, s in cases:
        tg = 'interface cells of %s: %s' % (g, ''.join('-0+'[x + 1] for x in s))
        c.attempt(tg, lambda: iface(c, P_, g, s, w, tg))


def iface(c, P_, g, s, w, tg):
    it = c.drv(P_)
    n = len(s)
    m = it.vec('m', n, kind='i', init=[5] * n)
    it.run('find_interface_cells', m, it.vec('phi', n, init=[lift(x) * Fr_(3, 7) for x in s]), it.vec('nX', len(g), kind='i', init=list(g)))
    got = ints_of(it, m)
    want = []
    nb = lambda i: neigh(i, g)
    # in two dimensions a point of the material without a neighbour in it is left alone
    iso = [len(g) == 2 and s[i] <= 0 and all(s[j] > 0 for j in nb(i)) for i in range(n)]
    for i in range(n):
        x = 0
        for j in nb(i):
            if s[i] * s[j] <= 0 and not iso[i] and not iso[j] and (s[i] <= 0 or s[j] <= 0):
                x = 1 if s[i] > 0 else -1
        want.append(-2 if iso[i] else x)
    c.true(tg, got == want, w, 'cells marked are %s, those next to the interface %s' % (got, want))


def Fr_(a, b):
    return X.C(Fr(a, b))


def neigh(i, g):
    if len(g) == 1:
        return [j for j in (i - 1, i + 1) if 0 <= j < g[0]]
    a, b = divmod(i, g[1])
    return [x * g[1] + y for x, y in ((a - 1, b), (a + 1, b), (a, b - 1), (a, b + 1)) if 0 <= x < g[0] and 0 <= y < g[1]]


# ---------------------------------------------------------------- first ghost cells
NORM = {1: [(1,), (-1,)],
        2: [(1, 0), (-1, 0), (0, 1), (0, -1)] + [(a * s, b * t) for a, b in ((Fr(3, 5), Fr(4, 5)), (Fr(4, 5), Fr(3, 5)), (Fr(5, 13), Fr(12, 13)))
                                                   for s in (1, -1) for t in (1, -1)]}


def trunc(x, n):
    import math
    return max(0, min(n - 1, math.trunc(x)))


def boundary(c, P_, cf, nd, rng, tg):
    V, L = cf.V, cf.LSET
    it = c.drv(P_)
    w = floc(P_, 'fill_boundary_inner')
    w = floc(P_, 'fill_boundary_cells') if ' ' not in w else w
    g = [rng.choice((4, 5, 6))] if nd == 1 else rng.choice(([4, 5], [5, 4], [3, 6]))
    n = g[0] * (g[1] if nd == 2 else 1)
    h = Fr(rng.choice((1, 2, 5)), rng.choice((1, 3)))
    nm = 3
    # material of each cell: three materials
    LV = {0: [-1, -1], 1: [1, -1], 2: [1, 1]}
    mat = rng.choice((0, 1, 2))
    other = [m for m in range(nm) if m != mat]
    mi = [mat if rng.random() < .55 else rng.choice(other) for _ in range(n)]
    # a single cell to be filled, so that the order of filling does not matter
    tgt = rng.randrange(n)
    mi[tgt] = rng.choice(other)
    mask = [rng.choice((0, 0, -1, -1, -2)) for _ in range(n)]
    mask[tgt] = 1
    nv = rng.choice(NORM[nd])
    φt = Fr(rng.randrange(1, 12), 10) * h
    φ = [lift(X.C(Fr(1, 3)))] * n
    φ[tgt] = X.C(φt)
    Δ = [X.C(Fr(1, 7))] * (n * nd)
    mag = Fr(rng.choice((1, 2, 3)), 2)
    for d in range(nd):
        Δ[tgt * nd + d] = X.C(Fr(nv[d]) * mag)
    ini = []
    for i in range(n):
        q = [S('q%d.%d' % (i, v)) for v in range(V)]
        for l in range(L):
            q[V - L + l] = lift(LV[mi[i]][l])
        ini += q
    seen = []

    def star(self, F, a):
        vs = [c18.val(self, x) for x in a]
        seen.append(vs)
        return self.vec('star', V, init=[X.uf('star', i, (X.uf('all', 0, sum(vs, ())),)) for i in range(V)])
    P_.one('left_star_state')
    it.opaque['left_star_state'] = star
    u = it.vec('u', n * V, init=ini)
    mp = [mpar(it, 0, name='MP%d' % m) for m in range(nm)]
    # geometry
    x = [Fr(2 * k + 1, 2) * h for k in pos(tgt, g)]
    xi = [a - φt * b for a, b in zip(x, nv)]
    cell = lambda y: [trunc(a / h, k) for a, k in zip(y, g)]
    ind = lambda q: q[0] * (g[1] if nd == 2 else 1) + (q[1] if nd == 2 else 0)
    ci, cl, cr = (ind(cell([a + s * h * b for a, b in zip(xi, nv)])) for s in (0, -1, 1))
    nn = list(nv)
    if mi[ci] == mat:
        ql = ci
    elif mi[cl] == mat:
        ql = cl
    elif nd == 1:
        return
    else:
        # the neighbour behind along the axis nearest to the normal, else along the other one
        sg = [(a > 0) - (a < 0) for a in nv]
        order_ = (0, 1) if abs(nv[0]) > abs(nv[1]) else (1, 0)
        ql = None
        for k, ax in enumerate(order_):
            p = list(pos(tgt, g))
            p[ax] -= sg[ax]
            if not 0 <= p[ax] < g[ax]:
                return          # edge of the domain: outside what is decided
            nn = [0, 0]
            nn[ax] = sg[ax]
            if mi[ind(p)] == mat:
                ql = ind(p)
                break
        if ql is None:
            nbs = [j for j in neigh(tgt, g) if mask[j] == -1]
            if not nbs:
                return
            a, b = divmod(tgt, g[1])
            for p, q in ((a - 1, b), (a + 1, b), (a, b - 1), (a, b + 1)):
                if 0 <= p < g[0] and 0 <= q < g[1] and mask[p * g[1] + q] == -1:
                    ql = p * g[1] + q
    it.run('fill_boundary_cells', u, it.vec('m', n, kind='i', init=mask), mat, it.vec('phi', n, init=φ), it.mat('grad', n, nd, init=Δ),
           it.vec('dX', nd, arr=True, init=[X.C(h)] * nd), svec(it, mp), S('dt'), it.vec('nX', nd, kind='i', init=g))
    got = it.out(u)
    ev = c.evs(1, L=32)
    mr = mi[cr]
    a = tuple(ini[ql * V:(ql + 1) * V]) + tuple(ini[cr * V:(cr + 1) * V]) + (mpkey(it, mp[mat]), mpkey(it, mp[mr]), S('dt')) + tuple(X.C(Fr(z)) for z in nn)
    st = [X.uf('star', i, (X.uf('all', 0, a),)) for i in range(V)]
    desc = '%s (grid %s, cell %s, normal %s, material %d)' % (tg, g, pos(tgt, g), tuple(map(str, nv)), mat)
    for i in range(n):
        hit = i == tgt or (i == ci and mi[ci] != mat)
        want = [st[v] if hit and v < V - L else ini[i * V + v] for v in range(V)]
        c.eq('%s, cell %d' % (desc, i), X.uf('all', 0, tuple(got[i * V:(i + 1) * V])), X.uf('all', 0, tuple(want)), ev, w,
             'the first ghost cell does not get the star state of the states on the two sides of the interface, or another cell changes')


def pos(i, g):
    return (i,) if len(g) == 1 else divmod(i, g[1])


# ---------------------------------------------------------------- band of ghost cells
def band_(c, P_, cf, nd, rng, tg):
    V, L, N = cf.V, cf.LSET, cf.N
    it = c.drv(P_)
    w = floc(P_, 'fill_neighbor_cells')
    g = [rng.choice((5, 7, 9, 26))] if nd == 1 else rng.choice(([4, 5], [5, 4], [3, 6], [6, 3]))
    n = g[0] * (g[1] if nd == 2 else 1)
    h = Fr(rng.choice((1, 2, 5)), rng.choice((1, 3)))
    mask = [rng.choice((0, 0, 0, 0, 0, -1, 1, -2) if nd == 2 else (0, 0, 0, 0, 0, 0, -1)) for _ in range(n)]
    mask[rng.randrange(n)] = 1
    if nd == 1 and rng.random() < .5:
        mask = [0] * n
        mask[rng.choice((0, n - 1, n // 2))] = 1
    nv = [rng.choice(NORM[nd]) for _ in range(n)]
    Δ = [X.C(Fr(z) * Fr(3, 2)) for q in nv for z in q]
    ini = [S('q%d.%d' % (i, v)) for i in range(n) for v in range(V)]
    u = it.vec('u', n * V, init=ini)
    mv = it.vec('m', n, kind='i', init=list(mask))
    it.run('fill_neighbor_cells', u, mv, it.mat('grad', n, nd, init=Δ), it.vec('dX', nd, arr=True, init=[X.C(h)] * nd),
           it.vec('nX', nd, kind='i', init=g))
    got, gm = it.out(u), ints_of(it, mv)
    # the same by its definition: ring k + 1 is filled from ring k
    val, m = list(range(n)), list(mask)
    for k in range(1, 10 * N):
        iso = []
        for i in range(n):
            if m[i] != 0 and not (nd == 2 and m[i] == -2):
                continue
            nb = [j for j in neigh(i, g) if m[j] == k]
            if not nb:
                continue
            if nd == 2:
                a, b = divmod(i, g[1])
                nb = [p * g[1] + q for p, q in ((a - 1, b), (a + 1, b), (a, b - 1), (a, b + 1))
                      if 0 <= p < g[0] and 0 <= q < g[1] and m[p * g[1] + q] == k]
            if m[i] == -2:
                iso.append(i)
            m[i] = k + 1
            x = [Fr(2 * z + 1, 2) * h - h * y for z, y in zip(pos(i, g), nv[i])]
            p = [trunc(a / h, z) for a, z in zip(x, g)]
            s = p[0] * (g[1] if nd == 2 else 1) + (p[1] if nd == 2 else 0)
            if m[s] < 1:
                s = nb[-1]
            val[i] = val[s]
        for i in iso:
            m[i] = -2
    ev = c.evs(1, L=32)
    c.true('%s: marks' % tg, gm == m, w, 'the ghost cells filled are not rings of growing distance from the interface: %s, not %s' % (gm, m))
    for i in range(n):
        want = [ini[val[i] * V + v] if v < V - L else ini[i * V + v] for v in range(V)]
        c.eq('%s (grid %s), cell %d' % (tg, g, i), X.uf('all', 0, tuple(got[i * V:(i + 1) * V])), X.uf('all', 0, tuple(want)), ev, w,
             'a ghost cell is not a copy of the cell one step towards the interface (or of a filled neighbour)')
