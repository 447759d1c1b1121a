import itertools
import random
from fractions import Fraction as Fr

from grid import *          # noqa

RULE = ('value graph of the merge with literal level sets and masks and symbolic states: level sets are the mean over the materials whose mask is '
        'set (else kept), the cell takes the state of the material selected by the merged level sets, vacuum is empty; the concentration '
        'becomes its projection onto [0, density]')
ASSUME = ['exact real arithmetic', 'level-set values and masks enumerated or drawn literally; all other components symbolic']


def run(c):
    P_ = c.prog()
    cf = Cfg(P_)
    w = floc(P_, 'get_material_index')
    vals = (Fr(-2), Fr(-1, 10 ** 9), Fr(0), Fr(1, 10 ** 9), Fr(3))
    for o in ({}, {'LSET': 0}, {'LSET': 1}, {'LSET': 3}):
        c.attempt('selection ' + cfgtag(o), lambda: select(c, c.prog(**o), vals, cfgtag(o)))
    rng = random.Random(c.seed)
    for o in ({}, {'LSET': 1}) + (({'LSET': 3}, {'THERMAL': True}) if c.thorough else ()):
        P2 = c.prog(**o)
        cf2 = Cfg(P2)
        for k in range(40 if c.thorough else 14):
            nm = 1 + rng.randrange(cf2.LSET + 1)
            eos = tuple(rng.choice((-1, 0, 0, 4, 1)) for _ in range(cf2.LSET + 1))
            c.attempt('merge %s %d' % (cfgtag(o), k), lambda: merge(c, P2, cf2, rng, eos, 'merge %s %d' % (cfgtag(o), k)))
    for o in ({}, {'MULTI': True}):
        c.attempt('concentration ' + cfgtag(o), lambda: limit(c, c.prog(**o), cfgtag(o)))


def select(c, P_, vals, tag):
    cf = Cfg(P_)
    w = floc(P_, 'get_material_index')
    for lv in itertools.product(vals, repeat=cf.LSET):
        it = c.drv(P_)
        Q = it.vec('Q', cf.V, init=[S('q%d' % i) for i in range(cf.V - cf.LSET)] + [lift(x) for x in lv])
        r = it.run('get_material_index', Q)
        c.true('selection %s, level sets %s' % (tag, ' '.join(map(str, lv))), num(r) == sum(x >= 0 for x in lv), w,
               'the material of a cell is not the number of its non-negative level sets')


def num(x):
    if isinstance(x, (int, bool)):
        return int(x)
    if isinstance(x, Poly):
        raise Undecided('not a literal')
    x = lift(x)
    return x.a[0] if x.k == 'c' else None


def merge(c, P_, cf, rng, eos, tg):
    V, L = cf.V, cf.LSET
    w = floc(P_, 'make_u')
    nc, nm = 2, len(eos)
    pool = (Fr(-3), Fr(-1), Fr(-1, 2), Fr(0), Fr(1, 2), Fr(1), Fr(5, 2))
    it = c.drv(P_)

    def grid(nm):
        lv = [[rng.choice(pool) for _ in range(L)] for _ in range(nc)]
        ini = [S('%s%d.%d' % (nm, i, v)) if v < V - L else lift(lv[i][v - V + L]) for i in range(nc) for v in range(V)]
        return it.vec(nm, nc * V, init=ini), lv, ini
    u, ul, ui = grid('u')
    gs = [grid('g%d_' % m) for m in range(nm)]
    ml = [[rng.random() < .55 for _ in range(nc)] for _ in range(nm)]
    ms = [it.vec('mask%d' % m, nc, kind='b', init=list(ml[m])) for m in range(nm)]
    mp = [mpar(it, e, name='MP%d' % m) for m, e in enumerate(eos)]
    it.run('make_u', u, svec(it, [g[0] for g in gs]), svec(it, ms), svec(it, mp))
    got = it.out(u)
    ev = c.evs(1, L=32)
    for i in range(nc):
        on = [m for m in range(nm) if ml[m][i]]
        lv = [sum(gs[m][1][i][l] for m in on) / len(on) for l in range(L)] if on else ul[i]
        mi = sum(x >= 0 for x in lv)
        for v in range(V):
            if v >= V - L:
                want = lift(lv[v - V + L])
                msg = 'a level set is not the mean over the materials updated in the cell'
            else:
                want = ZERO if eos[mi] < 0 else gs[mi][2][i * V + v]
                msg = 'the cell does not take the state of the material its level sets select (vacuum: nothing)'
            c.eq('%s, cell %d, %s' % (tg, i, cf.names[v]), got[i * V + v], want, ev, w, msg)


def limit(c, P_, tag):
    cf = Cfg(P_)
    V = cf.V
    it = c.drv(P_)
    w = floc(P_, 'limit_concentration')
    u = it.vec('u', 2 * V)
    it.run('limit_concentration', u)
    got = it.out(u)
    ev = order.ev2s(c.evs(), L=256)
    for i in range(2):
        for v in range(V):
            x = rd('u', i * V + v)
            if cf.MULTI and v == cf.mV:
                x = X.tmax(ZERO, X.tmin(x, rd('u', i * V)))
                c.feq('concentration %s, cell %d' % (tag, i), got[i * V + v], x, ev, w, 'the partial density is not limited to [0, density]')
            else:
                c.eq('concentration %s, cell %d, %s' % (tag, i, cf.names[v]), got[i * V + v], x, ev, w, 'limiting changes something else')
