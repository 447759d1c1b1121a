"""Shared vocabulary of the physics checks: symbolic states and materials."""
from chk import *          # noqa

EOS = {'STIFFENED_GAS': 0, 'SHOCK_MG': 1, 'JWL': 2, 'COCHRAN_CHAN': 3, 'GODUNOV_ROMENSKI': 4}
REACTIONS = {'DISCRETE': 0, 'ARRHENIUS': 1, 'IGNITION_GROWTH': 2}
POS = ['ρ', 'p', 'ρ1', 'ρ2', 'MP.ρ0', 'MP.MP2.ρ0', 'MP.cv', 'MP.b02', 'MP.cα2', 'MP.γ', 'MP.Γ0', 'MP.c02', 'MP.Tref', 'MP.τ0',
       'MP.MP2.cv', 'MP.MP2.b02', 'MP.μ', 'MP.σY', 'MP.n', 'MP.α', 'MP.β', 'MP.bf2', 'MP.bs2', 'MP.τf', 'MP.τs', 'MP.κ',
       'MP.MP2.Γ0', 'MP.MP2.γ', 'MP.MP2.c02', 'det']


def gconst(prog, name):
    """Value of an integral or boolean configuration constant."""
    for g in prog.globals.values():
        if g.get('n') == name and 'cv' in g:
            return g['cv']
    for g in prog.globals.values():
        if g.get('n') == name:
            it = Drv(prog)
            it.frames.append(drive.IP.Frame(None, g['tt']))
            it.curtu = g['tu']
            it.file = g['file']
            v = it.eval(g['i'])
            return v
    raise FrontError('constant %s vanished' % name)


class Cfg:
    """Layout of the state vector in one configuration."""

    def __init__(self, prog):
        g = lambda n: int(gconst(prog, n))
        self.N, self.V, self.mV, self.LSET = g('N'), g('V'), g('mV'), g('LSET')
        self.THERMAL, self.VISCOUS, self.MULTI = bool(g('THERMAL')), bool(g('VISCOUS')), bool(g('MULTI'))
        n = ['ρ', 'ρE', 'ρv0', 'ρv1', 'ρv2']
        k = 5
        if self.VISCOUS:
            n += ['A%d%d' % (i, j) for i in range(3) for j in range(3)]
        if self.THERMAL:
            n += ['ρJ0', 'ρJ1', 'ρJ2']
        self.iJ = 14
        while len(n) < self.V:
            n.append('λ' if self.MULTI and len(n) == self.mV else 'φ%d' % (len(n) - (self.V - self.LSET)))
        self.names = n[:self.V]

    def state(self, it, suffix='', name='Q'):
        return it.vec(name + suffix, self.V, init=[S(x + suffix) for x in self.names])


def mpar(it, eos=0, multi=False, reaction=-1, solid=None, power=None, bingham=None, name='MP', eos2=0, **kw):
    f = dict(EOS=eos, MULTI=multi, REACTION=reaction)
    if solid is not None:
        f['SOLID'] = solid
    if power is not None:
        f['POWER_LAW'] = power
    if bingham is not None:
        f['BINGHAM'] = bingham
    f.update(kw)
    r = it.par(name, **f)
    r2 = it.par(name + '.MP2', cls='Params', EOS=eos2)
    l = Loc(name + '.MP2')
    r.f['MP2'] = l
    it.base_mem[l] = r2
    it.st.mem[l] = r2
    return r


def configs(c, multi=True, thermal=True):
    """Build configurations covered: the committed one first."""
    out = [{}]
    if thermal:
        out.append({'THERMAL': True})
    if multi:
        out.append({'MULTI': True})
    if c.thorough and multi and thermal:
        out.append({'MULTI': True, 'THERMAL': True})
    return out


def cfgtag(o):
    return '[' + ('+'.join(k if v is True else '%s=%s' % (k, v) for k, v in o.items()) or 'default') + ']'


def sumsq(v):
    s = ZERO
    for x in v:
        s = s + x * x
    return s


def gram(A):
    """A^T A for row-major A."""
    return [[sum3([A[3 * k + i] * A[3 * k + j] for k in range(3)]) for j in range(3)] for i in range(3)]


def sum3(xs):
    s = ZERO
    for x in xs:
        s = s + x
    return s


def devG2(A):
    G = gram(A)
    t = (G[0][0] + G[1][1] + G[2][2]) / 3
    s = ZERO
    for i in range(3):
        for j in range(3):
            d = G[i][j] - t if i == j else G[i][j]
            s = s + d * d
    return s


def AdevG(A):
    G = gram(A)
    t = (G[0][0] + G[1][1] + G[2][2]) / 3
    D = [[G[i][j] - t if i == j else G[i][j] for j in range(3)] for i in range(3)]
    return [[sum3([A[3 * i + k] * D[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]


def matvec(M, x):
    return [sum3([a * b for a, b in zip(r, x)]) for r in M]


def matmul(A, B):
    return [[sum3([A[i][k] * B[k][j] for k in range(len(B)) if A[i][k] is not ZERO and B[k][j] is not ZERO])
             for j in range(len(B[0]))] for i in range(len(A))]


def rows(vals, n):
    return [vals[i * n:(i + 1) * n] for i in range(len(vals) // n)]
