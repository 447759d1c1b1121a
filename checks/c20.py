from fractions import Fraction as Fr
from grid import *          # noqa
import c18

RULE = ('value flow through the time loop with literal step lengths and opaque stages: every stored snapshot is the state of the first step '
        'that reaches its time mark (one per step), all lie inside the returned list, the last entry is the final state, and a state '
        'containing NaN ends the run at once with its predecessor and itself appended')
ASSUME = ['exact real arithmetic', 'step lengths from a list of literal sequences']


def simulate(steps, nan):
    """(index -> step number) of the returned list; step 0 is the initial state."""
    out, t, p = {}, Fr(0), 0
    for k, s in enumerate(steps, 1):
        t += Fr(s)
        if t >= Fr(p + 1, 100):
            out[p] = k
            p += 1
        if k == nan:
            p = min(p, 98)
            out[p] = k - 1
            out[p + 1] = k
            return out
    out[99] = len(steps)
    return out


def run(c):
    P_ = c.prog()
    cf = Cfg(P_)
    V = cf.V
    w = floc(P_, 'iterator')
    seqs = [['1'], ['1/2', '1/2'], ['1/100'] * 100, ['1/40'] * 40, ['1/110'] * 110, ['9/10', '1/50'] + ['1/300'] * 24,
            ['1/1000'] * 3 + ['997/1000']]
    if c.thorough:
        seqs += [['1/230'] * 230, ['1/3'] * 3, ['1/200'] * 200]
    for si, steps in enumerate(seqs):
        for ni, nan in enumerate([None, 1, len(steps)] + ([len(steps) // 2] if len(steps) > 3 else []) + ([len(steps) - 1] if len(steps) > 50 else [])):
            tg = '%d steps of %s%s' % (len(steps), steps[0], '' if nan is None else ', NaN in step %d' % nan)

            at = (V + 1, 2 * V - 1, 0, V - 1, 2)[(si + ni) % 5]

            def go(nan=nan, steps=steps, at=at):
                it = c.drv(P_)
                k = [0]

                def stage(nm):
                    def h(self, F, a):
                        return None
                    return h
                for s in c18.STAGES:
                    P_.one(s)
                    it.opaque[s] = stage(s)
                L = [lift(Fr(s)) for s in steps]

                def ts(self, F, a):
                    k[0] += 1
                    if k[0] > len(L):
                        raise c18.Over()
                    return L[k[0] - 1]
                it.opaque['timestep'] = ts

                def merge(self, F, a):
                    put(self, a[0], [S('u%d.%d' % (k[0], i)) for i in range(2 * V)])
                it.opaque['make_u'] = merge
                it.opaque['contorted'] = lambda self, F, a: False
                it.isnan = lambda x: TRUE if nan is not None and has(x, S('u%d.%d' % (nan, at))) else FALSE
                ev = c.evs(1, L=16)
                u = it.vec('u', 2 * V, init=[S('u0.%d' % i) for i in range(2 * V)])
                try:
                    ret = it.run('iterator', u, lift(1), it.vec('nX', 1, kind='i', init=[2]), it.vec('dX', 1, arr=True, init=[S('dx')]), S('CFL'),
                                 it.vec('bt', 2, kind='i', init=[0, 0]), True, brd('half', 0), brd('stiff', 0), psym('FLUX'),
                                 svec(it, [mpar(it, 0)]), S('tol'))
                except c18.Over:
                    return c.fail(tg + ': ends', w, 'the run goes on after the end time or after a NaN')
                except (IndexError, Unmodelled) as e:
                    if not it.oob and not isinstance(e, IndexError):
                        raise
                    return c.fail(tg + ': inside the list', w, 'a snapshot is stored outside the returned list')
                want = simulate(steps, nan)
                n = len(ret.e)
                c.true(tg + ': capacity', n == 100, w, '%d snapshots are returned' % n)
                bad = []
                for i in range(n):
                    v = it.cur(ret.e[i])
                    got = it.out(it.mx(v)) if isinstance(v, (EM, Mx)) else []
                    if i in want:
                        exp = [S('u%d.%d' % (want[i], j)) for j in range(2 * V)]
                        if len(got) != 2 * V or not all(equal(a, b, ev) is None for a, b in zip(got, exp)):
                            bad.append(i)
                    elif got:
                        bad.append(i)
                c.true(tg + ': snapshots', not bad, w, 'entries %s of the returned list are not the states of the steps they stand for' % bad[:8])
            c.attempt(tg, go)
