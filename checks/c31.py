from pymod import *          # noqa

RULE = ('value-numbering of the Python model next to the C++ model: state vectors built in Python from primitive values have exactly those '
        'values in the solver, and every Python relation (equation of state, elastic energy, stress, derivatives, relaxation, reaction, '
        'sound speed) equals the C++ function of the same meaning')
ASSUME = ['exact real arithmetic', 'mass fraction in [0, 1] and non-negative pressure for reaction rates (outside, the solver clips)',
          'parts of the Python model outside gpr.vars and gpr.misc are not used by the problems and not covered']


def run(c):
    py = pyprog()
    fields = None

    def pair(nm, pyname, pyargs, cpp, mp, ev, post=lambda x: x):
        """pyname(*pyargs, MP) == cpp() ; cpp is a thunk giving values."""
        def go():
            f = py.fn(pyname)
            try:
                got = py.run(f, *pyargs)
            except PyError as e:
                return c.fail('%s: %s' % (nm, pyname), py.where(f), 'raises for every input: %s' % e)
            except PyUnmodelled as e:
                return c.undecided('%s: %s' % (nm, pyname), e)
            c.eqs('%s: %s' % (nm, pyname), [post(x) for x in flat(got)], [post(x) for x in cpp()], ev, py.where(f))
        c.attempt('%s: %s' % (nm, pyname), go)

    P_ = c.prog()
    cf = Cfg(P_)
    fld = set()
    for r in ('Params', 'Par'):
        fld |= {f['n'] for f in P_.records[r]['f']} if r in P_.records else set()
    TH = c.prog(THERMAL=True)
    MU = c.prog(MULTI=True)
    ev = c.evs(positive=POS)
    rho, p = S('ρ'), S('p')
    A = pmat('A', 3, 3)
    v = pmat('v', 3)
    J = pmat('J', 3)

    for en, code in EOS.items():
        kw = dict(EOS=code, SOLID=False, POWER_LAW=False, BINGHAM=False, MULTI=False, REACTION=-1)
        MP = pmp(fields=fld or None, **kw)

        def cc(prog=P_, **k):
            it = c.drv(prog)
            return it, mpar(it, code, **k)

        def call(fn, *a, prog=P_, nparams=None):
            it, m = cc(prog)
            return [lift(x) for x in it.out(it.run(fn, *(list(a) + [m]), nparams=nparams))]
        for n in ('Γ_MG', 'p_ref', 'e_ref', 'dΓ_MG', 'dp_ref', 'de_ref', 'φ'):
            pair(en, 'gpr.vars.mg.' + n, (rho, MP), lambda n=n: call(n, rho), MP, ev)
        for n, k in (('internal_energy', 'E_1'), ('pressure', 'pressure_mg'), ('temperature', 'temperature_mg'), ('dedρ', 'dedρ'), ('dTdρ', 'dTdρ')):
            pair(en, 'gpr.vars.mg.' + n, (rho, p, MP), lambda k=k: call(k, rho, p), MP, ev)
        for n in ('dedp', 'dTdp'):
            pair(en, 'gpr.vars.mg.' + n, (rho, MP), lambda n=n: call(n, rho), MP, ev)
        for n in ('c_s2', 'dc_s2dρ', 'C_0', 'dC_0dρ'):
            pair(en, 'gpr.vars.shear.' + n, (rho, MP), lambda n=n: call(n, rho), MP, ev)

        # functions of a state: the C++ state has the same density, pressure and distortion
        def state(prog=P_, **k):
            it, m = cc(prog, **k)
            g = Cfg(prog)
            q = [rho, S('ρE')] + [rho * x for x in v] + list(A.ravel())
            q += [rho * x for x in J] if g.THERMAL else []
            q += [rho * S('λ')] if g.MULTI else []
            q += [S('φ%d' % i) for i in range(g.V - len(q))]
            return it, m, it.vec('Q', g.V, init=q)

        def ofQ(fn, *extra, prog=P_, **k):
            it, m, Q = state(prog, **k)
            r = it.run(fn, Q, m, *extra, nparams=2 + len(extra))
            return [lift(x) for x in it.out(r)]

        def pQ(prog=P_, **k):
            it, m, Q = state(prog, **k)
            return it.run('pressure', Q, m)
        pq = c.attempt(en + ': pressure', pQ)
        if pq is None:
            continue
        pair(en, 'gpr.vars.derivatives.dEdρ', (rho, pq, A, MP), lambda: ofQ('dEdρ'), MP, ev)
        pair(en, 'gpr.vars.derivatives.dEdp', (rho, MP), lambda: ofQ('dEdp'), MP, ev)
        for n in ('dEdA', 'dEdA_s'):
            pair(en, 'gpr.vars.derivatives.' + n, (rho, A, MP), lambda n=n: ofQ(n), MP, ev)
        pair(en, 'gpr.vars.state.sigma', (rho, A, MP), lambda: ofQ('sigma'), MP, ev)
        pair(en, 'gpr.vars.state.Sigma', (pq, rho, A, MP), lambda: sum((ofQ('Sigma', d) for d in range(3)), []), MP, ev)
        pair(en, 'gpr.vars.state.dsigmadρ', (rho, A, MP), lambda: sum((ofQ('dsigmadρ', d) for d in range(3)), []), MP, ev)
        for d in range(3):
            pair('%s direction %d' % (en, d), 'gpr.vars.state.dsigmadAdd', (rho, A, d, MP), lambda d=d: ofQ('dsigmadA', d), MP, ev)
        pair(en, 'gpr.vars.wavespeeds.c_0', (rho, pq, A, MP), lambda: ofQ('c_0'), MP, ev)
        pair(en, 'gpr.vars.state.pressure', (rho, S('ρE') / rho, v, A, None, None, MP), lambda: [pq], MP, ev)

        # thermal
        def T_():
            it, m, Q = state(TH)
            return it.run('temperature', Q, m)
        tq = c.attempt(en + ': temperature', T_)
        if tq is not None:
            pt = pQ(TH)
            pair(en, 'gpr.vars.state.temperature', (rho, pt, MP), lambda: [tq], MP, ev)
            pair(en, 'gpr.vars.derivatives.dEdJ', (J, MP), lambda: ofQ('dEdJ', prog=TH), MP, ev)
            pair(en, 'gpr.vars.sources.theta2inv', (rho, tq, MP), lambda: ofQ('theta2inv', prog=TH), MP, ev)

            def hf():
                it, m = cc(TH)
                return [lift(x) for x in it.out(it.run('heat_flux', tq, it.vec('J', 3, init=list(J)), m))]
            pair(en, 'gpr.vars.state.heat_flux', (tq, J, MP), hf, MP, ev)
            pair(en, 'gpr.vars.state.pressure', (rho, S('ρE') / rho, v, A, J, None, MP), lambda: [pt], MP, ev)
            pair(en, 'gpr.vars.wavespeeds.c_h', (rho, tq, MP), lambda: call('c_h', rho, tq, prog=TH), MP, ev)

        # state vectors built in Python
        for tag, prog, j, l in (('', P_, None, None), (' [THERMAL]', TH, J, None), (' [MULTI]', MU, None, S('λ'))):
            g = Cfg(prog)

            def build(prog=prog, j=j, l=l, g=g, tag=tag):
                f = py.fn('gpr.misc.structures.Cvec')
                w = py.where(f)
                try:
                    q = flat(py.run(f, rho, p, v, MP, A, j, l))
                except PyError as e:
                    return c.fail('%s%s: Cvec' % (en, tag), w, 'raises for every input: %s' % e)
                except PyUnmodelled as e:
                    return c.undecided('%s%s: Cvec' % (en, tag), e)
                want = 5 + 9 + 3 * (j is not None) + (l is not None)
                c.true('%s%s: Cvec: length' % (en, tag), len(q) == want, w, '%d components, %d expected' % (len(q), want))
                if len(q) != want:
                    return
                q += [S('φ%d' % i) for i in range(g.V - len(q))]
                it, m = cc(prog, **({'reaction': 0} if l is not None else {}))
                Q = it.vec('Q', g.V, init=q)
                it.run('Pvec', Q, m)
                o = it.out(Q)
                exp = [rho, p] + list(v) + list(A.ravel()) + (list(j) if j is not None else []) + ([l] if l is not None else [])
                c.eqs('%s%s: Cvec: values in the solver' % (en, tag), o[:len(exp)], exp, ev, w)
            c.attempt('%s%s: Cvec' % (en, tag), build)

    # the full derivative of the stress
    def dsA():
        code = EOS['STIFFENED_GAS']
        MP = pmp(EOS=code)
        f = py.fn('gpr.vars.state.dsigmadA')
        got = py.run(f, rho, A, MP)
        s = flat(py.run(py.fn('gpr.vars.state.sigma'), rho, A, MP))
        for i in range(3):
            for j in range(3):
                for m in range(3):
                    for n in range(3):
                        c.eq('dsigmadA[%d,%d,%d,%d]' % (i, j, m, n), lift(got[i, j, m, n]), diff(s[3 * i + j], A[m, n]), ev, py.where(f))
    c.attempt('dsigmadA', dsA)

    # what is plotted of a solution
    def observed(tag, prog, en, code):
        g = Cfg(prog)
        MP = pmp(fields=fld or None, EOS=code, SOLID=False, POWER_LAW=False, BINGHAM=False, MULTI=g.MULTI, REACTION=-1, **({} if g.THERMAL else {'cα2': 0}))
        q = [S('q%d' % i) for i in range(g.V)]
        q[0] = rho
        P2 = pyprog()
        P2.nonzero.add(lift(S('MP.cα2')))

        def solver(fn, *extra, unpack=True):
            it = c.drv(prog)
            m = mpar(it, code, solid=False, power=False, bingham=False)
            r = it.run(fn, it.vec('Q', g.V, init=q), m, *extra, nparams=2 + len(extra))
            return [lift(x) for x in it.out(r)]
        for n in ('pressure', 'temperature'):
            P2.hooks['GPRpy.system.variables.' + n] = lambda Q, mp, n=n: solver(n)[0]
        cls = P2.fn('gpr.misc.structures.State')

        def obs(meth):
            def f(Q, mp):
                o = P2.call(cls, [Q, mp])
                x = P2.getattr(o, meth)
                return P2.call(x, []) if not isinstance(x, (T, np.ndarray)) else x
            return f
        what = {'ρ': lambda: [rho], 'E': lambda: [q[1] / rho], 'v': lambda: [x / rho for x in q[2:5]], 'A': lambda: q[5:14],
                'p': lambda: solver('pressure'), 'σ': lambda: solver('sigma'), 'Σ': lambda: sum((solver('Sigma', d) for d in range(3)), []),
                'dEdρ': lambda: solver('dEdρ'), 'dEdp': lambda: solver('dEdp'), 'dEdA': lambda: solver('dEdA'), 'ψ': lambda: solver('dEdA_s'),
                'θ1_1': lambda: solver('theta1inv'), 'dσdρ': lambda: sum((solver('dsigmadρ', d) for d in range(3)), [])}
        if g.THERMAL:
            what.update({'J': lambda: [x / rho for x in q[14:17]], 'T': lambda: solver('temperature'), 'θ2_1': lambda: solver('theta2inv'), 'H': lambda: solver('dEdJ')})
        if g.MULTI:
            what['λ'] = lambda: [q[g.mV] / rho]
        for n, cpp in sorted(what.items()):
            def go(n=n, cpp=cpp):
                nm = '%s%s: State.%s' % (en, tag, n)
                try:
                    got = P2.run(obs(n), np.array(q, dtype=object), MP)
                except PyError as e:
                    return c.fail(nm, 'code/python/gpr/misc/structures.py', 'raises for every input: %s' % e)
                except PyUnmodelled as e:
                    return c.undecided(nm, e)
                c.eqs(nm, flat(got), cpp(), ev, 'code/python/gpr/misc/structures.py State.%s' % n)
            c.attempt('%s%s: State.%s' % (en, tag, n), go)
    for en, code in EOS.items():
        for tag, prog in (('', P_), (' [THERMAL]', TH), (' [MULTI]', MU)):
            c.attempt('%s%s: State' % (en, tag), lambda: observed(tag, prog, en, code))

    # hyperelastic initial data
    def hyper():
        HYP = PRec(None, lambda n: S('MP.' + n) if n in ('ρ0', 'α', 'β', 'γ', 'cv', 'b02') else S('T0') if n == 'T0' else S('MP.c02') if n == 'K0' else None, 'HYP')
        F, s = pmat('F', 3, 3), S('S')
        eh = c.evs(positive=POS + ['T0'])
        f = py.fn('gpr.vars.hyp.Cvec_hyp')
        q = flat(py.run(f, F, s, v, HYP))
        Ai = np.array(q[5:14], dtype=object).reshape(3, 3)
        for i in range(3):
            for j in range(3):
                c.eq('hyperelastic: A F = 1 [%d,%d]' % (i, j), sum((lift(Ai[i, k]) * F[k, j] for k in range(3)), ZERO), ONE if i == j else ZERO, eh, py.where(f))
        c.eq('hyperelastic: density', q[0] * pyai.rec3(F), S('MP.ρ0'), eh, py.where(f))
        for i in range(3):
            c.eq('hyperelastic: velocity %d' % i, q[2 + i], q[0] * v[i], eh, py.where(f))
        # a state of the hyperelastic model is the same state of the Godunov-Romenski model: from the distortion A, with positive determinant
        A1 = A.copy()
        d = S('det')
        A1[0, 0] = (d - pyai.rec3(np.array([[0, A[0, 1], A[0, 2]], [A[1, 0], A[1, 1], A[1, 2]], [A[2, 0], A[2, 1], A[2, 2]]], dtype=object))) / (
            A[1, 1] * A[2, 2] - A[1, 2] * A[2, 1])
        r = d * S('MP.ρ0')
        te = py.fn('gpr.vars.hyp.total_energy_hyp')
        E = lift(py.run(te, A1, s, v, HYP))
        it = c.drv(P_)
        m = mpar(it, EOS['GODUNOV_ROMENSKI'])
        Q = it.vec('Q', cf.V, init=[r, r * E] + [r * x for x in v] + list(A1.ravel()) + [S('φ%d' % i) for i in range(cf.V - 14)])
        hp = py.fn('gpr.vars.hyp.pressure_hyp')
        c.eq('hyperelastic: pressure in the solver', lift(it.run('pressure', Q, m)), lift(py.run(hp, r, A1, s, HYP)), eh, py.where(hp))
        hs = py.fn('gpr.vars.hyp.Sigma_hyp')
        want = [-x for x in flat(py.run(hs, r, A1, s, HYP))]
        got = []
        for k in range(3):
            got += [lift(x) for x in it.out(it.run('Sigma', Q, m, k, nparams=3))]
        c.eqs('hyperelastic: stress in the solver', got, want, eh, py.where(hs))
        en = py.fn('gpr.vars.hyp.entropy_hyp')
        c.eq('hyperelastic: entropy of an energy', diff(lift(py.run(en, E, A1, v, HYP)), s), ONE, eh, py.where(en))
    c.attempt('hyperelastic', hyper)

    # material of a cell
    def mati():
        for L in (1, 2, 3):
            pr = c.prog(LSET=L)
            g = Cfg(pr)
            it = c.drv(pr)
            Q = [S('q%d' % i) for i in range(g.V)]
            P2 = pyprog()
            P2.hooks['GPRpy.options.NV'] = lambda g=g: g.V
            f = P2.fn('gpr.multi.get_material_index')
            got = P2.run(f, np.array(Q, dtype=object), L + 1)
            r = it.run('get_material_index', it.vec('Q', g.V, init=Q))
            c.eq('material of a cell, %d materials' % (L + 1), lift(got), lift(r), ev, P2.where(f))
    c.attempt('material of a cell', mati)

    # relaxation and reaction
    code = EOS['STIFFENED_GAS']
    big = c.evs(positive=POS)
    for nm, so, pl, bi in (('newtonian', False, False, False), ('power law', False, True, False), ('bingham', False, False, True), ('elastic', True, False, False),
                           ('elasto-plastic', True, True, False)):
        MP = pmp(fields=fld or None, EOS=code, SOLID=so, POWER_LAW=pl, BINGHAM=bi, MULTI=False, REACTION=-1)

        def th(so=so, pl=pl, bi=bi):
            it = c.drv(P_)
            m = mpar(it, code, solid=so, power=pl, bingham=bi)
            q = [rho, S('ρE')] + [rho * x for x in v] + list(A.ravel()) + [S('φ%d' % i) for i in range(cf.V - 14)]
            return [lift(it.run('theta1inv', it.vec('Q', cf.V, init=q), m))]
        pair(nm, 'gpr.vars.sources.theta1inv', (rho, A, MP), th, MP, big)

    g = Cfg(MU)
    lam = S('λ')
    for nm, rc, f in (('discrete', 0, 'K_dis'), ('arrhenius', 1, 'K_arr'), ('ignition and growth', 2, 'K_ing')):
        MP = pmp(fields=fld or None, EOS=code, SOLID=False, POWER_LAW=False, BINGHAM=False, MULTI=False, REACTION=rc)

        def rr(rc=rc):
            it = c.drv(MU)
            m = mpar(it, code, reaction=rc)
            q = [rho, S('ρE')] + [rho * x for x in v] + list(A.ravel()) + [rho * lam] + [S('φ%d' % i) for i in range(g.V - 15)]
            it.opaque['temperature'] = lambda self, F, a: S('T')
            it.opaque['pressure'] = lambda self, F, a: p
            return [it.run('reaction_rate', it.vec('Q', g.V, init=q), m)]
        # at the clipped values
        lc = X.tmax(ZERO, lam)
        args = (rho, X.tmin(lc, ONE) if rc == 2 else lc, X.tmax(p, ZERO) if rc == 2 else S('T'), MP)
        # the solver never lets a reaction run backwards
        pos = (lambda t: X.tmax(t, ZERO)) if rc == 2 else (lambda t: t)
        pair(nm, 'gpr.vars.sources.' + f, args, rr, MP, c.evs(positive=POS + ['λ', 'T']), post=pos)
    for f in sorted(py.calls, key=lambda f: py.where(f)):
        c.functions.add(py.where(f))
