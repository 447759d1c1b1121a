from phys import *          # noqa

RULE = ('value-numbering of the equation-of-state routines: for every EOS code, pressure(e(p)) = p, the reference curves equal the '
        'published closed forms, and every hand-written derivative equals the formal derivative of the function it belongs to, at '
        'every density, pressure and parameter set')
ASSUME = ['exact real arithmetic', 'positive density and reference parameters']


def curves(en, rho, g):
    """Mie-Gruneisen closure of each model: (Gamma, p_ref, e_ref, integrating factor)."""
    r0 = g('ρ0')
    v = r0 / rho
    if en == 'STIFFENED_GAS':
        G = g('γ') - 1
        return G, -g('pINF'), g('pINF') / rho, (rho / r0) ** G
    if en == 'SHOCK_MG':
        x = ONE / r0 - ONE / rho
        ph = g('c02') * x / (ONE / r0 - g('s') * x) ** C(2)
        comp = rlt(r0, rho)
        return (g('Γ0') * r0 / rho, ite(comp, ph, g('c02') * (rho - r0)), ite(comp, ph * x / 2, ZERO),
                X.exp(g('Γ0') * (ONE - v)))
    if en == 'GODUNOV_ROMENSKI':
        a = g('α')
        t = (rho / r0) ** a
        return g('γ'), g('c02') * rho / a * (t - 1) * t, g('c02') / (2 * a * a) * (t - 1) * (t - 1), (rho / r0) ** g('γ')
    A, B_, R1, R2 = g('A'), g('B'), g('R1'), g('R2')
    if en == 'JWL':
        e1, e2 = X.exp(-R1 * v), X.exp(-R2 * v)
        return g('Γ0'), A * e1 + B_ * e2, A / (r0 * R1) * e1 + B_ / (r0 * R2) * e2, (rho / r0) ** g('Γ0')
    pw = lambda x: v ** x
    return (g('Γ0'), A * pw(-R1) - B_ * pw(-R2),
            B_ / (r0 * (ONE - R2)) * (pw(ONE - R2) - 1) - A / (r0 * (ONE - R1)) * (pw(ONE - R1) - 1), (rho / r0) ** g('Γ0'))


def run(c):
    P_ = c.prog()
    ev = c.evs(positive=POS)
    rho, p, e_, cv = S('ρ'), S('p'), S('e'), S('MP.cv')
    g = lambda n: S('MP.' + n)
    for en, code in EOS.items():
        it = c.drv(P_)
        MP = mpar(it, code)

        def at(q, **k):
            return floc(P_, q, **k)

        def go(q, spec, *a, what):
            def f():
                got = it.run(q, *a)
                c.eq('%s: %s' % (en, what), got, spec() if callable(spec) else spec, ev, at(q))
            c.attempt('%s: %s' % (en, what), f)
        G, pr, er, ph = curves(en, rho, g)
        E1 = er + (p - pr) / (rho * G)
        Tm = ph * g('Tref') + (p - pr) / (rho * G * cv)
        # the public functions against the closed forms
        go('pressure_mg', pr + rho * G * (e_ - er), rho, e_, MP, what='pressure as a function of density and energy')
        go('E_1', E1, rho, p, MP, what='internal energy as a function of density and pressure')
        go('temperature_mg', Tm, rho, p, MP, what='temperature as a function of density and pressure')
        # inversion, without reference to any closed form
        def inv():
            a = it.run('E_1', rho, p, MP)
            b = it.run('pressure_mg', rho, e_, MP)
            c.eq(en + ': pressure(e(p)) = p', subst(b, {e_: a}), p, ev, at('pressure_mg'))
            c.eq(en + ': e(pressure(e)) = e', subst(a, {p: b}), e_, ev, at('E_1'))
        c.attempt(en + ': inversion', inv)
        # derivatives
        D = [('dedρ', 'E_1', (rho, p), (rho, p), rho), ('dedp', 'E_1', (rho,), (rho, p), p),
             ('dTdρ', 'temperature_mg', (rho, p), (rho, p), rho), ('dTdp', 'temperature_mg', (rho,), (rho, p), p)]
        D += [('dΓ_MG', 'Γ_MG', (rho,), (rho,), rho), ('dp_ref', 'p_ref', (rho,), (rho,), rho), ('de_ref', 'e_ref', (rho,), (rho,), rho)]
        for dq, fq, da, fa, w in D:
            def f(dq=dq, fq=fq, da=da, fa=fa, w=w):
                if not P_.find(dq) or not P_.find(fq):
                    return c.undecided('%s: %s' % (en, dq), 'no such function')
                c.eq('%s: %s is the derivative of %s' % (en, dq, fq), it.run(dq, *da, MP), diff(it.run(fq, *fa, MP), w), ev, at(dq))
            c.attempt('%s: %s' % (en, dq), f)
    # an unknown code is rejected: no path returns a value
    for q, a in (('pressure_mg', (rho, e_)), ('E_1', (rho, p)), ('temperature_mg', (rho, p))):
        it = c.drv(P_)
        MP = mpar(it, 99)
        try:
            it.run(q, *a, MP)
            c.fail('unknown EOS code is rejected by ' + q, floc(P_, q), 'a value is returned for an EOS code that no branch handles')
        except Dead:
            c.ok('unknown EOS code is rejected by ' + q)
        except (Unmodelled, Undecided) as e:
            c.undecided('unknown EOS code is rejected by ' + q, e)
    mixture(c)


def mixture(c):
    """Two-phase mixtures: pressure and temperature equilibrium at the mixture energy and specific volume."""
    P_ = c.prog(MULTI=True)
    cf = Cfg(P_)
    ev = c.evs(positive=POS)
    pairs = [(0, 0), (2, 3), (1, 2)] if not c.thorough else [(i, j) for i in EOS.values() for j in EOS.values()]
    names = {v: k for k, v in EOS.items()}
    for e1, e2 in pairs:
        nm = 'mixture %s/%s' % (names[e1], names[e2])
        st = {}

        def setup():
            it = c.drv(P_)
            MP = mpar(it, e1, multi=True, reaction=-1, eos2=e2)
            return it, MP, it.cur(MP.f['MP2']), cf.state(it)

        def residual():
            it, MP, MP2, Q = setup()
            e = it.run('internal_energy', Q, MP)
            sol = it.out(it.run('solve_multi', Q, MP))
            w = floc(P_, 'solve_multi')
            if len(it.nlcalls) != 1:
                return c.undecided(nm + ': equilibrium system', 'not solved by the nonlinear solver')
            nm0, fo, x0, _ = it.nlcalls[0]
            p, r1 = S('p'), S('ρ1')
            lam = S('λ') / S('ρ')
            r2 = (ONE - lam) / (ONE / S('ρ') - lam / r1)
            x = it.vec('x', 2, init=[p, r1])
            it.frames.append(drive.IP.Frame(P_.one('solve_multi'), P_.one('solve_multi').tt))
            res = it.out(it.invoke(fo, [x]))
            it.frames.pop()
            t0 = e - lam * it.run('E_1', r1, p, MP) - (ONE - lam) * it.run('E_1', r2, p, MP2)
            t1 = it.run('temperature_mg', r1, p, MP) - it.run('temperature_mg', r2, p, MP2)
            good = False
            for a, b in ((0, 1), (1, 0)):
                if all(equal(res[i], t, ev) is None or equal(res[i], -t, ev) is None for i, t in ((a, t0), (b, t1))):
                    good = True
            c.true(nm + ': equilibrium system is energy balance and equal temperatures', len(res) == 2 and good, w,
                   'the system handed to the nonlinear solver is not the energy balance and temperature equality of the two phases')
            st['sol'] = sol
            # the three returned numbers: pressure and the two phase densities, joined by the mixture specific volume
            c.eq(nm + ': specific volumes add up', lam / sol[1] + (ONE - lam) / sol[2], ONE / S('ρ'), ev, w)
            # pure limits
            for lim, par, which in ((S('ρ'), MP, 1), (ZERO, MP2, 2)):
                pl = subst(sol[0], {S('λ'): lim})
                es = subst(e, {S('λ'): lim})
                want = X.tmax(it.run('pressure_mg', S('ρ'), es, par), ZERO)
                alt = it.run('pressure_mg', S('ρ'), es, par)
                t = nm + ': pure phase %d takes its own equation of state' % which
                if equal(pl, want, ev) is None or equal(pl, alt, ev) is None:
                    c.ok(t)
                else:
                    c.fail(t, w, 'with only phase %d present the pressure is not the pressure of that phase' % which)
        c.attempt(nm + ': residual', residual)

        def derivs():
            it, MP, MP2, Q = setup()
            lam = S('λ') / S('ρ')
            got = {}
            # the solution enters as unknowns shared by every caller
            sols = []

            def fake(self, F, args):
                return self.mark(self.new_em('sol', {'k': 'f', 'rm': False, 'arr': False, 'r': 3, 'c': 1}, 3, 1, base='sol'))
            sv = it.vec('solv', 3, init=[S('p'), S('ρ1'), S('ρ2')])
            it.opaque['solve_multi'] = lambda self, F, args: self.mx(sv)
            for q in ('dEdρ', 'dEdp'):
                got[q] = it.run(q, Q, MP)
            rho, p, r1 = S('ρ'), S('p'), S('ρ1')
            l = S('lam')
            r2 = (ONE - l) / (ONE / rho - l / r1)
            T1 = it.run('temperature_mg', r1, p, MP)
            T2 = it.run('temperature_mg', r2, p, MP2)
            E = l * it.run('E_1', r1, p, MP) + (ONE - l) * it.run('E_1', r2, p, MP2)
            D = T1 - T2
            A = [S('A%d%d' % (i, j)) for i in range(3) for j in range(3)]
            el = diff(it.run('E_2A', rho, it.mat('Am', 3, 3, init=A), MP), rho)
            for q, w, extra in (('dEdρ', rho, el), ('dEdp', p, ZERO)):
                want = diff(E, w) - diff(E, r1) * diff(D, w) / diff(D, r1) + extra
                sub = {S('ρ2'): r2}
                c.eq('%s: %s is the total derivative of the mixture energy' % (nm, q), subst(subst(got[q], sub), {S('λ'): l * rho}), want, ev,
                     floc(P_, q))
        c.attempt(nm + ': derivatives', derivs)
