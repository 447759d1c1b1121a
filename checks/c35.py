"""C35: no hidden state.  An effect analysis of every function of the program:
what it may modify, directly or through what it calls."""
import os
from chk import Check, relp
import effects

RULE = ('interprocedural effect analysis over every function: the globals and static variables written after initialisation, and the parameters, '
        'reached directly or through references, views, pointers and calls, that a function may modify; reads of the clock, of random numbers and of '
        'the environment; the order in which globals are initialised; repeated definitions')
ASSUME = ['pointers kept in the members of the distance marcher are not followed',
          'the callbacks given to the solvers change nothing but their own result']

# name/parameters=positions: what each function offered to callers may change
MAY = dict(x.split('=') for x in '''
    Bdot/5=0 Bint/4= Cvec_to_Pvec/2= D_OSH/4= D_ROE/4= D_RUS/4= Pvec_to_Cvec/2= Xi1/5= Xi2/5= ader_stepper/9=0,1 ader_stepper_para/9=0,1
    analyticSolver_distortion/3=0 analyticSolver_thermal/3=0 average_pressure/4= basis_polys/0= block/3=0 boundaries/4=1 c_0/2= c_h/3= c_s2/2=
    centers1/9=0 centers2/11=0 check_star_convergence/4= coefficient_matrices/1= contorted/2= dEdA/2= dEdJ/2= dEdp/2= dEdρ/2= dFdP/3= dPdQ/2=
    derivative_values/2= destress/1=0 distance/3= dsigmadA/3= dsigmadA/9= dsigmadρ/3= eigen/3= end_values/1= extend_mask/3=1 extended_dimensions/2=
    fill_boundary_cells/9=0 fill_ghost_cells/7=0,1,2 fill_neighbor_cells/5=0,1 find_interface_cells/3=0 finite_difference/4=0 flux/4=0
    fv_launcher/10=0 get_material_index/1= heat_flux/3= interfs1/9=0 interfs2/11=0 internal_energy/2= iterator/12=0 left_star_state/6=
    lgmres_wrapper/9=8 limit_concentration/1=0 make_u/4=0 material_indicator/6=0 max_abs_eigs/3= midstepper/5=0 nonlin_solve/6=1 ode_launcher/3=0
    ode_stepper_numerical/3=0 oscillation_indicator/1= predictor/8=0 pressure/2= pressure_mg/3= reaction_rate/2= renorm_distortion/2=0
    renormalize_levelsets/3=0 reset_distortion/2=0 riemann_constraints/3= rotate_distortion/2=0 runge_kutta_launcher/4= scaled_nodes/0=
    scaled_weights/0= sigma/2= sigma/3= solve_multi/2= source/3=0 split_stepper/9=0,1 split_stepper_para/9=0,1 star_stepper/4=0,1 stiff_ode_solve/3=
    system_matrix/3= temperature/2= temperature_mg/3= thermo_acoustic_tensor/3= theta1inv/2= theta2inv/2= timestep/9= total_energy/5= total_energy/6=
    total_energy/7= weno_launcher/4=0'''.split())
SOURCES = {'rand', 'random', 'rand_r', 'drand48', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getenv', 'getpid', 'gethostname', 'now', 'get_id', 'Random',
           'setRandom', 'random_device', 'mt19937', 'pthread_self'}


def walk(n, f):
    if isinstance(n, list):
        for x in n:
            walk(x, f)
    elif isinstance(n, dict):
        f(n)
        for k, v in n.items():
            if k not in ('t',) and isinstance(v, (dict, list)):
                walk(v, f)


def loc(F):
    return '%s:%s %s' % (relp(F.file), F.line, F.q)


def site(w, q):
    f, n = w.rsplit(':', 1)
    return '%s:%s %s' % (relp(f), n, q)


def used_first(F, name):
    """A static variable read before the function has assigned the whole of it."""
    st = []

    def f(n):
        if st:
            return
        if n.get('k') in ('bin', 'opcall') and (n.get('op') == '=' or (n.get('f') or {}).get('n') == 'operator='):
            a = n.get('a') if n['k'] == 'bin' else (n.get('a') or [None])[0]
            if isinstance(a, dict) and a.get('k') == 'var' and a.get('n') == name and not a.get('g'):
                st.append('w')
                return
        if n.get('k') == 'var' and n.get('n') == name and not n.get('g'):
            st.append('r')
    # the right-hand side of an assignment is evaluated first: it must not read the variable
    walk(F.d['body'], f)
    return not st or st[0] == 'r'


def state(c, P, E):
    for F in E.fns:
        c.functions.add(loc(F))
        name = '%s(%s) keeps nothing between calls' % (F.q, ','.join(p['n'] for p in F.params))
        bad = []
        for r, w in E.own[F].items():
            if r[0] == 'g':
                bad.append('the global %s' % r[1].split('::')[-1])
            elif r[0] == 's' and not (r in E.tls and not used_first(F, r[2])):
                bad.append('its static variable %s' % r[2])
        w = [w for r, w in E.own[F].items() if r[0] in 'gs']
        if bad:
            c.fail(name, site(w[0], F.q),
                   'writes %s, which later calls (and other threads) read' % ' and '.join(sorted(bad)))
        else:
            c.ok(name)


def inputs(c, P, E):
    for q, may in sorted(MAY.items()):
        n, k = q.split('/')
        want = {int(i) for i in may.split(',') if i}
        name = q + ' changes only what it is asked to'
        fs = [F for F in P.find(n) if len(F.params) == int(k)]
        if not fs:
            c.undecided(name, 'no function of that name with as many parameters')
        for F in fs:
            bad = sorted((F.params[r[1]]['n'], w) for r, w in E.mod[F].items() if r[0] == 'p' and r[1] not in want)
            c.functions.add(loc(F))
            if bad:
                c.fail(name, site(bad[0][1], n), "modifies the caller's %s" % ', '.join(b[0] for b in bad))
            else:
                c.ok(name)


def repeatable(c, P, E):
    for F in E.fns:
        hit = []

        def f(n):
            g = n.get('f') if n.get('k') in ('call', 'mcall', 'opcall', 'ctor') else None
            if isinstance(g, dict) and not g.get('p') and g.get('n') in SOURCES:
                q = g.get('q', '')
                if g['n'] not in ('time', 'clock', 'random', 'now', 'Random') or q.startswith(('std::', 'Eigen::')) or '::' not in q:
                    hit.append((g['n'], n.get('l')))
        walk(F.d['body'], f)
        name = '%s(%s) depends on its arguments alone' % (F.q, ','.join(p['n'] for p in F.params))
        if hit and E.returns_value(F):
            c.fail(name, '%s:%s %s' % (relp(F.file), hit[0][1] or F.line, F.q), 'calls %s' % hit[0][0])
        elif hit:
            c.undecided(name, 'calls %s' % hit[0][0])
        else:
            c.ok(name)


def order(c, P, E):
    """Globals initialised by running code must not need one that comes later."""
    gl = {}
    for key, g in P.globals.items():
        gl[key if isinstance(key, str) else '%s' % key[1]] = g
    dyn = {k: g for k, g in gl.items() if 'i' in g and not g.get('constinit')}
    reads = {}

    def fr(F):
        if F in reads:
            return reads[F]
        reads[F] = out = set()

        def f(n):
            if n.get('k') == 'var' and n.get('g') in dyn:
                out.add(n['g'])
            g = n.get('f') if n.get('k') in ('call', 'mcall', 'opcall', 'ctor') else None
            if isinstance(g, dict) and g.get('p'):
                G = E.callee(g, F)
                if G is not None:
                    out.update(fr(G))
        walk(F.d['body'], f)
        return out
    for k, g in sorted(dyn.items()):
        need = set()

        def f(n):
            if n.get('k') == 'var' and n.get('g') in dyn:
                need.add(n['g'])
            x = n.get('f') if n.get('k') in ('call', 'mcall', 'opcall', 'ctor') else None
            if isinstance(x, dict) and x.get('p'):
                fs = P.find(x.get('q', ''))
                for G in fs:
                    if G.d.get('body') is not None:
                        need.update(fr(G))
        walk(g['i'], f)
        bad = []
        for m in need:
            h = dyn[m]
            if h['tu'] != g['tu']:
                bad.append('%s of another file' % m.split('::')[-1])
            elif (h.get('file', ''), h.get('l', h.get('line', 0))) == (g.get('file', ''), g.get('l', g.get('line', 0))) and m != k:
                continue
            elif h.get('l', h.get('line', 0)) >= g.get('l', g.get('line', 0)) and h.get('file') == g.get('file'):
                bad.append('%s, which is initialised after it' % m.split('::')[-1])
        nm = 'initialisation of %s needs only what exists' % k.split('::')[-1]
        if bad:
            c.fail(nm, '%s:%s' % (relp(g.get('file') or g['tu']), g.get('l', g.get('line', 0))), 'reads ' + ', '.join(sorted(bad)))
        else:
            c.ok(nm)


def single(c, P, E):
    sig = {}
    for F in E.fns:
        sig.setdefault(F.sig, set()).add((os.path.normpath(F.file), F.line))
    for s, w in sorted(sig.items()):
        c.true('%s is defined once' % s.split('(')[0], len(w) == 1, '; '.join('%s:%s' % (relp(f), l) for f, l in sorted(w)),
               'the same function has more than one definition')


def run(c):
    c.assume += ASSUME
    for o in ({}, dict(THERMAL=True, MULTI=True, N=3)) if c.thorough else ({},):
        P = c.prog(**o)
        E = effects.Effects(P)
        for f in (state, inputs, repeatable, order, single):
            c.attempt(f.__name__, lambda: f(c, P, E))
        c.note('effects settled after %d rounds over %d functions; %d calls without a named callee' % (E.rounds, len(E.fns), E.unknown))
