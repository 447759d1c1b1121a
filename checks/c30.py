from pymod import *          # noqa
import ast
import itertools

RULE = ('value numbering of material_params (Python syntax tree) for every kind of material against the documented meaning of its arguments; every '
        'name exported by the bindings refers to the C++ entity of that name; every parameter the solver reads is set for the materials that use it; '
        'codes and argument orders agree across the language boundary')
ASSUME = ['a parameter given to material_params is not zero', 'parameters that are not set are zero, as the binding layer value-initialises them']

CODES = {'sg': 'STIFFENED_GAS', 'smg': 'SHOCK_MG', 'jwl': 'JWL', 'cc': 'COCHRAN_CHAN', 'gr': 'GODUNOV_ROMENSKI'}
RCODES = {'d': 'DISCRETE', 'a': 'ARRHENIUS', 'i': 'IGNITION_GROWTH'}
EOSF = {'sg': {'γ': 'γ', 'pINF': 'pINF'}, 'smg': {'Γ0': 'Γ0', 'c02': 'c0^2', 's': 's'}, 'gr': {'c02': 'c0^2', 'α': 'α', 'β': 'β', 'γ': 'γ'},
        'jwl': {k: k for k in ('Γ0', 'A', 'B', 'R1', 'R2')}, 'cc': {k: k for k in ('Γ0', 'A', 'B', 'R1', 'R2')}}
EOSA = {'sg': ['γ'], 'smg': ['Γ0', 'c0', 's'], 'gr': ['c0', 'α', 'β', 'γ'], 'jwl': ['Γ0', 'A', 'B', 'R1', 'R2'], 'cc': ['Γ0', 'A', 'B', 'R1', 'R2']}
# class -> arguments, (SOLID, POWER_LAW, BINGHAM)
VISC = {'inviscid': ([], None), 'elastic': (['b0'], (1, 0, 0)), 'newtonian': (['b0', 'μ'], (0, 0, 0)), 'power law': (['b0', 'μ', 'n'], (0, 1, 0)),
        'bingham': (['b0', 'μ', 'σY'], (0, 0, 1)), 'plastic': (['b0', 'σY', 'τ0', 'n'], (1, 1, 0))}
REACT = {None: [], 'd': ['Qc', 'Kc', 'Ti'], 'a': ['Qc', 'Bc', 'Ea', 'Rc'],
         'i': ['Qc', 'I', 'G1', 'G2', 'a', 'b', 'c', 'd', 'e', 'g', 'x', 'y', 'z', 'φI', 'φG1', 'φG2']}


def walk(n, f):
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            walk(v, f)
    elif isinstance(n, list):
        for v in n:
            walk(v, f)


def bindings(c, P_):
    """(kind, owner, name, node, line) of every exported name."""
    out = []
    for F in P_.all:
        if not F.q.startswith('pybind_module_'):
            continue

        def see(n, F=F):
            if n.get('k') == 'mcall' and n['f']['n'] in ('def', 'def_readwrite', 'def_readonly', 'def_property') and n.get('a') and n['a'][0].get('k') == 'str':
                b = n['b']
                while b.get('k') == 'mcall':
                    b = b['b']
                cls = b['a'][1]['v'] if b.get('k') == 'ctor' and len(b.get('a', [])) > 1 and b['a'][1].get('k') == 'str' else None
                own = cls or b.get('n', '?')
                out.append((n['f']['n'], own, n['a'][0]['v'], n['a'][1:], n.get('l', 0), F))
        walk(F.d['body'], see)
    return out


def strip(n):
    while n.get('k') in ('un', 'cast', 'icast', 'paren') and ('op' not in n or n['op'] == '&') and 'e' in n:
        n = n['e']
    return n


def run(c):
    P_ = c.prog()
    B_ = bindings(c, P_)
    w = lambda l: 'code/cpp/bindings/bindings.cpp:%d' % l
    c.true('the module exports names', len(B_) > 100, 'code/cpp/bindings/bindings.cpp', '%d names found' % len(B_))
    srcf = {F.q for F in P_.all}
    rec = {n: {f['n'] for f in P_.records[n]['f']} for n in ('Params', 'Par') if n in P_.records}
    fields = rec.get('Params', set()) | rec.get('Par', set())
    bound = {}
    for kind, own, nm, a, l, F in B_:
        t = strip(a[0])
        key = '%s.%s' % (own, nm)
        if kind != 'def':
            if t.get('k') != 'field':
                c.undecided('binding of %s' % key, 'not a plain field')
                continue
            tgt = t['n']
            have = rec.get(t.get('cls'), set()) | rec.get(own, set()) | (fields if own in ('Par', 'Params') else set())
            bound.setdefault(own, {}).setdefault(nm, tgt)
            c.true('%s is the field of that name' % key, tgt == nm or nm not in have, w(l), 'the attribute %s reads and writes the field %s' % (nm, tgt))
            dup = [x for x, y in bound[own].items() if y == tgt and x != nm]
            c.true('%s has a field of its own' % key, not dup, w(l), 'the attributes %s and %s are the same field' % (nm, ', '.join(dup)))
        elif t.get('k') == 'fn':
            q = t['e']['f']['q'] if 'e' in t else t['f']['q']
            fn = t['e']['f'] if 'e' in t else t['f']
            last = fn['n']
            c.true('%s is the function of that name' % key, last == nm or nm not in srcf, w(l), 'the name %s calls %s' % (nm, q))
            # named arguments in the order of the parameters
            args = []
            walk(a[1:], lambda n: args.append(n['a'][0]['v']) if n.get('k') == 'ctor' and n['f']['n'] == 'arg' and n['a'] and n['a'][0].get('k') == 'str' else None)
            d = P_.find(q)
            if args and d:
                ps = [p.get('n') for p in d[0].params]
                if sorted(ps) == sorted(args):
                    c.true('%s: named arguments' % key, ps == args, w(l), 'arguments %s name the parameters %s' % (args, ps))
        elif t.get('k') == 'lambda':
            vs = set()
            walk(t['body'], lambda n: vs.add(n['n']) if n.get('k') == 'var' else None)
            want = {'NV': 'V'}.get(nm, nm)
            if own == 'm_options' or want in {'N', 'V', 'VISCOUS', 'THERMAL', 'MULTI', 'LSET'}:
                c.true('%s is the constant of that name' % key, vs == {want}, w(l), 'the option %s returns %s' % (nm, ', '.join(sorted(vs)) or 'nothing'))
    for own in ('Par', 'Params'):
        c.true('attributes of %s' % own, own in bound, 'code/cpp/bindings/bindings.cpp', 'no attributes are exported')

    # ------------------------------------------------ codes
    py = pyprog()
    py.hooks['GPRpy.classes.Par'] = lambda: None

    def codes():
        for dotted, tab in (('gpr.vars.mg.EOS_CODES', CODES), ('gpr.misc.objects.REACTION_CODES', RCODES)):
            d = py.fn(dotted)
            f = 'code/python/' + '/'.join(dotted.split('.')[:-1]) + '.py'
            for k, cn in sorted(tab.items()):
                c.true('%s[%r] is %s' % (dotted.split('.')[-1], k, cn), k in d and d[k] == gconst(P_, cn), f, 'code %s, the solver uses %s' % (d.get(k), gconst(P_, cn)))
            c.true('%s distinct' % dotted.split('.')[-1], len(set(d.values())) == len(d), f, 'two kinds share a code')
        for cn in CODES.values():
            c.true('gpr.vars.mg.%s' % cn, py.fn('gpr.vars.mg.' + cn) == gconst(P_, cn), 'code/python/gpr/vars/mg.py', 'not the code the solver uses')
    c.attempt('codes', codes)

    def mainpy():
        p = os.path.join(PYROOT, 'main.py')
        tree = ast.parse(open(p, encoding='utf8').read())
        bnd = {'transitive': ['TRANSMISSIVE'], 'periodic': ['PERIODIC'], 'slip': ['SLIP'], 'stick': ['STICK'], 'symmetric': ['SYMMETRIC'],
               'lid_driven': ['STICK', 'STICK', 'STICK', 'MOVING'], 'halfx': ['SYMMETRIC'] + ['TRANSMISSIVE'] * 3, 'halfy': ['TRANSMISSIVE', 'TRANSMISSIVE', 'SYMMETRIC', 'TRANSMISSIVE']}
        for st in ast.walk(tree):
            if isinstance(st, ast.Assign) and getattr(st.targets[0], 'id', '') == 'BOUNDARIES' and isinstance(st.value, ast.Dict):
                for nd in (1, 2):
                    m = pyai.Mod('main', p)
                    m.src = open(p, encoding='utf8').read()
                    env = {'ndim': nd, 'array': pyai.NUMPY['array'], 'int32': None}
                    d = py.eval(st.value, env, m)
                    for k, want in bnd.items():
                        if k not in d or (nd == 1 and len(want) > 1):
                            continue
                        wv = [gconst(P_, x) for x in want]
                        wv = wv * (2 * nd) if len(wv) == 1 else wv
                        c.true('main.py: boundaries %s in %dD' % (k, nd), [int(x) for x in d[k]][:len(wv)] == wv, 'code/python/main.py:%d' % st.lineno,
                               'codes %s, the solver reads %s' % (list(d[k]), wv))
            if isinstance(st, ast.Call) and isinstance(st.func, ast.Attribute) and st.func.attr == 'iterator':
                ps = [q['n'] for q in P_.one('iterator').params]
                c.true('main.py: number of arguments', len(st.args) == len(ps), 'code/python/main.py:%d' % st.lineno, 'iterator takes %d arguments' % len(ps))
                for q, a in zip(ps, st.args):
                    names = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
                    for other in ps:
                        if other != q and other in names and other not in ('u',):
                            c.true('main.py: argument %s' % q, False, 'code/python/main.py:%d' % st.lineno, '%s is passed as %s' % (other, q))
                    if q in names:
                        c.ok('main.py: argument %s' % q)
    c.attempt('main.py', mainpy)

    # ------------------------------------------------ material parameters
    f = py.fn('gpr.misc.objects.material_params')
    wf = py.where(f)
    setall = set()
    ev = c.evs(positive=[], allpos=True)
    sy = lambda n: S('arg ' + n)

    def expr(t):
        return sy(t[:-2]) * sy(t[:-2]) if t.endswith('^2') else sy(t)

    def case(tag, eos, args, want, want2=None, fixed=None):
        P2 = pyprog()
        P2.calls = py.calls
        made = []

        def par():
            o = PRec(None, None, 'MP', MP2=PRec(None, None, 'MP2'))
            made.append(o)
            return o
        P2.hooks['GPRpy.classes.Par'] = par
        kw = {}
        for a in args:
            kw[a] = np.array([S('arg δp[%d]' % i) for i in range(3)], dtype=object) if a == 'δp' else sy(a)
            for x in flat(kw[a]):
                P2.nonzero.add(x)
        kw.update(fixed or {})
        g = P2.fn('gpr.misc.objects.material_params')

        def res():
            o = P2.call(g, [eos, sy('ρ0')], kw)
            return o
        try:
            P2.dec, P2.conds, P2.k = [], [], 0
            o = res()
            if P2.dec:
                raise PyUnmodelled('depends on the value of a parameter')
        except PyError as e:
            return c.fail(tag, wf, 'raises: %s' % e)
        except PyUnmodelled as e:
            return c.undecided(tag, e)
        for nm, ob, wd in (('', o, want), ('.MP2', o.a.get('MP2'), want2 or {})):
            own = 'Params' if nm else 'Par'
            for k in sorted(ob.set):
                if k == 'MP2':
                    continue
                if not nm:
                    setall.add(k)
                else:
                    setall.add('MP2.' + k)
                c.true('%s%s: %s is an attribute' % (tag, nm, k), k in bound.get(own, {}), wf, 'there is no attribute %s of %s' % (k, own))
                c.true('%s%s: %s has a value' % (tag, nm, k), ob.set[k] is not None, wf, 'None is stored in the parameter %s' % k)
            for k, v in sorted(wd.items()):
                got = ob.set.get(k)
                if got is None and k in ob.set:
                    continue
                if isinstance(v, str):
                    v = expr(v)
                if got is None:
                    got = [0, 0, 0] if k == 'δp' else 0
                got, v = flat(np.array(got, dtype=object)) if isinstance(got, list) else flat(got), flat(np.array(v, dtype=object)) if isinstance(v, list) else flat(v)
                c.eqs('%s%s: %s' % (tag, nm, k), got, v, ev, wf, 'not the parameter the arguments mean')
        return o

    def eosargs(e, s=''):
        return [x + s for x in EOSA[e]]

    def wants(eos, vis, s=''):
        w_ = {'EOS': gconst(P_, CODES[eos]), 'ρ0': 'ρ0'}
        for k, v in EOSF[eos].items():
            w_[k] = (v[:-2] + s + '^2') if v.endswith('^2') else v + s
        return w_

    for eos in CODES:
        for vis, (va, fl) in VISC.items():
            base = eosargs(eos) + va
            want = wants(eos, vis)
            if eos == 'sg':
                want['pINF'] = 0
            if fl is not None:
                want.update({'b02': 'b0^2', 'β': 'β' if eos == 'gr' else 0, 'SOLID': fl[0], 'POWER_LAW': fl[1], 'BINGHAM': fl[2]})
                for k in ('μ', 'σY', 'τ0'):
                    want[k] = k if k in va else 0
                want['n'] = 'n' if 'n' in va else 1
            else:
                want.update({k: 0 for k in ('b02', 'SOLID', 'POWER_LAW', 'BINGHAM')})
            want.update({'REACTION': -1, 'MULTI': 0, 'cα2': 0, 'κ': 0, 'δp': [0, 0, 0], 'cv': 0, 'Tref': 0})
            t = 'material %s %s' % (eos, vis)
            case(t, eos, base, want)
            case(t + ', cv', eos, base + ['cv'], dict(want, cv='cv', Tref=0))
            case(t + ', Tref', eos, base + ['cv', 'Tref'], dict(want, cv='cv', Tref='Tref'))
            case(t + ', heat', eos, base + ['cv', 'cα', 'κ'], dict(want, cv='cv', **{'cα2': 'cα^2', 'κ': 'κ'}))
            if eos == 'sg' and 'μ' in va:
                case(t + ', Prandtl', eos, base + ['cv', 'cα', 'Pr'], dict(want, cv='cv', **{'cα2': 'cα^2', 'κ': sy('μ') * sy('γ') * sy('cv') / sy('Pr')}))
            if eos == 'sg':
                case(t + ', pINF', eos, base + ['pINF'], dict(want, pINF='pINF'))
            if fl is not None and eos != 'gr':
                case(t + ', β', eos, base + ['β'], dict(want, β='β'))
            case(t + ', δp', eos, base + ['δp'], dict(want, **{'δp': [S('arg δp[%d]' % i) for i in range(3)]}))
            for r, ra in REACT.items():
                if r is None:
                    continue
                case('%s, reaction %s' % (t, r), eos, base + ['cv'] + ra, dict(want, cv='cv', REACTION=gconst(P_, RCODES[r]), **{k: k for k in ra}), fixed={'REACTION': r})

    # mixtures: the second phase has its own equation of state
    for e1, e2 in itertools.product(CODES, CODES):
        for vis, va2, w2 in (('', [], {}), (', viscous', ['b0', 'b0_2', 'μ', 'μ_2'], {'b02': 'b0_2^2', 'μ': 'μ_2'})):
            base = eosargs(e1) + eosargs(e2, '_2') + ['cv', 'cv_2', 'Tref', 'Tref_2'] + va2
            want = wants(e1, None)
            want.update({'MULTI': 1, 'cv': 'cv', 'Tref': 'Tref'})
            want2 = wants(e2, None, '_2')
            want2.update({'cv': 'cv_2', 'Tref': 'Tref_2'})
            want2.update(w2)
            if e2 == 'sg':
                want2['pINF'] = 0
            if e1 == 'sg':
                want['pINF'] = 0
            t = 'mixture %s with %s%s' % (e1, e2, vis)
            case(t, e1, base, want, want2, fixed={'MULTI': True, 'EOS_2': e2})
            if e2 == 'sg':
                case(t + ', pINF', e1, base + ['pINF_2'], want, dict(want2, pINF='pINF_2'), fixed={'MULTI': True, 'EOS_2': e2})
            case(t + ', heat', e1, base + ['cα', 'κ', 'cα_2', 'κ_2'], dict(want, **{'cα2': 'cα^2', 'κ': 'κ'}), dict(want2, **{'cα2': 'cα_2^2', 'κ': 'κ_2'}),
                 fixed={'MULTI': True, 'EOS_2': e2})
            case(t + ', no Tref', e1, [x for x in base if x not in ('Tref', 'Tref_2')], dict(want, Tref=0), dict(want2, Tref=0), fixed={'MULTI': True, 'EOS_2': e2})
            if va2:
                fx = {'MULTI': True, 'EOS_2': e2}
                if e1 == 'sg':
                    case(t + ', Prandtl', e1, base + ['cα', 'Pr', 'cα_2', 'κ_2'],
                         dict(want, **{'cα2': 'cα^2', 'κ': sy('μ') * sy('γ') * sy('cv') / sy('Pr')}), dict(want2, **{'cα2': 'cα_2^2', 'κ': 'κ_2'}), fixed=fx)
                if e2 == 'sg':
                    case(t + ', Prandtl 2', e1, base + ['cα', 'κ', 'cα_2', 'Pr_2'], dict(want, **{'cα2': 'cα^2', 'κ': 'κ'}),
                         dict(want2, **{'cα2': 'cα_2^2', 'κ': sy('μ_2') * sy('γ_2') * sy('cv_2') / sy('Pr_2')}), fixed=fx)
                if e2 != 'gr':
                    case(t + ', β 2', e1, base + ['β_2'], want, dict(want2, β='β_2'), fixed=fx)
                case(t + ', exponent 2', e1, base + ['n_2'], want, dict(want2, n='n_2'), fixed=fx)

    case('vacuum', 'vac', [], {'EOS': -1, 'REACTION': -1})

    # ------------------------------------------------ every parameter the solver reads is set by some material
    reads = {}
    for F in P_.all:
        if F.q.startswith('pybind_module_') or '/src/' not in os.path.normpath(F.file):
            continue

        def see(n, F=F):
            if n.get('k') == 'mem' and n.get('n') in fields:
                b = n['b']
                ty = F.tt[b['t']] if isinstance(b.get('t'), int) else {}
                while isinstance(ty.get('e'), int):
                    ty = F.tt[ty['e']]
                if ty.get('n') in rec or ty.get('n') is None:
                    reads.setdefault(n['n'], []).append((F, n.get('l', F.line)))
        walk(F.d['body'], see)
    c.true('parameters the solver reads', len(reads) > 20, 'code/cpp/src', 'only %d found' % len(reads))
    for k in sorted(reads):
        F, l = reads[k][0]
        if k == 'MP2':
            continue
        c.true('parameter %s is set by some material' % k, k in setall, '%s:%d %s' % (relp(F.file), l, F.q),
               'the solver reads %s, which no material sets' % k)
    for f in sorted(py.calls, key=lambda f: py.where(f)):
        c.functions.add(py.where(f))
    for F in P_.all:
        if F.q.startswith('pybind_module_'):
            c.functions.add('%s:%s %s' % (relp(F.file), F.line, F.q))
