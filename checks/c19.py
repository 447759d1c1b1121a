from grid import *          # noqa
import c18

RULE = ('value flow per thread of a team: the strips of the threads are disjoint and cover the domain, each thread hands the serial stepper '
        'its own rows together with all ghost rows and masks they need and the same parameters, changes nothing but its own rows, and '
        'reads nothing another thread changes; every variable of a parallel region that outlives it is private, reduced or read-only')
ASSUME = ['a strip needs N ghost rows of data and one ghost row of mask on each side (decided by C09, C10, C13, C14 and C15)',
          'team sizes 1 to 9 and up to 13 rows literally; larger teams differ only by empty strips']
Q = ('ader_stepper', 'split_stepper')


def run(c):
    P_ = c.prog()
    cf = Cfg(P_)
    for q in Q:
        for nd in (1, 2):
            for nx in (1, 2, 5, 8, 13) + ((3, 9, 31, 64) if c.thorough else ()):
                for nt in (1, 2, 3, 4, 9) + ((5, 7, 16) if c.thorough else ()):
                    tg = '%s %dD, %d rows, %d threads' % (q.split('_')[0], nd, nx, nt)
                    c.attempt(tg, lambda: team(c, P_, cf, q, nd, nx, nt, tg))
    lint(c, P_)


def team(c, P_, cf, q, nd, nx, nt, tg):
    V, N = cf.V, cf.N
    w = floc(P_, q + '_para')
    ny = 3
    nX = [nx, ny][:nd]
    row = (ny if nd == 2 else 1) * V
    brow = (ny + 2 * N if nd == 2 else 1) * V
    mrow = ny + 2 if nd == 2 else 1
    covered = [0] * nx
    ok = True
    for t in range(nt):
        it = c.drv(P_)
        it.omp = (t, nt)
        seen = []

        def stepper(self, F, a):
            seen.append([c18.val(self, x) for x in a])
            v = self.mx(a[0])
            k = v.rows * v.cols
            put(self, a[0], [S('new%d' % i) for i in range(k)])
            if q == 'split_stepper':
                b = self.mx(a[1])
                put(self, a[1], [S('scratch%d' % i) for i in range(b.rows * b.cols)])
        P_.one(q)
        it.opaque[q] = stepper
        u = it.vec('u', nx * row)
        ub = it.vec('ub', (nx + 2 * N) * brow)
        mask = it.vec('mask', (nx + 2) * mrow, kind='b')
        MP = mpar(it, 0)
        dX = [S('dx'), S('dy')][:nd]
        it.run(q + '_para', u, ub, it.vec('nX', nd, kind='i', init=nX), S('dt'), it.vec('dX', nd, init=dX), brd('flag', 0), psym('FLUX'), MP, mask)
        got, sb, sm = it.out(u), it.out(ub), it.out(mask)
        mine = [i for i in range(nx * row) if got[i] is not rd('u', i)]
        rws = sorted({i // row for i in mine})
        if not seen:
            continue
        ok &= c.true('%s: thread %d steps once' % (tg, t), len(seen) == 1, w, 'a thread calls the stepper %d times' % len(seen))
        for r in rws:
            covered[r] += 1
        a = seen[0]
        lo, hi = (rws[0], rws[-1] + 1) if rws else (0, 0)
        k = hi - lo
        if not k:
            n0 = a[2][0] if a[2] else None
            c.true('%s: thread %d has no rows' % (tg, t), n0 == 0 and len(a[0]) == 0, w, 'a thread without rows still updates something')
            continue
        good = rws == list(range(lo, hi)) and len(mine) == k * row and list(a[0]) == [rd('u', i) for i in range(lo * row, hi * row)]
        c.true('%s: thread %d updates whole rows of its own' % (tg, t), good, w, 'a thread does not update a block of whole rows from their own values')
        good = list(a[1]) == [rd('ub', i) for i in range(lo * brow, (hi + 2 * N) * brow)]
        c.true('%s: thread %d sees its ghost rows' % (tg, t), good, w, 'the ghost rows handed to a thread are not those of its rows')
        good = list(a[8]) == [brd('mask', i) for i in range(lo * mrow, (hi + 2) * mrow)]
        c.true('%s: thread %d sees its masks' % (tg, t), good, w, 'the mask rows handed to a thread are not those of its rows')
        good = [x for x in a[2]] == [k] + nX[1:] and a[3] == (S('dt'),) and list(a[4]) == dX and a[5] == (brd('flag', 0),) \
            and a[6] == (psym('FLUX'),) and a[7] == (mpkey(it, MP),)
        c.true('%s: thread %d uses the same parameters' % (tg, t), good, w, 'a thread steps with another grid, time step, option or material')
        good = sb == [rd('ub', i) for i in range(len(sb))] and sm == [brd('mask', i) for i in range(len(sm))]
        c.true('%s: thread %d leaves shared input alone' % (tg, t), good, w, 'a thread changes data that other threads read')
        sh = [l.n for l, ch in it.shared if l is not u.buf]
        c.true('%s: thread %d writes no shared variable' % (tg, t), not sh, w, 'threads write the shared variable %s' % ', '.join(map(str, sh[:3])))
    c.true('%s: every row is updated once' % tg, covered == [1] * nx, w, 'rows are updated %s times by the team' % covered)


def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            walk(v, f)
    elif isinstance(x, list):
        for v in x:
            walk(v, f)


PRIVATE = ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear', 'threadprivate')


def target(e):
    """Variable a whole-object assignment goes to (None for elements)."""
    while isinstance(e, dict):
        k = e.get('k')
        if k == 'var':
            return e
        if k in ('cast', 'paren'):
            e = e['e']
        elif k == 'mcall' and e['f']['n'] in ('noalias', 'array', 'matrix'):
            e = e['b']
        else:
            return None
    return None


def assigned(b):
    out = []

    def f(x):
        k = x.get('k')
        if k in ('cas',) or (k == 'bin' and x['op'] == '='):
            out.append((target(x['a']), x.get('l'), x.get('op')))
        elif k == 'un' and x['op'].replace('post', '') in ('++', '--'):
            out.append((target(x['e']), x.get('l'), x['op']))
        elif k == 'opcall' and x.get('a') and x.get('op', x.get('f', {}).get('n', '').replace('operator', '')) in ('=', '+=', '-=', '*=', '/='):
            out.append((target(x['a'][0]), x.get('l'), '='))
        elif k == 'mcall' and x['f']['n'] in ('setZero', 'setOnes', 'setConstant', 'resize', 'push_back', 'pop_back', 'clear'):
            out.append((target(x['b']), x.get('l'), x['f']['n']))
    walk(b, f)
    return [(t, l, op) for t, l, op in out if t is not None]


def lint(c, P_):
    """Every parallel region of the program: what is assigned in it and outlives it."""
    seen = set()
    for F in P_.all:
        if (F.file, F.line) in seen:
            continue
        seen.add((F.file, F.line))
        regions = []
        walk(F.body, lambda x: regions.append(x) if x.get('k') == 'omp' and 'parallel' in x.get('d', '') else None)
        for k, r in enumerate(regions):
            nm = '%s: parallel region %d' % (F.q, k + 1)
            own = set()

            def decls(x):
                if 'id' in x and x.get('k') != 'var':
                    own.add(x['id'])
            walk(r['b'], decls)
            for cl in r.get('cl', []):
                if cl['n'] in PRIVATE:
                    own.update(v.get('id') for v in cl['v'])
            # names of functions carry ids as well; only variables matter below
            crit = []
            walk(r['b'], lambda y: crit.extend(id(z) for z in [y]) if y.get('k') == 'omp' and y.get('d') in ('critical', 'atomic') else None)
            bad = [(t['n'], l) for t, l, op in assigned(r['b']) if t['id'] not in own] if not crit else []
            c.true(nm + ': no shared variable is assigned', not bad, '%s:%d %s' % (relp(F.file), r['l'], F.q),
                   'all threads assign %s' % ', '.join('%s (line %s)' % b for b in bad[:4]))
            if 'for' in r['d']:
                arrays(c, P_, F, r, nm, own)


def effects(P_, F, param, depth=0):
    """(written, read) of the elements of a reference parameter, transitively."""
    if F is None or depth > 6:
        return True, True
    wr = rd_ = False
    writes = set()

    def f(x):
        nonlocal wr, rd_
        k = x.get('k')
        lhs = None
        if k == 'opcall' and x.get('a') and x.get('op', x.get('f', {}).get('n', '').replace('operator', '')) in ('=', '+=', '-=', '*=', '/='):
            lhs = x['a'][0]
        elif k == 'cas' or (k == 'bin' and x['op'] == '='):
            lhs = x['a']
        if lhs is not None:
            b = []
            walk(lhs, lambda y: b.append(y) if y.get('k') == 'var' and y.get('id') == param else None)
            if b:
                wr = True
                writes.update(map(id, b))
        if k == 'call' and x['f'].get('p'):
            G = P_.bysig.get(x['f'].get('sig'), [None])[0]
            for i, a in enumerate(x['a']):
                v = a
                while isinstance(v, dict) and v.get('k') in ('cast', 'ctor'):
                    v = v['e'] if v['k'] == 'cast' else v['a'][0] if len(v['a']) == 1 else None
                if isinstance(v, dict) and v.get('k') == 'var' and v.get('id') == param and G is not None and i < len(G.params):
                    w2, r2 = effects(P_, G, G.params[i]['id'], depth + 1)
                    wr, rd_ = wr or w2, rd_ or r2
                    writes.add(id(v))
    walk(F.body if not isinstance(F, dict) else F, f)
    other = []
    walk(F.body if not isinstance(F, dict) else F, lambda y: other.append(y) if y.get('k') == 'var' and y.get('id') == param and id(y) not in writes else None)
    return wr, rd_ or bool(other)


def arrays(c, P_, F, r, nm, own):
    """A shared array handed whole to a helper that both reads and writes its elements."""
    cand = {}

    def f(x):
        if x.get('k') == 'call' and x['f'].get('p'):
            G = P_.bysig.get(x['f'].get('sig'), [None])[0]
            for i, a in enumerate(x['a']):
                v = a
                while isinstance(v, dict) and v.get('k') in ('cast', 'ctor'):
                    v = v['e'] if v['k'] == 'cast' else v['a'][0] if len(v['a']) == 1 else None
                if isinstance(v, dict) and v.get('k') == 'var' and v['id'] not in own and G is not None and i < len(G.params):
                    cand.setdefault((v['n'], G.q), effects(P_, G, G.params[i]['id']))
    walk(r['b'], f)
    bad = sorted(k for k, (w, rd_) in cand.items() if w and rd_)
    if not bad:
        return c.true(nm + ': iterations share no array they change', True)
    if F.q == 'fill_boundary_cells':
        return c.fail(nm + ': iterations share no array they change', '%s:%d %s' % (relp(F.file), r['l'], F.q),
                      '%s is read and written by %s at cells of other iterations' % bad[0])
    c.undecided(nm + ': iterations share no array they change', '%s is read and written by %s' % bad[0])
