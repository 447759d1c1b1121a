"""Interprocedural side effects: which parameters, globals and static variables
a function may modify, and where.

A *root* is ('p', i) for parameter i, ('this',), ('g', name) for a global and
('s', function, name) for a static local.  Views, references, pointers and
iterators carry the roots of what they were made from; owning values do not."""

VIEWS = ('Eigen::Ref', 'Eigen::Map', 'Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Transpose', 'Eigen::ArrayWrapper', 'Eigen::MatrixWrapper',
         'Eigen::Reverse', 'Eigen::Diagonal', 'Eigen::VectorwiseOp', 'Eigen::NoAlias', 'Eigen::TriangularView', 'Eigen::IndexedView', 'Eigen::Reshaped',
         'Eigen::CwiseUnaryView', '__gnu_cxx::__normal_iterator', 'std::reference_wrapper')
INTO = {'data', 'begin', 'end', 'rbegin', 'rend', 'front', 'back', 'at', 'operator()', 'operator[]', 'coeffRef', 'row', 'col', 'block', 'segment', 'head',
        'tail', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'middleRows',
        'middleCols', 'transpose', 'array', 'matrix', 'noalias', 'diagonal', 'reverse', 'rowwise', 'colwise', 'derived', 'const_cast_derived', 'reshaped', 'get',
        'x', 'y', 'z', 'w', 'real', 'imag', 'operator*', 'operator->', 'base', 'eval', 'triangularView', 'template segment'}
CHANGE = {'setZero', 'setOnes', 'setConstant', 'setIdentity', 'setRandom', 'setLinSpaced', 'fill', 'swap', 'normalize', 'push_back', 'emplace_back', 'pop_back',
          'clear', 'erase', 'insert', 'resize', 'conservativeResize', 'assign', 'reserve', 'transposeInPlace', 'reverseInPlace', 'adjointInPlace', 'compute', 'add',
          'emplace', 'reset'}
ALGO = {'swap': None, 'sort': None, 'fill': None, 'reverse': None, 'iota': None, 'nth_element': None, 'copy': 2, 'copy_n': 2, 'transform': -1, 'memcpy': 0, 'memset': 0}
ASG = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='}


def ty(F, t):
    tt = F.tt
    return tt[t] if isinstance(t, int) else t or {}


def is_view(F, t, deep=0):
    t = ty(F, t)
    if t.get('c') in ('ref', 'rref', 'ptr'):
        e = ty(F, t.get('e'))
        return not e.get('const')
    if t.get('c') == 'rec' and t.get('n') in VIEWS and not t.get('const_elem'):
        a = t.get('a') or []
        if a and isinstance(a[0], dict) and 't' in a[0] and ty(F, a[0]['t']).get('const'):
            return False
        return True
    return False


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.mod = {}               # function -> {root: where}, through calls too
        self.own = {}               # function -> {root: where}, globals and statics written by it or by a callee it hands them to
        self.tls = set()
        self.unknown = 0
        self.fixed = {(k if isinstance(k, str) else k[1]) for k, g in prog.globals.items() if g.get('const')}
        self.fns = [F for F in prog.all if F.d.get('body') is not None]
        self.bysig = {}
        for F in self.fns:
            self.mod[F] = {}
            self.own[F] = {}
        ch = True
        n = 0
        while ch and n < 30:
            ch = False
            n += 1
            for F in self.fns:
                before = len(self.mod[F])
                One(self, F).run()
                ch |= len(self.mod[F]) != before
        self.rounds = n

    @staticmethod
    def returns_value(F):
        t = ty(F, F.d.get('ret'))
        return not (t.get('c') == 'b' and t.get('n') == 'void') or any(is_view(F, p['t']) for p in F.params)

    def callee(self, f, F):
        if not f:
            return None
        k = (f.get('sig'), f.get('q'), F.tu if hasattr(F, 'tu') else None)
        if k not in self.bysig:
            c = self.prog.find(f.get('q', '')) if f.get('q') else []
            if len(c) > 1:
                c2 = [x for x in c if x.d.get('sig') == f.get('sig')]
                c = c2 or c
            self.bysig[k] = c[0] if c else None
        return self.bysig[k]


def same(a, b):
    """The same expression, wherever it stands."""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.get('k') == 'cast':
            return same(a.get('e'), b)
        if b.get('k') == 'cast':
            return same(a, b.get('e'))
        return all(same(a.get(k), b.get(k)) for k in set(a) | set(b) if k not in ('l', 't', 'f') or (k == 'f' and (a.get(k) or {}).get('n') != (b.get(k) or {}).get('n')))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


class One:
    def __init__(self, E, F):
        self.E, self.F = E, F
        self.env = {}
        self.calls = 0

    def run(self):
        for i, p in enumerate(self.F.params):
            if is_view(self.F, p['t']):
                self.env[p['id']] = {('p', i)}
        # constructors initialise their own members: not an effect on arguments
        for _ in range(3):
            n = sum(len(v) for v in self.env.values())
            self.visit(self.F.d['body'])
            if sum(len(v) for v in self.env.values()) == n:
                break

    def wrote(self, roots, n):
        m = self.E.mod[self.F]
        for r in roots:
            if r[0] == 'g' and r[1] in self.E.fixed:
                continue
            if r[0] in ('g', 's'):
                self.E.own[self.F].setdefault(r, '%s:%s' % (self.F.file, n.get('l', self.F.line)))
            m.setdefault(r, '%s:%s' % (self.F.file, n.get('l', self.F.line)))

    # ---- the objects an expression gives access to
    def roots(self, e):
        if not isinstance(e, dict):
            return set()
        k = e.get('k')
        if k == 'var':
            if e.get('g'):
                return {('g', e['g'])}
            return self.env.get(e.get('id'), set())
        if k == 'this':
            return {('this',)}
        if k in ('mem', 'field'):
            return self.roots(e.get('b'))
        if k == 'idx':
            return self.roots(e.get('a'))
        if k == 'un' and e.get('op') in ('&', '*', 'pre++', 'pre--'):
            return self.roots(e.get('e'))
        if k == 'bin' and e.get('op') in ('+', '-') and ty(self.F, e.get('t')).get('c') == 'ptr':
            out = set()
            for x in (e.get('a'), e.get('b')):
                if isinstance(x, dict) and ty(self.F, x.get('t')).get('c') in ('ptr', 'arr'):
                    out |= self.roots(x)
            return out
        if k == 'bin' and e.get('op') in ASG | {','}:
            return self.roots(e.get('b') if e.get('op') == ',' else e.get('a'))
        if k == 'cas':
            return self.roots(e.get('a'))
        if k == 'cast':
            return self.roots(e.get('e'))
        if k == 'cond':
            return self.roots(e.get('a')) | self.roots(e.get('b'))
        if k == 'ctor':
            if is_view(self.F, e.get('t')):
                out = set()
                for x in e.get('a') or []:
                    if isinstance(x, dict) and ty(self.F, x.get('t')).get('c') not in ('b', 'enum'):
                        out |= self.roots(x)
                return out
            return set()
        if k == 'opcall':
            n = (e.get('f') or {}).get('n', '')
            a = e.get('a') or []
            if n in INTO and a:
                return self.roots(a[0])
            if n.replace('operator', '') in ASG and a:
                return self.roots(a[0])
            if n in ('operator<<', 'operator,') and a:
                return self.roots(a[0])
            if n in ('operator+', 'operator-') and is_view(self.F, e.get('t')) and a:
                return self.roots(a[0])
            return set()
        if k == 'mcall':
            n = (e.get('f') or {}).get('n', '')
            if n in INTO:
                return self.roots(e.get('b'))
            return set()
        if k == 'call':
            f = e.get('f') or {}
            if f.get('n') in ('move', 'ref', 'forward', 'begin', 'end', 'addressof', 'get', 'next', 'prev') and e.get('a'):
                return self.roots(e['a'][0])
            if is_view(self.F, e.get('t')):
                # an accessor: a view made from its arguments
                out = set()
                for x in e.get('a') or []:
                    out |= self.roots(x)
                return out
            return set()
        return set()

    # ---- effects
    def visit(self, n):
        if isinstance(n, list):
            for x in n:
                self.visit(x)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'decl':
            for d in n.get('a') or []:
                self.visit(d.get('i'))
                if 'id' not in d:
                    continue
                if d.get('static') and not d.get('const'):
                    self.env.setdefault(d['id'], set()).add(('s', self.F.q, d.get('n')))
                    if d.get('tls'):
                        self.E.tls.add(('s', self.F.q, d.get('n')))
                elif is_view(self.F, d.get('t')):
                    self.env.setdefault(d['id'], set()).update(self.roots(d.get('i')))
            return
        if k in ('bin', 'cas'):
            if k == 'cas' or n.get('op') in ASG and not (n['op'] == '=' and same(n.get('a'), n.get('b'))):
                self.wrote(self.roots(n.get('a')), n) if not self.rebind(n.get('a')) else None
        elif k == 'un' and n.get('op', '').endswith(('++', '--')):
            if not self.rebind(n.get('e')):
                self.wrote(self.roots(n.get('e')), n)
        elif k == 'opcall':
            f = n.get('f') or {}
            nm = f.get('n', '')
            a = n.get('a') or []
            if a and (nm.replace('operator', '') in ASG or nm in ('operator++', 'operator--')) and not self.rebind(a[0]):
                self.wrote(self.roots(a[0]), n)
            elif a and nm in ('operator<<', 'operator,'):
                self.wrote(self.roots(a[0]), n)
            else:
                self.apply(f, a, n)
        elif k == 'mcall':
            f = n.get('f') or {}
            G = self.E.callee(f, self.F) if f.get('p') else None
            if G is not None:
                if ('this',) in self.E.mod[G]:
                    self.wrote(self.roots(n.get('b')), n)
                self.args(G, n.get('a') or [], n)
            elif f.get('n') in CHANGE:
                self.wrote(self.roots(n.get('b')), n)
        elif k == 'call':
            self.apply(n.get('f') or {}, n.get('a') or [], n)
        elif k == 'ctor':
            G = self.E.callee(n.get('f'), self.F) if (n.get('f') or {}).get('p') else None
            if G is not None:
                self.args(G, n.get('a') or [], n)
        elif k == 'forrange' or k == 'rfor':
            pass
        for key, v in n.items():
            if key not in ('f', 't') and isinstance(v, (dict, list)):
                self.visit(v)

    def rebind(self, e):
        """Assignment to a pointer or iterator variable itself: no object changes."""
        while isinstance(e, dict) and e.get('k') == 'cast':
            e = e.get('e')
        if isinstance(e, dict) and e.get('k') == 'var' and not e.get('g'):
            t = ty(self.F, e.get('t'))
            return t.get('c') == 'ptr' or t.get('n') == '__gnu_cxx::__normal_iterator'
        return False

    def apply(self, f, a, n):
        G = self.E.callee(f, self.F) if f.get('p') else None
        if G is not None:
            return self.args(G, a, n)
        if f.get('q', '').startswith(('std::', 'mem')) and f.get('n') in ALGO:
            i = ALGO[f['n']]
            for j, x in enumerate(a):
                if i is None or j == (i if i >= 0 else len(a) - 2):
                    self.wrote(self.roots(x), n)
            return
        if not f:
            self.E.unknown += 1

    def args(self, G, a, n):
        self.calls += 1
        gm = self.E.mod[G]
        for r in list(gm):
            if r[0] == 'p' and r[1] < len(a):
                self.wrote(self.roots(a[r[1]]), n)
            elif r[0] in ('g', 's'):
                self.E.mod[self.F].setdefault(r, gm[r])
