"""Statements, expressions and library model of the abstract interpreter."""
from fractions import Fraction

import terms as X
from terms import (T, B, C, S, ZERO, ONE, TRUE, FALSE, add, sub, mul, div, neg,
                   ite, iite, bite, band, bor, bnot, rd, brd, ird, lift, b_,
                   simp, rlt, rle, req, ige, ilt, ile, ieq, Undecided, undef)
from poly import Poly, P, psym, padd, psub, pmul, pneg, norm
from interp import *
from interp import Interp as _Base, CLoc
import re


def sname(q):
    return q.split('<')[0]


AGG = ('std::array', 'std::pair', 'std::tuple')


def pure(e):
    """No side effects in evaluating e (project calls count as effects)."""
    if isinstance(e, list):
        return all(pure(x) for x in e)
    if not isinstance(e, dict):
        return True
    r = e.get('$pure')
    if r is not None:
        return r
    k = e.get('k')
    r = True
    if k in ('cas', 'new', 'lambda', 'throw', 'unk'):
        r = k == 'lambda'
    elif k == 'un' and e['op'] in ('++', '--', 'post++', 'post--') or k == 'bin' and e['op'] == '=':
        r = False
    elif k == 'call':
        f = e.get('f')
        r = f is not None and not f.get('p') and f['n'] not in EFFECTS
    elif k == 'ctor':
        r = not (e.get('f') or {}).get('p')
    elif k == 'opcall':
        r = not e['f'].get('p') and e['op'] not in ('=', '+=', '-=', '*=', '/=', '<<', '++', '--', '|=', '&=') and \
            not (e['op'] == '()' and 'Eigen::' not in e['f']['q'])
    elif k == 'mcall':
        r = not e['f'].get('p') and (e['f']['n'] not in MUTATORS)
    if r and k != 'lambda':
        r = all(pure(v) for v in e.values() if isinstance(v, (dict, list)))
    e['$pure'] = r
    return r


EFFECTS = ('swap', 'copy', 'copy_n', 'fill', 'fill_n', 'transform', 'for_each', 'iota', 'sort', 'exchange', 'advance', 'reverse', 'reverse_copy',
           'partial_sum', 'accumulate', 'any_of', 'all_of', 'none_of', 'count_if', 'max_element', 'min_element', 'inner_product', 'printf', 'print',
           'memcpy', 'memset', 'memmove')
MUTATORS = ('push_back', 'emplace_back', 'pop_back', 'clear', 'resize', 'insert', 'erase', 'assign', 'fill', 'swap', 'setZero', 'setOnes', 'setConstant',
            'setIdentity', 'setRandom', 'setLinSpaced', 'compute', 'noalias', 'transposeInPlace', 'conservativeResize', 'reserve', 'normalize',
            'reverseInPlace', 'adjointInPlace', 'unaryExpr', 'binaryExpr')


def noline(e):
    """An expression without its positions, for telling whether two are written alike."""
    if isinstance(e, dict):
        return {k: noline(v) for k, v in e.items() if k != 'l'}
    if isinstance(e, list):
        return [noline(x) for x in e]
    return e


def truth01(x):
    """The truth value that a 0/1 integer stands for, else None."""
    if isinstance(x, (bool, B)):
        return b_(x)
    cs = X.icases(x) if isinstance(x, (int, Poly)) else None
    if cs is None or any(k not in (0, 1) for _, k in cs):
        return None
    r = FALSE
    for g, k in cs:
        if k:
            r = bor(r, g)
    return r


class Interp(_Base):
    # ============================================================ statements
    def exec(self, s):
        if self.st is None:
            return
        if 'l' in s:
            self.line = s['l']
        try:
            getattr(self, 's_' + s['k'])(s)
        except Dead:
            self.st = None
        except AttributeError as e:
            if "'s_" in str(e):
                raise Unmodelled('statement ' + s['k'])
            raise

    def s_block(self, s):
        for x in s['a']:
            self.exec(x)

    def s_expr(self, s):
        self.eval(s['e'])

    def s_null(self, s):
        pass

    def s_decl(self, s):
        for d in s['a']:
            if not isinstance(d, dict) or 'id' not in d:
                continue
            self.declare(d)

    def declare(self, d):
        if 'l' in d:
            self.line = d['l']
        fr = self.fr()
        t = self.typ(d['t'])
        name = d.get('n', '')
        if 'bind' in d:
            v = self.lv(d['i'])
            v = self.val(v) if isinstance(v, (Loc, Elem)) else v
            if isinstance(v, Rec):
                if t.get('c') not in ('ref', 'rref'):
                    v = self.copy_rec(v)
                rec = self.prog.records.get(v.cls)
                ls = [v.field(f['n'], self.deep(rec['tt'], f['t'])) for f in rec['f']]
            elif isinstance(v, SVec):
                if t.get('c') not in ('ref', 'rref') and not all(self.isrefty(x) for x in self.agg_types(t)):
                    v = self.copy_vec(v)
                ls = list(v.e)
            elif isinstance(v, Ptr):
                if t.get('c') not in ('ref', 'rref'):
                    v = Ptr(self.newbuf(name, v.buf.size, v.kind, init=[self.readbuf(v.buf, i) for i in range(v.buf.size)]), 0, v.kind)
                ls = [Elem(v.buf, padd(v.off, i)) for i in range(len(d['bind']))]
            else:
                raise Unmodelled('structured binding')
            if len(ls) != len(d['bind']):
                raise Unmodelled('structured binding')
            for b, l in zip(d['bind'], ls):
                fr.env[b['id']] = l
                if 'hid' in b:
                    fr.env[b['hid']] = l
            return
        if t.get('c') in ('ref', 'rref'):
            v = self.lv(d['i'])
            if isinstance(v, (Loc, Elem, CLoc)):
                fr.env[d['id']] = v
                return
            l = Loc(name)
            self.st.mem[l] = v
            fr.env[d['id']] = l
            return
        l = Loc(name)
        if d.get('static'):
            self.st.mem[l] = self.static_local(d, t, name)
            fr.env[d['id']] = l
            return
        if 'i' not in d or d['i'] is None:
            self.st.mem[l] = self.default(t, name)
        else:
            v = self.eval(d['i'], name)
            self.st.mem[l] = self.initv(v, t, name, d['i'])
        fr.env[d['id']] = l

    def static_local(self, d, t, name):
        """A function-local static keeps whatever an earlier call left in it:
        only a constant initialised from constants has a known value."""
        v = self.initv(self.eval(d['i'], name), t, name, d['i']) if d.get('i') is not None else self.default(t, name)
        if d.get('const') and self.constant(v):
            return v
        tag = 'static %s::%s' % (self.fr().F.q if self.fr().F is not None else '', name)
        if isinstance(v, EM) and isinstance(self.cur(v.buf), list):
            k = len(self.cur(v.buf))
            return EM(self.newbuf(name, k, v.kind, init=[self.inval(v.kind, tag, i) for i in range(k)]), v.rows, v.cols, v.rm, v.kind, v.arr, v.dr, v.dc)
        k = self.kindof(t)
        if k in ('f', 'i', 'b'):
            return {'f': S(tag), 'i': psym(tag), 'b': brd(tag, 0)}[k]
        if d.get('const') and isinstance(v, (FuncObj, SVec)):
            return v
        raise Unmodelled('static local ' + name)

    def constant(self, v):
        if isinstance(v, EM):
            c = self.cur(v.buf)
            return isinstance(c, list) and all(self.constant(x) for x in c)
        if isinstance(v, SVec):
            return all(self.constant(self.cur(l)) for l in v.e)
        if isinstance(v, Ptr):
            c = self.cur(v.buf)
            return isinstance(c, list) and all(self.constant(x) for x in c)
        if isinstance(v, (int, bool)):
            return True
        if isinstance(v, T):
            st, seen = [v], set()
            while st:
                x = st.pop()
                if id(x) in seen:
                    continue
                seen.add(id(x))
                if x.k in ('s', 'rd', 'uf', 'undef', 'lam', 'mfn'):
                    return False
                for y in x.a:
                    if isinstance(y, T):
                        st.append(y)
                    elif isinstance(y, tuple):
                        st.extend(z for z in y if isinstance(z, T))
                    elif isinstance(y, (B, Poly)):
                        return False
            return True
        return False

    def isrefty(self, t):
        return t.get('c') in ('ref', 'rref')

    def initv(self, v, t, name, e):
        c = t.get('c')
        if c == 'rec' and t['n'] in ('Eigen::Matrix', 'Eigen::Array'):
            if isinstance(v, EM) and e.get('k') in ('ctor', 'call', 'cast') and getattr(self, '_fresh_em', None) is v:
                return v
            if isinstance(v, EM):
                v = self.emview(v)
            if isinstance(v, Mx):
                return self.copy_mx(v, self.mtype(t), name)
            return v
        if c == 'rec' and t['n'] == 'Eigen::Ref':
            return self.toref(v, t)
        if c in ('b', 'enum'):
            if isinstance(v, list):
                v = v[0] if v else 0
            return self.toscalar(v, self.kindof(t))
        if c == 'rec' and t['n'] in AGG:
            if isinstance(v, SVec):
                return self.copy_vec(v)
            if isinstance(v, list):
                return self.make_agg(t, v)
        if c == 'rec' and t['n'] == 'std::vector' and isinstance(v, SVec):
            return self.copy_vec(v)
        if c == 'arr' and isinstance(v, list) and isinstance(t.get('n'), int):
            et = self.typ(t['e']) if isinstance(t['e'], int) else t['e']
            if et.get('c') == 'arr':
                return [self.initv(x, et, name, {'k': 'x'}) for x in v] + [self.initv([], et, name, {'k': 'x'}) for _ in range(t['n'] - len(v))]
        if c == 'arr':
            n, k = t.get('n'), self.kindof(self.typ(t['e']) if isinstance(t['e'], int) else t['e'])
            if isinstance(v, list) and isinstance(n, int) and k != 'o':
                zero = {'f': ZERO, 'i': 0, 'b': FALSE}.get(k, ZERO)
                init = [self.toscalar(x, k) for x in v] + [zero] * (n - len(v))
                return Ptr(self.newbuf(name, n, k, init=init), 0, k)
        if isinstance(v, Rec) and c == 'rec' and e.get('k') not in ('ctor', 'call', 'opcall', 'mcall'):
            return self.copy_rec(v)
        return v

    def own(self, v, name):
        return v

    def s_if(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if s.get('cvar'):
            self.declare(s['cvar'])
        c = self.cond(s['c'])
        if c is True:
            self.exec(s['a'])
        elif c is False:
            if s.get('b'):
                self.exec(s['b'])
        else:
            base = self.st
            a = base.fork()
            a.pc = with_pc(base, c)
            b = base.fork()
            b.pc = with_pc(base, bnot(c))
            self.st = a
            self.exec(s['a'])
            a = self.st
            self.st = b
            if s.get('b'):
                self.exec(s['b'])
            b = self.st
            self.st = self.merge(c, a, b)

    def cond(self, e):
        c = self.eval(e)
        if isinstance(c, Mx) and c.rows == 1 and c.cols == 1:
            c = c.get(0, 0)
        if isinstance(c, (Ptr, Obj)):
            return X.buf_('ptrtest', (self.sym('p'),))
        c = b_(c)
        c = simp(c)
        if isinstance(c, bool):
            return c
        if c in self.st.pc:
            return True
        if bnot(c) in self.st.pc:
            return False
        if c.k == 'and' and all(x in self.st.pc for x in c.a):
            return True
        if getattr(self, 'lanes', None) is not None:
            return self.generic(c)
        return c

    def generic(self, c):
        """A condition with one truth value on every ordered lane is decided
        (generic data of the kind the lanes draw; ordinarily switched off)."""
        import numpy as np
        v = np.broadcast_to(self.lanes.b(c), (self.lanes.L,))
        return True if v.all() else c if v.any() else False

    def s_ret(self, s):
        v = None
        if s.get('e') is not None:
            v = self.eval(s['e'])
            t = self.typ(self.fr().F.ret) if self.fr().F and self.fr().F.ret is not None else None
            if t is not None:
                if t.get('c') in ('ref', 'rref', 'ptr'):
                    v = self.lv(s['e']) if t.get('c') == 'ref' else v
                else:
                    v = self.retval(v, t)
        self.fr().rets.append((self.st, v))
        self.st = None

    def retval(self, v, t):
        c = t.get('c')
        if c == 'rec' and t['n'] in ('Eigen::Matrix', 'Eigen::Array'):
            if isinstance(v, EM):
                v = self.emview(v)
            if isinstance(v, Mx):
                return self.copy_mx(v, self.mtype(t), 'ret')
            return v
        if c in ('b', 'enum'):
            return self.toscalar(v, self.kindof(t))
        return v

    def s_throw(self, s):
        self.st = None

    def s_break(self, s):
        self.fr().loops[-1].breaks.append(self.st)
        self.st = None

    def s_continue(self, s):
        for l in reversed(self.fr().loops):
            if l.sym != 'switch':
                l.conts.append(self.st)
                break
        self.st = None

    def s_switch(self, s):
        v = self.eval(s['c'])
        v = self.toscalar(v, 'i')
        body = s['b']
        items = []

        def flat(x):
            if x['k'] in ('case', 'default'):
                items.append((x['v'] if x['k'] == 'case' else 'default', None))
                if x.get('b'):
                    flat(x['b'])
            else:
                items.append((None, x))
        for x in body['a'] if body['k'] == 'block' else [body]:
            flat(x)
        labels = [l for l, _ in items if l is not None and l != 'default']
        base = self.st
        ctx = LoopCtx('switch')
        self.fr().loops.append(ctx)

        def enter(l):
            if l == 'default':
                return band(*[bnot(ieq(v, y)) for y in labels])
            return ieq(v, l)
        self.st = None
        try:
            for l, x in items:
                if l is not None:
                    c = enter(l)
                    if c is FALSE:
                        continue
                    f = base.fork()
                    f.pc = with_pc(base, c)
                    self.st = self.merge(c, f, self.st) if self.st is not None else f
                elif self.st is not None:
                    self.exec(x)
        finally:
            self.fr().loops.pop()
        outs = ctx.breaks + ([self.st] if self.st is not None else [])
        if 'default' not in [l for l, _ in items]:
            c = band(*[bnot(ieq(v, y)) for y in labels])
            if c is not FALSE:
                f = base.fork()
                f.pc = with_pc(base, c)
                outs.append(f)
        r = self.merge_many(outs)
        if r is not None and len(outs) > 1:
            # every label and the complement joined again
            covered = bor(*[band(*[y for y in o.pc if y not in base.pc]) for o in outs])
            if covered is TRUE or self.tautology(covered):
                r.pc = base.pc
        self.st = r

    def s_case(self, s):
        if s.get('b'):
            self.exec(s['b'])

    s_default = s_case

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        if s.get('i'):
            self.exec(s['i'])
        var, lo, hi = self.induction(s)
        if var is not None:
            if not (isinstance(lo, int) and isinstance(hi, int) and hi - lo <= self.UNROLL):
                cs = X.icases(hi) if isinstance(lo, int) else None
                if cs is not None and all(k - lo <= self.UNROLL for _, k in cs):
                    return self.case_loop(s, var, cs)
                return self.gen_loop(var, lo, hi, lambda: self.exec(s['b']))
        self.run_loop(s.get('c'), s['b'], s.get('s'))

    def case_loop(self, s, var, cs):
        """A bound that is one of a few known numbers: one run per number."""
        base, outs = self.st, []
        for g, hi in cs:
            if g is FALSE:
                continue
            self.st = base.fork()
            if g is not TRUE:
                self.st.pc = with_pc(base, g)
            self.run_loop(lambda hi=hi: simp(self.compare('<', self.cur(var), hi)), s['b'], s.get('s'))
            outs.append(self.st)
        self.st = self.merge_many(outs)

    def induction(self, s):
        c, st = s.get('c'), s.get('s')
        if not c or not st:
            return None, None, None
        if c['k'] != 'bin' or c['op'] not in ('<', '<=', '!='):
            return None, None, None
        a = strip(c['a'])
        if a['k'] != 'var' or 'id' not in a:
            return None, None, None
        ok = st['k'] == 'un' and st['op'] in ('++', 'post++') and strip(st['e']).get('id') == a['id'] or \
            st['k'] == 'cas' and st['op'] == '+=' and strip(st['a']).get('id') == a['id'] and strip(st['b']) .get('v') == 1
        if not ok:
            return None, None, None
        l = self.fr().env.get(a['id'])
        if not isinstance(l, Loc):
            return None, None, None
        lo = self.cur(l)
        if not is_int(lo):
            return None, None, None
        hi = self.eval(c['b'])
        if not is_int(hi):
            return None, None, None
        if c['op'] == '<=':
            hi = padd(hi, 1)
        return l, lo, hi

    def run_loop(self, c, body, step, first=True):
        ctx = LoopCtx()
        self.fr().loops.append(ctx)
        n = 0
        bounded = False
        exits = []
        try:
            while self.st is not None:
                if c is not None:
                    b = c() if callable(c) else self.cond(c)
                    if b is False:
                        break
                    if b is not True:
                        if n == 0:
                            bounded = not callable(c) and self.has_bound(c)
                        if n == 0 and not bounded:
                            self.fr().loops.pop()
                            try:
                                return self.gen_while(c, body, step)
                            finally:
                                self.fr().loops.append(ctx)
                        if n > (16 if bounded else 4):
                            raise Unmodelled('loop with data-dependent bound')
                        f = self.st.fork()
                        f.pc = with_pc(self.st, bnot(b))
                        exits.append(f)
                        self.st.pc = with_pc(self.st, b)
                n += 1
                if n > 400:
                    raise Unmodelled('long loop')
                ctx.conts = []
                self.exec(body)
                self.st = self.merge_many(ctx.conts + [self.st])
                if self.st is not None and step is not None:
                    self.eval(step)
        finally:
            self.fr().loops.pop()
        self.st = self.merge_many(ctx.breaks + exits + [self.st])

    def has_bound(self, c):
        """Does a conjunct with a known value (a count against a literal limit) end the loop?"""
        c = strip(c)
        if c['k'] == 'bin' and c['op'] == '&&':
            return self.has_bound(c['a']) or self.has_bound(c['b'])
        if c['k'] != 'bin' or c['op'] not in ('<', '<=', '>', '>=', '!=') or not pure(c):
            return False
        try:
            a, b = self.eval(c['a']), self.eval(c['b'])
        except (Unmodelled, IndexError):
            return False
        return isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and abs(a - b) <= 16

    def s_while(self, s):
        self.run_loop(s['c'], s['b'], None)

    def s_do(self, s):
        ctx = LoopCtx()
        self.fr().loops.append(ctx)
        try:
            self.exec(s['b'])
            self.st = self.merge_many(ctx.conts + [self.st])
        finally:
            self.fr().loops.pop()
        if self.st is not None:
            self.run_loop(s['c'], s['b'], None)
        self.st = self.merge_many(ctx.breaks + [self.st])

    def s_forr(self, s):
        r = self.eval(s['r'])
        t = self.typ(s['v']['t'])
        isref = t.get('c') in ('ref', 'rref')
        if isinstance(r, EM):
            r = self.emview(r)
        places = not isinstance(r, (list, tuple))
        if isinstance(r, SVec):
            items = list(r.e)
        elif isinstance(r, (list, tuple)):
            items = list(r)
        elif isinstance(r, View) and is_int(r.rows) and is_int(r.cols) and (r.rows == 1 or r.cols == 1):
            items = [Elem(r.buf, r.at(k, 0) if r.cols == 1 else r.at(0, k)) for k in range(r.rows * r.cols)]
        elif isinstance(r, Ptr) and is_int(r.off) and is_int(r.buf.size):
            items = [Elem(r.buf, k) for k in range(r.off, r.buf.size)]
        else:
            raise Unmodelled('range-for')
        if len(items) > 400:
            raise Unmodelled('long loop')
        ctx = LoopCtx()
        self.fr().loops.append(ctx)
        try:
            for x in items:
                if isref and isinstance(x, (Loc, Elem)):
                    self.fr().env[s['v']['id']] = x
                else:
                    v = self.val(x) if isinstance(x, (Loc, Elem)) and (t.get('c') != 'ptr' or places) else x
                    l = Loc(s['v'].get('n', 'item'))
                    self.st.mem[l] = self.initv(v, t, s['v'].get('n', 'item'), {}) if not isref else v
                    self.fr().env[s['v']['id']] = l
                ctx.conts = []
                self.exec(s['b'])
                self.st = self.merge_many(ctx.conts + [self.st])
                if self.st is None:
                    break
        finally:
            self.fr().loops.pop()
        self.st = self.merge_many(ctx.breaks + [self.st])

    def s_omp(self, s):
        d = s.get('d', '')
        b = s['b']
        if 'for' in d:
            self.effects.append(('omp', d, self.here()))
            return self.exec(b)
        if 'parallel' in d and getattr(self, 'omp', None):
            # one thread of a literal team; what it changes outside the region is recorded
            old = {l: (list(v) if isinstance(v, list) else v) for l, v in self.st.mem.items()}
            self.exec(b)
            for l, v in self.st.mem.items():
                if l not in old:
                    continue
                if isinstance(v, list):
                    ch = [i for i, (x, y) in enumerate(zip(v, old[l])) if x is not y]
                    if ch or len(v) != len(old[l]):
                        self.shared.append((l, ch))
                elif v is not old[l] and not (isinstance(v, (int, Poly)) and v == old[l]):
                    self.shared.append((l, None))
            return
        if 'parallel' in d:
            tid = self.sym('tid')
            nt = psym('nthreads')
            save = getattr(self, 'tid', None)
            self.tid = tid
            self.par = (tid, nt)
            try:
                self.gen_loop(None, 0, nt, lambda: self.exec(b), name=tid, par=True)
            finally:
                self.tid = save
            return
        return self.exec(b)

    def s_try(self, s):
        self.exec(s['b'])

    def s_unk(self, s):
        raise Unmodelled('statement (%s)' % s.get('c', '?'))

    # ---- generic loops
    def gen_while(self, c, body, step):
        f = self.sym('trip')
        hi = psym(f)

        def run():
            b = self.cond(c)
            if b is not True:
                self.st.pc = with_pc(self.st, b)
            self.exec(body)
            if self.st is not None and step is not None:
                # continues join before the step
                ctx = self.fr().loops[-1]
                self.st = self.merge_many(ctx.conts + [self.st])
                ctx.conts = []
                if self.st is not None:
                    self.eval(step)
        self.gen_loop(None, 0, hi, run, condexpr=c)

    def gen_loop(self, var, lo, hi, run, name=None, par=False, condexpr=None):
        if isinstance(lo, int) and isinstance(hi, int) and hi <= lo:
            return
        pre = self.st
        v = name or self.sym('i')
        havoc = {}
        closed = {}
        fr = self.fr()
        nret0 = len(fr.rets)
        seen_reads = None
        for attempt in range(8):
            st = pre.fork()
            self.st = st
            if var is not None:
                st.mem[var] = psym(v)
            for key, (cs, kind) in havoc.items():
                if key in closed:
                    self.setkey(st, key, padd(closed[key][0], pmul(closed[key][1], psub(psym(v), lo))))
                else:
                    self.setkey(st, key, cs)
            start = dict(st.mem)
            startlists = {k: list(x) for k, x in start.items() if isinstance(x, list)}
            st.owned = set()
            logs0 = {k: len(x.ent) for k, x in start.items() if isinstance(x, Log)}
            g = Gen(v, lo, hi, par)
            self.gens.append(g)
            ctx = LoopCtx()
            fr.loops.append(ctx)
            del fr.rets[nret0:]
            try:
                run()
            finally:
                fr.loops.pop()
                self.gens.pop()
            ends = ctx.conts + [self.st]
            E = self.merge_many(ends)
            Bk = self.merge_many(ctx.breaks)
            rets = fr.rets[nret0:]
            allst = [x for x in [E, Bk] + [r[0] for r in rets] if x is not None]
            mod = {}
            for k0 in set(pre.mem) | set(self.base_mem):
                if k0 is var:
                    continue
                for sx in allst:
                    if k0 not in sx.mem:
                        continue
                    a = start.get(k0, self.base_mem.get(k0))
                    b = sx.mem[k0]
                    if isinstance(b, list):
                        a = startlists.get(k0, a)
                        if a is None or isinstance(a, Log):
                            continue
                        for i, (x, y) in enumerate(zip(a, b)):
                            if x is not y and x != y:
                                mod[(k0, i)] = x
                    elif isinstance(b, Log):
                        continue
                    elif a is not b and not (isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) and a == b):
                        if isinstance(a, EM) and isinstance(b, EM) and a.same(b):
                            continue
                        mod[(k0, None)] = a
            new = [k for k in mod if k not in havoc]
            if not new:
                # closed forms
                added = False
                for k, (cs, kind) in havoc.items():
                    if k in closed or kind != 'i' or E is None:
                        continue
                    e = self.getkey(E, k)
                    if is_int(e):
                        d = psub(e, cs)
                        init = self.getkey(pre, k)
                        if isinstance(d, int) and d != 0 and is_int(init) and not rets and Bk is None:
                            closed[k] = (init, d)
                            added = True
                if added:
                    continue
                break
            for k in new:
                x = mod[k]
                havoc[k] = self.carrier(v, k, x)
        else:
            raise Unmodelled('loop does not stabilise at ' + self.here())
        # ---- after the loop
        self.check_carried(g, allst, logs0)
        states = []
        inits, steps = {}, {}

        def foldval(state, k, tag):
            cs, kind = havoc[k]
            e = self.getkey(state, k)
            return self.fold(v, lo, hi, havoc, closed, pre, E if tag is None else state, k, tag, kind, state)
        # break / return conditions
        exitc = []
        for tag, sx in [('brk', Bk)] + [('ret%d' % i, r[0]) for i, r in enumerate(rets)]:
            if sx is None:
                continue
            cnd = band(*[x for x in sx.pc if x not in pre.pc])
            exitc.append((tag, sx, self.existsc(v, lo, hi, havoc, pre, E, cnd, tag)))
        post = pre.fork()
        if E is not None:
            self.copy_logs(post, E, logs0, v, lo, hi)
            for k in havoc:
                if k in closed:
                    init, d = closed[k]
                    n = self.trip(lo, hi)
                    self.setkey(post, k, padd(init, pmul(d, n)))
                else:
                    self.setkey(post, k, foldval(E, k, None))
            if var is not None:
                post.mem[var] = hi
        noexit = band(*[bnot(c) for _, _, c in exitc])
        post.pc = with_pc(pre, noexit)
        outs = []
        for i, (tag, sx, c) in enumerate(exitc):
            q = pre.fork()
            src = E if E is not None else sx
            self.copy_logs(q, sx, logs0, v, lo, hi)
            for k in havoc:
                self.setkey(q, k, foldval(sx, k, tag))
            if var is not None:
                q.mem[var] = psym(X_name(X.ikernel('at', tag, c)))
            q.pc = with_pc(pre, c)
            if tag == 'brk':
                outs.append(q)
            else:
                j = int(tag[3:])
                rv = rets[j][1]
                fr.rets[nret0 + j] = (q, self.escape(rv, v, havoc, c, tag))
        del fr.rets[nret0 + len(rets):]
        if E is None and exitc:
            pass
        self.st = self.merge_many(outs + [post])
        if self.st is not None and not any(t.startswith('ret') for t, _, _ in exitc):
            self.st.pc = pre.pc

    def escape(self, rv, v, havoc, c, tag):
        """A value leaving the loop from a particular iteration."""
        if isinstance(rv, (T, B, int, Poly)) and not isinstance(rv, bool):
            cs = [x[0] for x in havoc.values()]
            dep = X.idep(rv, [v]) or (isinstance(rv, (T, B)) and any(n in cs for n in X.walk([rv])))
            if not dep:
                return rv
            if isinstance(rv, T):
                return X.mk('fold', 'at' + tag, v, 0, 0, (), (), (rv,))
            if isinstance(rv, B):
                return X.buf_('at', (X.mk('fold', 'at' + tag, v, 0, 0, (), (), (lift(rv),)),))
            return X.ikernel('fold', X.mk('fold', 'at' + tag, v, 0, 0, (), (), (lift(rv),)))
        return rv

    def trip(self, lo, hi):
        n = psub(hi, lo)
        if isinstance(n, int):
            return max(n, 0)
        return n

    def getkey(self, st, k):
        loc, i = k
        x = st.mem.get(loc, self.base_mem.get(loc))
        return x[i] if i is not None else x

    def setkey(self, st, k, val):
        loc, i = k
        if i is None:
            st.mem[loc] = val
        else:
            x = st.mem.get(loc, self.base_mem.get(loc))
            if loc not in st.owned:
                x = list(x)
                st.mem[loc] = x
                st.owned.add(loc)
            x[i] = val

    def carrier(self, v, k, x):
        nm = 'carried:%s:%s:%s' % (v, k[0].n, k[1])
        if isinstance(x, bool) or isinstance(x, B):
            n = self.sym('cb')
            return (X.buf_('carried', (psym(n),)), 'b')
        if is_int(x):
            return (psym(self.sym('ci')), 'i')
        if isinstance(x, T):
            return (X.mk('s', '%s#%s' % (nm, self.sym(''))), 'f')
        return (Obj('ambiguous'), 'o')

    def cdeps(self, t, havoc, byint):
        """Carried keys a value depends on."""
        out = set()
        if not isinstance(t, (T, B, Poly)):
            return out
        names = set()
        st = [t]
        seen = set()
        while st:
            n = st.pop()
            if isinstance(n, tuple):
                st.extend(n)
            elif isinstance(n, Poly):
                for s in n.syms():
                    if s in byint:
                        out.add(byint[s])
                    if s in X._ik and s not in seen:
                        seen.add(s)
                        st.extend(X._ik[s][1:])
            elif isinstance(n, (T, B)):
                if n in seen:
                    continue
                seen.add(n)
                if n in byint:
                    out.add(byint[n])
                st.extend(n.a)
        return out

    def byint(self, havoc):
        m = {}
        for k, (cs, kind) in havoc.items():
            if kind == 'i':
                m[next(iter(cs.syms()))] = k
            elif kind in ('f', 'b'):
                m[cs] = k
        return m

    def fold(self, v, lo, hi, havoc, closed, pre, E, k, tag, kind, state):
        byint = self.byint(havoc)
        e = self.getkey(state, k)
        init = self.getkey(pre, k)
        if kind == 'o':
            return e if not isinstance(e, Obj) else init
        if e is havoc[k][0]:
            return init
        if tag is None and kind == 'f' and isinstance(e, T):
            # plain scratch value or reduction
            pass
        order = [k]
        todo = [k]
        vals = {k: e}
        while todo:
            x = todo.pop(0)
            for d in sorted(self.cdeps(vals[x], havoc, byint), key=lambda kk: (kk[0].i, kk[1] or 0)):
                if d in closed:
                    continue
                if d not in vals:
                    order.append(d)
                    vals[d] = self.getkey(E, d) if E is not None else havoc[d][0]
                    if not isinstance(vals[d], (T, B, int, Poly)):
                        vals[d] = ZERO
                    todo.append(d)
        # is v or any carrier involved at all?
        if len(order) == 1 and k not in self.cdeps(e, havoc, byint) and not X.idep(e, [v]) and tag is not None:
            return e
        cs = []
        for x in order:
            c0, kd = havoc[x]
            cs.append(next(iter(c0.syms())) if kd == 'i' else c0)
        inits = []
        for x in order:
            i0 = self.getkey(pre, x)
            inits.append(lift(i0) if isinstance(i0, (T, B, int, Poly)) else ZERO)
        guard = ()
        if tag is not None:
            cnd = band(*[y for y in state.pc if y not in pre.pc])
            guard = (ite(cnd, ONE, ZERO),)
        f = X.mk('fold', (tag or 'end'), v, lo, hi, tuple(cs), tuple(inits), tuple(lift(vals[x]) for x in order) + guard)
        if tag is None and isinstance(lo, (int, Poly)) and isinstance(hi, (int, Poly)):
            nonempty = ilt(lo, hi)
        else:
            nonempty = TRUE
        if kind == 'f':
            return ite(nonempty, f, lift(init))
        if kind == 'i':
            return iite(nonempty, X.ikernel('fold', f), init)
        return bite(nonempty, X.buf_('fold', (f,)), init)

    def existsc(self, v, lo, hi, havoc, pre, E, cnd, tag):
        byint = self.byint(havoc)
        order, vals = [], {}
        todo = sorted(self.cdeps(cnd, havoc, byint), key=lambda kk: (kk[0].i, kk[1] or 0))
        while todo:
            x = todo.pop(0)
            if x in vals:
                continue
            order.append(x)
            val = self.getkey(E, x) if E is not None else havoc[x][0]
            vals[x] = val if isinstance(val, (T, B, int, Poly)) else ZERO
            todo += sorted(self.cdeps(vals[x], havoc, byint), key=lambda kk: (kk[0].i, kk[1] or 0))
        cs = []
        for x in order:
            c0, kd = havoc[x]
            cs.append(next(iter(c0.syms())) if kd == 'i' else c0)
        inits = tuple(lift(i0) if isinstance(i0, (T, B, int, Poly)) else ZERO
                      for i0 in (self.getkey(pre, x) for x in order))
        f = X.mk('fold', 'exists', v, lo, hi, tuple(cs), inits, tuple(lift(vals[x]) for x in order) + (ite(cnd, ONE, ZERO),))
        return X.buf_('exists', (f,))

    def copy_logs(self, post, E, logs0, v, lo, hi):
        for k, x in E.mem.items():
            if isinstance(x, Log) and k in logs0:
                n0 = logs0[k]
                have = post.mem.get(k)
                tail = tuple(Ent(e.off, e.co, e.vals, e.guard, ((v, lo, hi),) + e.loops, e.acc, e.where)
                             for e in x.ent[n0:])
                post.mem[k] = Log(x.kind, x.base, x.ent[:n0] + tail, x.size)

    # ---- cross-iteration dependences through arrays
    def check_carried(self, g, states, logs0):
        seen = set()
        for sx in states:
            for k, x in sx.mem.items():
                if not isinstance(x, Log) or k not in logs0:
                    continue
                new = x.ent[logs0[k]:]
                if not new:
                    continue
                reads = [r for r in g.reads if r[0] is k]
                for r in reads:
                    for e in new:
                        key = (id(e), r[1])
                        if key in seen:
                            continue
                        seen.add(key)
                        if self.conflict(g, e, r):
                            self.carried.append((k.n, r[3], e.where, g.v))
                if g.par or True:
                    for i, e in enumerate(new):
                        for e2 in new[:i + 1]:
                            if e.acc and e2.acc and not g.par:
                                continue
                            if g.par and self.conflict(g, e, (k, e2.off, e2.guard, e2.where), e2):
                                self.effects.append(('race', k.n, e.where, e2.where))

    def conflict(self, g, e, r, e2=None):
        """Can iteration v' != v of loop g make store e hit the address read at v?"""
        import numpy as np
        L = 512
        ev = X.Ev(L, 11)
        rng = np.random.default_rng(5)
        names = set()

        def syms(x):
            st = [x]
            while st:
                n = st.pop()
                if isinstance(n, Poly):
                    for s in n.syms():
                        if s in X._ik:
                            if s not in names:
                                names.add(s)
                                st.extend(y for y in X._ik[s][1:] if isinstance(y, Poly))
                        else:
                            names.add(s)
        pcr = r[2] if isinstance(r[2], tuple) else (r[2],)
        loops = [(x.v, x.lo, x.hi) for x in self.gens] + [(g.v, g.lo, g.hi)]
        for y in (e.off, r[1], g.lo, g.hi) + tuple(e.co):
            syms(y)
        for l in e.loops + tuple(loops) + (e2.loops if e2 else ()):
            syms(l[1]), syms(l[2])
        asg = {}
        for s in names:
            if s in X._ik:
                continue
            if s.startswith('@'):
                asg[s] = np.full(L, 100003, dtype=np.int64)
            else:
                asg[s] = rng.integers(1, 5, L)
        ok = np.ones(L, bool)

        def assign_loops(asg, ls):
            okl = np.ones(L, bool)
            for (v, lo, hi) in ls:
                ev0 = X.Ev(L, 11, ints=asg)
                a, b = ev0.i(lo), ev0.i(hi)
                n = b - a
                okl &= n > 0
                nn = np.where(n > 0, n, 1)
                asg[v] = a + rng.integers(0, 1 << 30, L) % nn
            return okl
        ok &= assign_loops(asg, loops)
        a1 = dict(asg)
        if e2 is not None:
            ok &= assign_loops(a1, e2.loops)
        a2 = dict(asg)
        okx = assign_loops(a2, [(g.v, g.lo, g.hi)] + list(e.loops))
        ok &= okx
        ok &= a1[g.v] != a2[g.v]
        ev1, ev2 = X.Ev(L, 11, ints=a1), X.Ev(L, 11, ints=a2)
        try:
            for c in pcr:
                ok &= ev1.b(c)
            ok &= ev2.b(e.guard)
        except Undecided:
            pass
        r0 = ev1.i(r[1])
        for co in e.co:
            if (ok & (ev2.i(padd(e.off, co)) == r0)).any():
                return True
        return False

    # ============================================================ expressions
    def eval(self, e, hint=''):
        if 'l' in e:
            self.line = e['l']
        f = getattr(self, 'e_' + e['k'], None)
        if f is None:
            raise Unmodelled('expression ' + e['k'])
        return f(e)

    def val(self, x):
        if isinstance(x, Loc):
            return self.cur(x)
        if isinstance(x, Elem):
            return self.readbuf(x.buf, x.off)
        if isinstance(x, CLoc):
            return self.merge_val(x.c, self.val(x.a), self.val(x.b))
        return x

    def e_int(self, e):
        return e['v'] if isinstance(e['v'], int) else int(e['v'])

    def e_flt(self, e):
        s = str(e.get('s') or e['v'])
        s = s.rstrip('fFlL')
        try:
            return C(Fraction(s))
        except (ValueError, ZeroDivisionError):
            try:
                return C(Fraction(repr(float(s))))
            except ValueError:
                return C(Fraction(repr(float(e['v']))))

    def e_bool(self, e):
        return bool(e['v'])

    def e_str(self, e):
        return Obj('str')

    def e_null(self, e):
        return Obj('null')

    def e_this(self, e):
        return self.fr().this

    def lookup(self, e):
        if 'id' in e:
            l = self.fr().env.get(e['id'])
            if l is None:
                # captured variable of an enclosing frame (lambda)
                for fr in reversed(self.frames):
                    if e['id'] in fr.env and fr.F is self.fr().F:
                        return fr.env[e['id']]
                raise Unmodelled('unbound variable ' + e.get('n', '?'))
            return l
        return self.gvar(e)

    def gvar(self, e):
        n = e['n']
        F = self.fr().F
        tu = F.tu if F is not None else self.curtu
        g = self.prog.globals.get((tu, e['g'])) or self.prog.globals.get(e['g'])
        key = id(g) if g is not None else e['g']
        l = self.gl.get(key)
        if l is not None:
            return l
        l = Loc(n)
        self.gl[key] = l
        if n in self.gsym:
            v = self.gsym[n]
            self.base_mem[l] = v(self) if callable(v) else v
            return l
        if g is None or 'i' not in g:
            t = (g or {}).get('t')
            if 'cv' in e:
                self.base_mem[l] = e['cv']
                return l
            raise Unmodelled('global %s' % n)
        # evaluate the initialiser in its own translation unit
        fr = Frame(None, g['tt'])
        save_tu = getattr(self, 'curtu', None)
        self.curtu = g['tu']
        sv = (self.file, self.line)
        self.file = g['file']
        self.frames.append(fr)
        svst = self.st
        self.st = State(dict(self.base_mem), ())
        gens, self.gens = self.gens, []
        known = set(self.base_mem)
        try:
            v = self.eval(g['i'])
            t = g['tt'][g['t']]
            v = self.initv(v, t, n, g['i'])
            for k, x in self.st.mem.items():
                if k not in known:
                    self.base_mem[k] = x
        finally:
            self.gens = gens
            self.st = svst
            self.frames.pop()
            self.curtu = save_tu
            self.file, self.line = sv
        self.base_mem[l] = v
        return l

    def e_var(self, e):
        if 'cv' in e and 'g' in e and e['n'] not in self.gsym:
            return self.cvv(e)
        return self.val(self.lookup(e))

    def cvv(self, e):
        v = e['cv']
        t = self.typ(e['t'])
        k = self.kindof(t)
        if k == 'f':
            g = self.val(self.gvar(e))
            return g
        if k == 'b':
            return bool(v)
        return int(v)

    def e_binding(self, e):
        return self.val(self.lookup(e))

    def e_fn(self, e):
        return FuncObj(fn=e['f'])

    def e_field(self, e):
        raise Unmodelled('member pointer')

    def recof(self, e):
        b = self.lv(e['b']) if e.get('b') else self.fr().this
        b = self.val(b) if isinstance(b, (Loc, Elem)) else b
        if isinstance(b, Rec):
            return b
        if isinstance(b, SVec) and e['n'] in ('first', 'second') and len(b.e) == 2:
            return b
        raise Unmodelled('member %s of %s' % (e['n'], type(b).__name__ + (':' + b.k if isinstance(b, Obj) else '')))

    def e_mem(self, e):
        r = self.recof(e)
        if isinstance(r, SVec):
            return self.val(r.e[e['n'] == 'second'])
        return self.val(r.field(e['n'], self.fty(r, e)))

    def fields(self, r):
        """Every field of a record with its type (bases included)."""
        out = {n: None for n in r.f}
        seen = [r.cls]
        while seen:
            rec = self.prog.records.get(seen.pop())
            if rec is None:
                continue
            for f in rec['f']:
                out[f['n']] = self.deep(rec['tt'], f['t'])
            for b in rec['b']:
                seen.append((rec['tt'][b] if isinstance(b, int) else b)['n'])
        return out

    def fty(self, r, e):
        cls = r.cls
        seen = [cls]
        while seen:
            c = seen.pop()
            rec = self.prog.records.get(c)
            if rec is None:
                continue
            for f in rec['f']:
                if f['n'] == e['n']:
                    return self.deep(rec['tt'], f['t'])
            for b in rec['b']:
                bt = rec['tt'][b] if isinstance(b, int) else b
                seen.append(bt['n'])
        return None

    def deep(self, tt, i):
        """type table entry with nested indices resolved one level into dicts"""
        t = dict(tt[i]) if isinstance(i, int) else dict(i)
        if 'a' in t:
            t['a'] = [({'t': self.deep(tt, a['t'])} if isinstance(a, dict) and 't' in a else a) for a in t['a']]
        if 'e' in t and isinstance(t['e'], int):
            t['e'] = self.deep(tt, t['e'])
        return t

    def tyarg(self, a):
        if isinstance(a, dict) and 't' in a:
            return self.typ(a['t']) if isinstance(a['t'], int) else a['t']
        return a

    # ---- lvalues
    def lv(self, e):
        k = e['k']
        if 'l' in e:
            self.line = e['l']
        if k == 'var':
            if 'cv' in e and 'g' in e and e['n'] not in self.gsym:
                return self.cvv(e)
            return self.lookup(e)
        if k == 'binding':
            return self.lookup(e)
        if k == 'mem':
            r = self.recof(e)
            if isinstance(r, SVec):
                return r.e[e['n'] == 'second']
            return r.field(e['n'], self.fty(r, e))
        if k == 'idx':
            p = self.eval(e['a'])
            i = self.toscalar(self.eval(e['b']), 'i')
            if isinstance(p, Ptr):
                return Elem(p.buf, padd(p.off, i))
            if isinstance(p, (list, tuple)) and isinstance(i, int):
                if not 0 <= i < len(p):
                    raise Unmodelled('array subscript out of range')
                return p[i]
            raise Unmodelled('subscript of %s' % type(p).__name__)
        if k == 'opcall':
            op = e['op']
            if op in ('()', '[]'):
                return self.subscript(e)
            if op in ('=', '+=', '-=', '*=', '/=') and not e['f'].get('p'):
                l = self.lv(e['a'][0])
                if isinstance(l, (Loc, Elem, View)):
                    self.op_assign(l, e['a'][1], op)
                    return l
                return self.op_assign(l, e['a'][1], op)
            if op == '*' and len(e['a']) == 1:
                p = self.eval(e['a'][0])
                if isinstance(p, Obj) and p.k == 'viter':
                    if not 0 <= p.d['i'] < len(p.d['v'].e):
                        raise Unmodelled('iterator out of range')
                    return p.d['v'].e[p.d['i']]
                if isinstance(p, Ptr):
                    return Elem(p.buf, p.off)
            return self.eval(e)
        if k == 'un' and e['op'] == '*':
            p = self.eval(e['e'])
            if isinstance(p, Ptr):
                return Elem(p.buf, p.off)
            if isinstance(p, (Rec, Loc, Elem)):
                return p
            raise Unmodelled('dereference')
        if k == 'cast':
            return self.lv(e['e'])
        if k == 'un' and e['op'] in ('++', '--'):
            self.eval(e)
            return self.lv(e['e'])
        if k == 'cas':
            self.eval(e)
            return self.lv(e['a'])
        if k == 'cond':
            c = self.cond(e['c'])
            if c is True or c is False:
                return self.lv(e['a'] if c else e['b'])
            if pure(e['a']) and pure(e['b']):
                a, b = self.lv(e['a']), self.lv(e['b'])
                if isinstance(a, (Loc, Elem, CLoc)) and isinstance(b, (Loc, Elem, CLoc)):
                    if a is b:
                        return a
                    va = self.val(a)
                    if scal(va):
                        return CLoc(c, a, b)
            return self.eval(e)
        if k == 'mcall' and not e['f'].get('p') and e['f']['n'] in ('back', 'front', 'at', 'value'):
            b = self.lv(e['b'])
            b = self.val(b) if isinstance(b, (Loc, Elem)) else b
            if isinstance(b, SVec):
                i = self.eval(e['a'][0]) if e['f']['n'] == 'at' else (-1 if e['f']['n'] == 'back' else 0)
                if isinstance(i, int) and -1 <= i < len(b.e) and b.e:
                    return b.e[i]
        if k == 'mcall' and not e['f'].get('p') and e['f']['n'] in ('coeffRef', 'x', 'y', 'z', 'w'):
            b = self.lv(e['b'])
            b = self.val(b) if isinstance(b, (Loc, Elem)) else b
            m = self.mx(b)
            if isinstance(m, View):
                if e['f']['n'] != 'coeffRef':
                    i = 'xyzw'.index(e['f']['n'])
                    return Elem(m.buf, m.at(i, 0) if m.cols == 1 else m.at(0, i))
                ix = [self.toscalar(self.eval(x), 'i') for x in e['a']]
                if len(ix) == 1:
                    return Elem(m.buf, m.at(ix[0], 0) if m.cols == 1 else m.at(0, ix[0]))
                return Elem(m.buf, m.at(*ix))
        return self.eval(e)

    def store(self, l, v):
        if isinstance(l, Loc):
            old = self.st.mem.get(l, self.base_mem.get(l))
            if isinstance(old, T):
                v = self.toscalar(v, 'f')
            elif isinstance(old, B) or isinstance(old, bool):
                v = self.toscalar(v, 'b')
            elif is_int(old):
                v = self.toscalar(v, 'i')
            self.st.mem[l] = v
        elif isinstance(l, CLoc):
            v = self.toscalar(v, 'f') if isinstance(self.val(l), T) else v
            x, y = self.val(l.a), self.val(l.b)
            self.store(l.a, self.merge_val(l.c, v, x))
            self.store(l.b, self.merge_val(l.c, self.val(l.b), v))
        elif isinstance(l, Elem):
            v = self.toscalar(v, l.buf.kind)
            c = self.cur(l.buf)
            if isinstance(c, Log) and self.gens and isinstance(v, T):
                acc, ds = self.as_acc(l.buf, l.off, (0,), [v])
                if acc:
                    self.writebuf(l.buf, l.off, v, ds[0])
                    return
            self.writebuf(l.buf, l.off, v)
        else:
            raise Unmodelled('store to %s' % type(l).__name__)

    # ---- operators
    def e_bin(self, e):
        op = e['op']
        if op == '=':
            return self.e_cas(e)
        if op == ',':
            self.eval(e['a'])
            return self.eval(e['b'])
        if op in ('&&', '||'):
            a = self.cond(e['a'])
            if a is True:
                return True if op == '||' else self.cond(e['b'])
            if a is False:
                return False if op == '&&' else self.cond(e['b'])
            if not pure(e['b']):
                g = a if op == '&&' else bnot(a)
                b = self.branch(g, lambda: self.cond(e['b']), lambda: op == '||')[0]
                if b is None:
                    return op == '||'
                return simp(band(a, b) if op == '&&' else bor(a, b))
            save = self.st.pc
            self.st.pc = with_pc(self.st, a if op == '&&' else bnot(a))
            try:
                b = self.cond(e['b'])
            finally:
                self.st.pc = save
            return simp(band(a, b) if op == '&&' else bor(a, b))
        a = self.eval(e['a'])
        b = self.eval(e['b'])
        if op in ('+', '-', '*', '/', '%'):
            return self.arith(op, a, b)
        if op in ('==', '!=') and isinstance(a, T) and isinstance(b, T) and noline(e['a']) == noline(e['b']):
            n = self.isnan(a)           # x != x is the idiom for a NaN test
            return n if op == '!=' else bnot(n)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return simp(self.compare(op, a, b))
        if op in ('&', '|') and isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            return simp(band(a, b) if op == '&' else bor(a, b))
        if op in ('&', '|', '^') and (isinstance(a, Poly) or isinstance(b, Poly)):
            x, y = truth01(a), truth01(b)
            if x is not None and y is not None:
                r = band(x, y) if op == '&' else bor(x, y) if op == '|' else bor(band(x, bnot(y)), band(bnot(x), y))
                return iite(simp(r), 1, 0)
        if op in ('<<', '>>', '&', '|', '^') and isinstance(a, int) and isinstance(b, int):
            if op in ('<<', '>>') and not 0 <= b < 63:
                raise Unmodelled('shift')
            return {'<<': lambda: a << b, '>>': lambda: a >> b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[op]()
        raise Unmodelled('operator ' + op)

    def e_cas(self, e):
        op = e['op']
        l = self.lv(e['a'])
        v = self.eval(e['b'])
        if isinstance(l, View) or isinstance(v, (Mx, EM)) and not isinstance(l, (Loc, Elem)):
            return self.massign(l, v, op)
        if isinstance(l, Loc) and isinstance(self.st.mem.get(l), (EM, View)):
            return self.massign(self.lmx(l), v, op)
        if op == '=':
            if isinstance(v, Mx) and not isinstance(v, View) and v.rows == 1 and v.cols == 1:
                v = v.get(0, 0)
            self.store(l, v)
            return v
        o = op[:-1]
        if isinstance(l, Elem) and isinstance(self.cur(l.buf), Log) and self.gens and l.buf.kind == 'f' and o in '+-':
            d = self.toscalar(v, 'f')
            if o == '-':
                d = neg(d)
            self.writebuf(l.buf, l.off, None, d)
            return ZERO
        old = self.val(l)
        if o in ('&', '|', '^') and isinstance(old, (bool, B)):
            b = e['b']
            while b.get('k') == 'cast' and not isinstance(v, (bool, B)):
                b = b['e']
                if b.get('k') != 'cast':
                    v = self.eval(b)
            x, y = b_(old), self.toscalar(v, 'b')
            r = simp(band(x, y) if o == '&' else bor(x, y) if o == '|' else bor(band(x, bnot(y)), band(bnot(x), y)))
            self.store(l, r)
            return r
        r = self.arith(o, old, v)
        self.store(l, r)
        return r

    def lmx(self, l):
        x = self.cur(l)
        if isinstance(x, EM):
            return self.emview(x, l)
        return x

    def massign(self, dst, v, op):
        if isinstance(dst, Loc):
            dst = self.lmx(dst)
        v = self.mx(v)
        if isinstance(dst, Obj) and dst.k == 'noalias':
            dst = dst.d['m']
        if not isinstance(dst, View):
            raise Unmodelled('assignment to %s' % type(dst).__name__)
        if isinstance(v, Obj) and v.k == 'diag':
            d = v.d['m']
            n = d.rows if d.cols == 1 else d.cols
            v = self.lazy(n, n, lambda r, c: d.get(r, 0) if r == c else ZERO)
        if scal(v):
            s = v
            if op in ('*=', '/='):
                d = dst
                if not (isinstance(d.rows, int) and isinstance(d.cols, int)):
                    return self.assign(d, Mx(d.rows, d.cols, lambda r, c: self.arith(op[0], d.get(r, c), s)))
                vals = Vals(d.rows, d.cols, [self.arith(op[0], x, s) for x in self.vals(d)])
                return self.assign(d, vals)
            v = Mx(dst.rows, dst.cols, lambda r, c: s, dst.kind)
            if op in ('+=', '-='):
                return self.assign(dst, v, op)
            return self.assign(dst, v)
        if not isinstance(v, Mx):
            raise Unmodelled('assignment from %s' % type(v).__name__ + (v.k if isinstance(v, Obj) else ''))
        if op == '=':
            if dst.em is not None:
                em = self.cur(dst.em)
                if em.rows != v.rows or em.cols != v.cols:
                    fixed_r, fixed_c = em.dr >= 0, em.dc >= 0
                    rows, cols = v.rows, v.cols
                    src = v
                    if em.dc == 1 and v.rows == 1 and v.cols != 1:
                        rows, cols = cols, rows
                        src = self.mtrans(v)
                    if em.rows != rows or em.cols != cols:
                        if (fixed_r and em.rows != rows) or (fixed_c and em.cols != cols):
                            self.note_shape(dst, v)
                            raise Unmodelled('shape mismatch in assignment at ' + self.here())
                        src = self.force(src)
                        nb = self.newbuf(em.buf.n, pmul(rows, cols), em.kind)
                        ne = EM(nb, rows, cols, em.rm and cols != 1, em.kind, em.arr, em.dr, em.dc)
                        self.st.mem[dst.em] = ne
                        return self.assign(self.emview(ne), src)
                    v = src
            return self.assign(dst, v)
        if op in ('+=', '-='):
            return self.assign(dst, v, op)
        if op in ('*=', '/='):
            if op == '*=' and not dst.arr:
                r = self.mmul(self.force(Mx(dst.rows, dst.cols, dst.get)), v)
                return self.assign(dst, r)
            d = dst
            vals = Vals(d.rows, d.cols, [self.arith(op[0], x, y) for x, y in zip(self.vals(d), self.vals(v))])
            return self.assign(d, vals)
        raise Unmodelled('matrix ' + op)

    def e_un(self, e):
        op = e['op']
        if op in ('++', '--', 'post++', 'post--'):
            l = self.lv(e['e'])
            old = self.val(l)
            new = self.arith('+' if '+' in op else '-', old, 1)
            self.store(l, new)
            return old if op.startswith('post') else new
        if op == '&':
            l = self.lv(e['e'])
            if isinstance(l, Elem):
                return Ptr(l.buf, l.off, l.buf.kind)
            return l
        if op == '*':
            return self.val(self.lv(e))
        v = self.eval(e['e'])
        if op == '-':
            v = self.mx(v)
            if isinstance(v, Mx):
                return self.lazy(v.rows, v.cols, lambda r, c: self.negs(v.get(r, c)), v.kind, v.arr)
            return self.negs(v)
        if op == '+':
            return v
        if op == '!':
            c = self.cond(e['e'])
            return (not c) if isinstance(c, bool) else simp(bnot(c))
        raise Unmodelled('unary ' + op)

    def negs(self, v):
        if isinstance(v, T):
            return neg(v)
        return pneg(self.toscalar(v, 'i'))

    def e_cond(self, e):
        c = self.cond(e['c'])
        if c is True:
            return self.eval(e['a'])
        if c is False:
            return self.eval(e['b'])
        if pure(e['a']) and pure(e['b']):
            save = self.st.pc
            self.st.pc = with_pc(self.st, c)
            a = self.eval(e['a'])
            self.st.pc = save
            self.st.pc = with_pc(self.st, bnot(c))
            b = self.eval(e['b'])
            self.st.pc = save
        else:
            def side(x):
                v = self.eval(x)
                m = self.mx(v) if isinstance(v, (Mx, EM)) else v
                return self.force(m) if isinstance(m, Mx) and is_int(m.rows) and isinstance(m.rows, int) and isinstance(m.cols, int) else v
            a, b = self.branch(c, lambda: side(e['a']), lambda: side(e['b']))
            if a is None or b is None:
                return a if b is None else b
        a, b = self.mx(a), self.mx(b)
        if isinstance(a, Mx) and isinstance(b, Mx):
            return self.lazy(a.rows, a.cols, lambda r, cc: self.merge_val(c, a.get(r, cc), b.get(r, cc)), a.kind, a.arr)
        return self.merge_val(c, a, b)

    def branch(self, c, f, g):
        """Evaluate f under c and g under not c, each on its own state."""
        st = self.st
        out = []
        sts = []
        for k, h in ((c, f), (bnot(c), g)):
            self.st = st.fork()
            self.st.pc = with_pc(self.st, k)
            try:
                out.append(h())
                sts.append(self.st)
            except Dead:
                out.append(None)
                sts.append(None)
        self.st = self.merge(c, sts[0], sts[1])
        if self.st is None:
            raise Dead()
        return out

    def e_cast(self, e):
        v = self.eval(e['e'])
        c = e['c']
        if c in ('IntegralToFloating',):
            return self.toscalar(v, 'f')
        if c in ('FloatingToIntegral',):
            return self.toscalar(v, 'i')
        if c in ('IntegralToBoolean', 'FloatingToBoolean'):
            return simp(self.toscalar(v, 'b'))
        if c == 'PointerToBoolean':
            return X.buf_('ptrtest', (self.sym('p'),))
        t = self.typ(e['t'])
        if t.get('c') == 'b':
            k = self.kindof(t)
            if k in ('f', 'i', 'b') and isinstance(v, (T, B, bool, int, Poly)):
                return self.toscalar(v, k)
        return v

    def e_idx(self, e):
        return self.val(self.lv(e))

    def e_ilist(self, e):
        t = self.typ(e['t']) if 't' in e else {}
        rec = self.prog.records.get(t.get('n')) if t.get('c') == 'rec' else None
        if rec is not None and not rec.get('b') and len(rec['f']) >= len(e['a']):
            r = Rec(self, t['n'], self.sym(t['n'] + '#'), None, True)
            self.class_init(r, {fd['n'] for fd, _ in zip(rec['f'], e['a'])})
            for fd, x in zip(rec['f'], e['a']):
                ft = self.deep(rec['tt'], fd['t'])
                if isinstance(ft, dict) and ft.get('c') in ('ref', 'rref'):
                    v = self.lv(x)
                    if isinstance(v, (Loc, Elem)):
                        r.f[fd['n']] = v
                        continue
                else:
                    v = self.initv(self.eval(x), ft, fd['n'], x)
                l = Loc(r.name + '.' + fd['n'])
                r.f[fd['n']] = l
                self.st.mem[l] = v
            return r
        if t.get('c') == 'rec' and t.get('n') in AGG:
            return self.make_agg(t, [self.eval(x) for x in e['a']])
        return [self.eval(x) for x in e['a']]

    def e_zinit(self, e):
        t = self.typ(e['t'])
        k = self.kindof(t)
        if k == 'f':
            return ZERO
        if k == 'b':
            return False
        if k == 'i':
            return 0
        return self.default(t, 'tmp')

    def e_throw(self, e):
        raise Dead()

    def e_lambda(self, e):
        fr = self.fr()
        caps = {}
        for cpt in e.get('caps') or []:
            i = cpt.get('id') if isinstance(cpt, dict) else cpt
            if i is not None and i not in fr.env and isinstance(cpt, dict) and cpt.get('e') is not None:
                x = self.lv(cpt['e']) if cpt.get('ref') else self.copied(self.eval(cpt['e']))
                if not (cpt.get('ref') and isinstance(x, (Loc, Elem))):
                    l = Loc(cpt.get('n', 'capture'))
                    self.st.mem[l] = x
                    x = l
                caps[i] = x
            elif i in fr.env:
                caps[i] = fr.env[i]
                if isinstance(cpt, dict) and not cpt.get('ref') and isinstance(caps[i], (Loc, Elem)):
                    v = self.val(caps[i])
                    l = Loc(cpt.get('n', 'capture'))
                    if isinstance(v, EM):
                        v = self.copy_em(v)
                    elif isinstance(v, Rec):
                        v = self.copy_rec(v)
                    elif isinstance(v, SVec):
                        v = self.copy_vec(v)
                    self.st.mem[l] = v
                    caps[i] = l
        return FuncObj(params=e.get('params'), body=e.get('body'), specs=e.get('specs'), env=caps or dict(fr.env), F=fr.F, this=fr.this)

    def e_new(self, e):
        t = self.typ(e['t'])
        if e.get('n') is not None:
            k = self.kindof(t)
            n = self.toscalar(self.eval(e['n']), 'i')
            if k == 'o' or not is_int(n):
                raise Unmodelled('new')
            return Ptr(self.newbuf(self.sym('new'), n, k), 0, k)
        if t.get('c') == 'rec' and e.get('e'):
            return self.eval(e['e'])
        raise Unmodelled('new')

    def e_delete(self, e):
        return None

    def e_unk(self, e):
        raise Unmodelled('expression (%s)' % e.get('c', '?'))

    # ---- calls
    def args(self, F, exprs):
        out = []
        for p, a in zip(F.params, exprs):
            t = F.tt[p['t']]
            if t.get('c') in ('ref',):
                out.append(self.lv(a))
            else:
                out.append(self.eval(a))
        return out

    def fargs(self, fo, exprs):
        """Arguments of a function object: lvalues for reference parameters."""
        if isinstance(fo, FuncObj) and fo.fn is None and fo.params and len(fo.params) >= len(exprs):
            tt = fo.F.tt if fo.F is not None else self.fr().tt
            return [self.lv(a) if tt[p['t']].get('c') == 'ref' else self.eval(a) for p, a in zip(fo.params, exprs)]
        if isinstance(fo, FuncObj) and fo.fn is not None and fo.bound is None:
            F = self.resolve_fn(fo.fn, None)
            if F is not None:
                return self.args(F, exprs)
        return [self.eval(a) for a in exprs]

    def e_call(self, e):
        f = e.get('f')
        if f is None:
            fo = self.eval(e['callee'])
            return self.invoke(fo, self.fargs(fo, e['a']))
        if f.get('p'):
            F = self.resolve_fn(f, self.fr().F.tu if self.fr().F else self.curtu)
            if F is None:
                raise Unmodelled('no definition of ' + f['q'])
            return self.call(F, self.args(F, e['a']))
        return self.libcall(f, e)

    def instance(self, fo, i):
        """The instantiation of a generic lambda that a call names."""
        for x in fo.specs:
            if x['id'] == i or i is None and len(fo.specs) == 1:
                return FuncObj(params=x['params'], body=x['body'], env=fo.env, F=fo.F, this=fo.this)
        raise Unmodelled('generic lambda')

    def invoke(self, fo, args):
        if isinstance(fo, FuncObj) and fo.specs is not None:
            fo = self.instance(fo, None)
        if isinstance(fo, FuncObj):
            if fo.fn is not None:
                F = self.resolve_fn(fo.fn, None)
                if F is None:
                    raise Unmodelled('function object')
                if fo.bound is not None:
                    if fo.bound and isinstance(fo.bound[0], Rec) and len(fo.bound) == 1 + len(F.params):
                        me = fo.bound[0]
                        return self.call(F, [args[b.d['n'] - 1] if isinstance(b, Obj) and b.k == 'placeholder' else b
                                             for b in fo.bound[1:]], this=me)
                    real = []
                    for b in fo.bound:
                        if isinstance(b, Obj) and b.k == 'placeholder':
                            real.append(args[b.d['n'] - 1])
                        else:
                            real.append(b)
                    args = real
                return self.call(F, args)
            fr = Frame(fo.F, self.fr().tt if fo.F is None else fo.F.tt)
            fr.env = dict(fo.env)
            lf = LambdaF(fo)
            fr2 = Frame(lf, fr.tt)
            fr2.env = dict(fo.env)
            fr2.this = fo.this
            self.frames.append(fr2)
            try:
                for p, a in zip(fo.params, args):
                    self.bind(p, a)
                pc0 = self.st.pc
                self.exec(fo.body)
                return self.finish(fr2, pc0)
            finally:
                self.frames.pop()
        if callable(fo):
            return fo(self, args)
        raise Unmodelled('call of %s' % type(fo).__name__)

    MATH = {'sqrt': X.sqrt, 'cbrt': X.cbrt, 'exp': X.exp}

    def libcall(self, f, e):
        n = f['n']
        q = sname(f['q'])
        ex = e['a']
        if getattr(self, 'omp', None) and n in ('omp_get_thread_num', 'omp_get_num_threads'):
            return self.omp[n == 'omp_get_num_threads']
        if n in ('omp_get_thread_num',):
            return psym(self.tid) if getattr(self, 'tid', None) else 0
        if n == 'omp_get_num_threads':
            return psym('nthreads')
        if q == 'std::bind':
            fo = self.eval(ex[0])
            bound = []
            for a in ex[1:]:
                if strip(a).get('n', '').startswith('_') and strip(a)['k'] == 'var' and strip(a)['n'][1:].isdigit():
                    bound.append(Obj('placeholder', n=int(strip(a)['n'][1:])))
                else:
                    v = self.eval(a)
                    if isinstance(v, EM):
                        v = self.copy_em(v)
                    elif isinstance(v, Rec):
                        v = self.copy_rec(v)
                    bound.append(v)
            return FuncObj(fn=fo.fn, bound=bound)
        if n in ('print', 'printf'):
            return None
        if q.startswith('std::numeric_limits'):
            return {'max': S('DBL_MAX'), 'min': S('DBL_MIN'), 'epsilon': S('DBL_EPSILON'), 'infinity': S('DBL_MAX')}.get(n)
        if q in ('std::move', 'std::forward', 'std::ref', 'std::cref'):
            return self.eval(ex[0])
        if n in ('tie', 'forward_as_tuple') and q.startswith('std::'):
            ls = [self.lv(x) for x in ex]
            if all(isinstance(l, (Loc, Elem, CLoc)) for l in ls):
                return SVec(ls)
            raise Unmodelled('std::tie')
        if n == 'exchange' and q.startswith('std::'):
            l = self.lv(ex[0])
            old = self.copied(self.val(l))
            new = self.eval(ex[1])
            if not scal(old):
                raise Unmodelled('exchange')
            self.store(l, new)
            return old
        if q == 'std::get' or n == 'get' and q.startswith('std::'):
            l = self.lv(ex[0])
            v = self.val(l) if isinstance(l, (Loc, Elem)) else l
            ta = self.targs(f)
            if isinstance(v, SVec) and ta and isinstance(ta[0], int):
                return self.val(v.e[ta[0]])
        if q == 'std::swap' or n == 'swap':
            la, lb = self.lv(ex[0]), self.lv(ex[1])
            a, b = self.val(la), self.val(lb)
            if scal(a) and scal(b):
                self.store(la, b)
                self.store(lb, a)
                return None
            if isinstance(a, EM) and isinstance(b, EM) and isinstance(la, Loc) and isinstance(lb, Loc):
                self.st.mem[la], self.st.mem[lb] = b, a
                return None
            raise Unmodelled('swap')
        if f.get('cm') is not None or 'Eigen::' in q:
            # static member of an Eigen class
            return self.estatic(f, e)
        vs = [self.eval(a) for a in ex]
        return self.libfun(n, vs, e)

    def tup(self, vs):
        out = []
        for i, v in enumerate(vs):
            l = Loc('elem%d' % i)
            self.st.mem[l] = v
            out.append(l)
        return SVec(out)

    def copy_em(self, v):
        c = self.cur(v.buf)
        if isinstance(c, list):
            nb = self.newbuf(v.buf.n, len(c), v.kind, init=c)
        else:
            nb = BufLoc(v.buf.n, v.buf.size, v.buf.kind, v.buf.base)
            self.st.mem[nb] = c
        return EM(nb, v.rows, v.cols, v.rm, v.kind, v.arr, v.dr, v.dc)

    def span(self, a, b):
        """Lvalues of an iterator or pointer range."""
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf and isinstance(a.off, int) and isinstance(b.off, int):
            return [Elem(a.buf, i) for i in range(a.off, b.off)]
        if isinstance(a, Obj) and isinstance(b, Obj) and a.k == b.k == 'viter' and a.d['v'].e == b.d['v'].e:
            return list(a.d['v'].e[a.d['i']:b.d['i']])
        raise Unmodelled('iterator range')

    def spann(self, a, n):
        if isinstance(a, Ptr) and isinstance(n, int):
            return [Elem(a.buf, padd(a.off, i)) for i in range(n)]
        if isinstance(a, Obj) and a.k == 'viter' and a.d['i'] + n <= len(a.d['v'].e):
            return list(a.d['v'].e[a.d['i']:a.d['i'] + n])
        raise Unmodelled('iterator range')

    def algorithm(self, n, vs):
        """Standard algorithms over literal ranges."""
        truth = lambda f, *x: b_(self.toscalar(self.invoke(f, list(x)), 'b'))
        xs = self.span(vs[0], vs[1])
        if len(xs) > 512:
            raise Unmodelled('long range')
        v = lambda l: self.val(l)
        if n == 'for_each':
            for l in xs:
                self.invoke(vs[2], [l])
            return vs[2]
        if n == 'iota':
            x = vs[2]
            for l in xs:
                self.store(l, x)
                x = self.arith('+', x, 1)
            return None
        if n == 'inner_product':
            r = vs[3]
            for a, b in zip(xs, self.spann(vs[2], len(xs))):
                p = self.invoke(vs[5], [v(a), v(b)]) if len(vs) > 5 else self.arith('*', v(a), v(b))
                r = self.invoke(vs[4], [r, p]) if len(vs) > 4 else self.arith('+', r, p)
            return r
        if n in ('accumulate', 'reduce'):
            r = vs[2] if len(vs) > 2 else 0
            for x in xs:
                r = self.invoke(vs[3], [r, v(x)]) if len(vs) > 3 else self.arith('+', r, v(x))
            return r
        if n in ('any_of', 'all_of', 'none_of'):
            r = FALSE if n != 'all_of' else TRUE
            for x in xs:
                c = truth(vs[2], v(x))
                r = bor(r, c) if n != 'all_of' else band(r, c)
            return simp(bnot(r) if n == 'none_of' else r)
        if n in ('count_if', 'count'):
            r = 0
            for x in xs:
                c = truth(vs[2], v(x)) if n == 'count_if' else b_(self.compare('==', v(x), vs[2]))
                r = padd(r, self.toscalar(c, 'i'))
            return r
        if n in ('max_element', 'min_element'):
            if not xs:
                raise Unmodelled('empty range')
            best, k = v(xs[0]), 0
            for i, x in enumerate(xs[1:], 1):
                y = v(x)
                if len(vs) > 2:
                    c = truth(vs[2], best, y) if n == 'max_element' else truth(vs[2], y, best)
                else:
                    c = b_(simp(self.compare('<', best, y) if n == 'max_element' else self.compare('<', y, best)))
                best, k = self.merge_val(c, y, best), iite(c, i, k)
            if isinstance(vs[0], Ptr):
                return Ptr(vs[0].buf, padd(vs[0].off, k), vs[0].kind)
            if isinstance(k, int):
                return Obj('viter', v=vs[0].d['v'], i=vs[0].d['i'] + k)
            return Obj('picked', v=best, i=k)
        if n in ('copy', 'reverse_copy', 'transform', 'copy_backward'):
            ys = [v(x) for x in xs]
            if n == 'reverse_copy':
                ys.reverse()
            if n == 'transform':
                if len(vs) == 5:
                    zs = [v(z) for z in self.spann(vs[2], len(ys))]
                    ys = [self.invoke(vs[4], [x, z]) for x, z in zip(ys, zs)]
                    out = vs[3]
                else:
                    ys = [self.invoke(vs[3], [x]) for x in ys]
                    out = vs[2]
            else:
                out = vs[2]
            if n == 'copy_backward':
                raise Unmodelled('copy_backward')
            for l, y in zip(self.spann(out, len(ys)), ys):
                self.store(l, self.copied(y))
            return self.advance(out, len(ys))
        if n == 'fill':
            for l in xs:
                self.store(l, self.copied(vs[2]))
            return None
        if n in ('reverse', 'rotate'):
            ys = [self.copied(v(x)) for x in xs]
            if n == 'reverse':
                ys.reverse()
            else:
                raise Unmodelled('rotate')
            for l, y in zip(xs, ys):
                self.store(l, y)
            return None
        if n in ('partial_sum',):
            r, outs = None, self.spann(vs[2], len(xs))
            for x, o in zip(xs, outs):
                r = v(x) if r is None else self.arith('+', r, v(x))
                self.store(o, r)
            return None
        raise Unmodelled('library function ' + n)

    def sort_range(self, vs):
        xs = self.span(vs[0], vs[1])
        if len(xs) > 6:
            raise Unmodelled('long sort')
        for i in range(len(xs)):
            for j in range(len(xs) - 1 - i):
                x, y = self.val(xs[j]), self.val(xs[j + 1])
                if len(vs) > 2:
                    c = b_(self.toscalar(self.invoke(vs[2], [y, x]), 'b'))
                    lo, hi = self.merge_val(c, y, x), self.merge_val(c, x, y)
                else:
                    lo, hi = self.smin(x, y), self.smax(x, y)
                self.store(xs[j], lo)
                self.store(xs[j + 1], hi)

    def advance(self, p, k):
        if isinstance(p, Ptr):
            return Ptr(p.buf, padd(p.off, k), p.kind)
        if isinstance(p, Obj) and p.k == 'viter' and isinstance(k, int):
            return Obj('viter', v=p.d['v'], i=p.d['i'] + k)
        raise Unmodelled('iterator arithmetic')

    ALGS = ('for_each', 'iota', 'inner_product', 'accumulate', 'reduce', 'any_of', 'all_of', 'none_of', 'count_if', 'count', 'max_element',
            'min_element', 'copy', 'reverse_copy', 'transform', 'fill', 'reverse', 'partial_sum')

    def libfun(self, n, vs, e):
        if n in self.ALGS and len(vs) >= 2 and (isinstance(vs[1], Ptr) or isinstance(vs[1], Obj) and vs[1].k == 'viter'):
            return self.algorithm(n, vs)
        if n in ('max', 'min') and vs and isinstance(vs[0], list):
            xs = vs[0]
            r = xs[0]
            for x in xs[1:]:
                if len(vs) > 1:
                    c = b_(self.toscalar(self.invoke(vs[1], [r, x] if n == 'max' else [x, r]), 'b'))
                    r = self.merge_val(c, x, r)
                else:
                    r = (self.smax if n == 'max' else self.smin)(r, x)
            return r
        if n == 'minmax':
            xs = vs[0] if isinstance(vs[0], list) else vs
            lo = hi = xs[0]
            for x in xs[1:]:
                lo, hi = self.smin(lo, x), self.smax(hi, x)
            return self.tup([lo, hi])
        if n in ('make_pair', 'make_tuple'):
            return self.tup([self.copied(v) for v in vs])
        if n == 'get' and vs and isinstance(vs[0], SVec):
            i = self.targs(e['f'])
            if i and isinstance(i[0], int):
                return self.val(vs[0].e[i[0]])
        if n in ('next', 'prev', 'advance') and vs and n != 'advance':
            k = vs[1] if len(vs) > 1 else 1
            return self.advance(vs[0], k if n == 'next' else pneg(k))
        if n == 'distance':
            if isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and vs[0].buf is vs[1].buf:
                return psub(vs[1].off, vs[0].off)
            return len(self.span(vs[0], vs[1]))
        if n in ('begin', 'end', 'cbegin', 'cend', 'size', 'data') and len(vs) == 1:
            v = vs[0]
            if isinstance(v, SVec):
                return self.vmeth(v, None, n, [], None)
            if isinstance(v, Ptr) and isinstance(v.buf.size, int) and n != 'data':
                return v.buf.size if n == 'size' else self.advance(v, 0 if 'begin' in n else v.buf.size)
            if isinstance(v, EM):
                v = self.emview(v)
            if isinstance(v, View) and n in ('begin', 'end', 'size') and isinstance(v.rows, int) and isinstance(v.cols, int):
                return self.mmeth(v, n, [], e.get('f') or {})
        if n == 'copysign':
            a = X.tabs(lift(vs[0]))
            return ite(rlt(lift(vs[1]), ZERO), neg(a), a)
        if n == 'fdim':
            d = sub(lift(vs[0]), lift(vs[1]))
            return self.smax(d, ZERO)
        if n in ('isfinite', 'isinf') and len(vs) == 1:
            return X.buf_(n, (lift(vs[0]),))
        if n == 'exp2':
            return X.power(C(2), lift(vs[0]))
        if n == 'log2':
            return div(X.fn('log', lift(vs[0])), X.fn('log', C(2)))
        if n == 'expm1':
            return sub(X.exp(lift(vs[0])), ONE)
        if n == 'log1p':
            return X.fn('log', add(lift(vs[0]), ONE))
        if n in ('max', 'min', 'fmax', 'fmin') and len(vs) == 3 and isinstance(vs[2], FuncObj):
            c = b_(self.toscalar(self.invoke(vs[2], [vs[0], vs[1]] if n == 'max' else [vs[1], vs[0]]), 'b'))
            return self.merge_val(c, vs[1], vs[0])
        if n in ('max', 'min', 'fmax', 'fmin') and len(vs) == 2:
            f = self.smax if 'max' in n else self.smin
            return f(vs[0], vs[1])
        if n in ('abs', 'fabs', 'labs'):
            v = vs[0]
            if is_int(v):
                return iite(ige(v, 0), v, pneg(v))
            return X.tabs(lift(v))
        if n in self.MATH:
            return self.MATH[n](lift(vs[0]))
        if n == 'pow':
            if all(isinstance(v, int) for v in vs):
                if vs[1] >= 0:
                    return C(vs[0] ** vs[1])
            return X.power(lift(vs[0]), lift(vs[1]))
        if n in ('floor', 'ceil', 'trunc', 'round'):
            v = lift(vs[0])
            if v.k == 'c':
                import math
                return C({'floor': math.floor, 'ceil': math.ceil, 'trunc': int, 'round': round}[n](v.a[0]))
            return X.fn(n, v)
        if n in ('sin', 'cos', 'tan', 'atan', 'log', 'log10', 'asin', 'acos', 'sinh', 'cosh', 'tanh', 'atan2', 'fmod'):
            return X.fn(n, *vs)
        if n in ('sort', 'stable_sort') and len(vs) >= 2:
            return self.sort_range(vs)
        if n in ('find_if', 'find', 'find_if_not') and len(vs) == 3 and isinstance(vs[0], Ptr):
            xs = self.span(vs[0], vs[1])
            k = vs[1].off
            for i in reversed(range(len(xs))):
                y = self.val(xs[i])
                c = b_(simp(self.compare('==', y, vs[2]))) if n == 'find' else b_(self.toscalar(self.invoke(vs[2], [y]), 'b'))
                k = iite(bnot(c) if n == 'find_if_not' else c, vs[0].off + i, k)
            return Ptr(vs[0].buf, k, vs[0].kind)
        if n == 'isnan':
            return self.isnan(lift(vs[0]))
        if n in ('div', 'ldiv') and len(vs) == 2 and all(is_int(v) for v in vs):
            r = Rec(self, 'div_t', self.sym('div#'), None, True)
            for nm, op in (('quot', '/'), ('rem', '%')):
                l = Loc(nm)
                self.st.mem[l] = self.arith(op, vs[0], vs[1])
                r.f[nm] = l
            return r
        if n == 'iter_swap' and len(vs) == 2:
            la, lb = self.spann(vs[0], 1)[0], self.spann(vs[1], 1)[0]
            va, vb = self.val(la), self.val(lb)
            self.store(la, vb)
            self.store(lb, va)
            return None
        if n == 'rotate' and len(vs) == 3:
            ls, mid = self.span(vs[0], vs[2]), len(self.span(vs[0], vs[1]))
            xs = [self.val(l) for l in ls]
            for l, x in zip(ls, xs[mid:] + xs[:mid]):
                self.store(l, x)
            return self.advance(vs[0], len(ls) - mid)
        rg = lambda a, b: isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf and isinstance(a.off, int) and isinstance(b.off, int)
        if n in ('copy', 'copy_n', 'reverse_copy', 'transform') and isinstance(vs[0], Ptr) and isinstance(vs[-1 if n != 'transform' else -2], Ptr):
            src = vs[0]
            k = vs[1] if n == 'copy_n' else (vs[1].off - src.off if rg(src, vs[1]) else None)
            if isinstance(k, int) and 0 <= k <= 512:
                xs = [self.readbuf(src.buf, padd(src.off, i)) for i in range(k)]
                if n == 'reverse_copy':
                    xs.reverse()
                out = vs[-1]
                if n == 'transform':
                    fo, out = vs[-1], vs[-2]
                    if len(vs) == 5:
                        ys = [self.readbuf(vs[2].buf, padd(vs[2].off, i)) for i in range(k)]
                        xs = [self.invoke(fo, [x, y]) for x, y in zip(xs, ys)]
                    else:
                        xs = [self.invoke(fo, [x]) for x in xs]
                for i, x in enumerate(xs):
                    self.writebuf(out.buf, padd(out.off, i), x)
                return Ptr(out.buf, padd(out.off, k), out.kind) if hasattr(out, 'kind') else None
        if n in ('fill', 'fill_n') and isinstance(vs[0], Ptr):
            k = vs[1] if n == 'fill_n' else (vs[1].off - vs[0].off if rg(vs[0], vs[1]) else None)
            if isinstance(k, int) and 0 <= k <= 512:
                for i in range(k):
                    self.writebuf(vs[0].buf, padd(vs[0].off, i), vs[2])
                return None
        if n in ('accumulate', 'max_element', 'min_element', 'any_of', 'all_of', 'none_of', 'for_each') and rg(vs[0], vs[1]):
            xs = [self.readbuf(vs[0].buf, i) for i in range(vs[0].off, vs[1].off)]
            if n == 'accumulate':
                r = vs[2]
                for x in xs:
                    r = self.invoke(vs[3], [r, x]) if len(vs) > 3 else self.arith('+', r, x)
                return r
            if n in ('any_of', 'all_of', 'none_of'):
                cs = [b_(self.toscalar(self.invoke(vs[2], [x]), 'b')) for x in xs]
                r = FALSE if n != 'all_of' else TRUE
                for x in cs:
                    r = bor(r, x) if n != 'all_of' else band(r, x)
                return bnot(r) if n == 'none_of' else r
        if n == 'hypot' and len(vs) >= 2:
            s = ZERO
            for v in vs:
                s = add(s, mul(lift(v), lift(v)))
            return X.sqrt(s)
        if n in ('fma', 'clamp') and len(vs) == 3:
            if n == 'fma':
                return add(mul(lift(vs[0]), lift(vs[1])), lift(vs[2]))
            return self.smin(self.smax(vs[0], vs[1]), vs[2])
        if n == 'signbit':
            return rlt(lift(vs[0]), ZERO)
        raise Unmodelled('library function ' + n)

    # ---- Eigen statics
    def cls_mtype(self, f):
        c = self.typ(f['cls']) if 'cls' in f else None
        if c is None:
            raise Unmodelled('class of ' + f['q'])
        while c['n'] not in ('Eigen::Matrix', 'Eigen::Array'):
            a = c.get('a')
            if not a:
                raise Unmodelled('class of ' + f['q'])
            c = self.tyarg(a[0])
        return self.mtype(c)

    def estatic(self, f, e):
        n = f['n']
        a = [self.eval(x) for x in e['a']]
        d = self.cls_mtype(f)
        ints = [x for x in a if is_int(x)]
        rows, cols = d['r'], d['c']
        fill = None
        if n == 'Constant':
            fill = a[-1]
            ints = a[:-1]
        if len(ints) == 2:
            rows, cols = ints
        elif len(ints) == 1:
            if cols == 1:
                rows = ints[0]
            elif rows == 1:
                cols = ints[0]
            else:
                rows = ints[0]
        one = {'f': ONE, 'i': 1, 'b': TRUE, 'c': ONE}[d['k']]
        zero = {'f': ZERO, 'i': 0, 'b': FALSE, 'c': ZERO}[d['k']]
        if n == 'Zero':
            return self.lazy(rows, cols, lambda r, c: zero, d['k'], d['arr'])
        if n == 'Ones':
            return self.lazy(rows, cols, lambda r, c: one, d['k'], d['arr'])
        if n == 'Constant':
            return self.lazy(rows, cols, lambda r, c: self.toscalar(fill, d['k']), d['k'], d['arr'])
        if n == 'Identity':
            return self.lazy(rows, cols, lambda r, c: self.merge_val(ieq(r, c), one, zero), d['k'], d['arr'])
        if n == 'LinSpaced':
            if len(a) == 3:
                k, lo, hi = a
            else:
                (lo, hi), k = a, d['r'] if d['c'] == 1 else d['c']
            if not isinstance(k, int):
                raise Unmodelled('LinSpaced')
            lo, hi = lift(lo), lift(hi)
            vs = [hi if i == k - 1 else add(lo, mul(sub(hi, lo), C(Fraction(i, max(k - 1, 1))))) for i in range(k)]
            return Vals(k, 1, vs) if d['c'] == 1 else Vals(1, k, vs)
        if n in ('Unit', 'UnitX', 'UnitY', 'UnitZ'):
            i = {'UnitX': 0, 'UnitY': 1, 'UnitZ': 2}.get(n, ints[-1] if ints else 0)
            rows = d['r'] if len(ints) < 2 else ints[0]
            return self.lazy(rows, 1, lambda r, c: self.merge_val(ieq(r, i), one, zero), d['k'], d['arr'])
        raise Unmodelled('static ' + n)

    # ---- constructors
    def e_ctor(self, e):
        t = self.typ(e['t'])
        n = t.get('n', '')
        a = e['a']
        if n in ('Eigen::Matrix', 'Eigen::Array'):
            d = self.mtype(t)
            if not a:
                if e.get('zero') and d['r'] > 0 and d['c'] > 0:
                    pass
                return self.mark(self.default(t, 'tmp'))
            if e.get('list'):
                vs = [self.eval(x) for x in a]
            vs = [self.eval(x) for x in a]
            vs = [v for v in vs if not (isinstance(v, Obj) and v.k == 'null')]
            if len(vs) == 1:
                v = self.mx(vs[0])
                if isinstance(v, Mx):
                    return self.mark(self.copy_mx(v, d, 'tmp'))
                if isinstance(v, Obj) and v.k == 'diag':
                    dd = v.d['m']
                    nn = dd.rows if dd.cols == 1 else dd.cols
                    return self.mark(self.copy_mx(self.lazy(nn, nn, lambda r, c: dd.get(r, 0) if r == c else ZERO), d, 'tmp'))
                if isinstance(v, Obj) and v.k == 'comma':
                    return self.mark(self.copy_mx(v.d['m'], d, 'tmp'))
                if is_int(v) and (d['r'] < 0 or d['c'] < 0):
                    if d['c'] == 1:
                        return self.mark(self.new_em('tmp', d, v, 1))
                    if d['r'] == 1:
                        return self.mark(self.new_em('tmp', d, 1, v))
                if scal(v) and d['r'] == 1 and d['c'] == 1:
                    return self.mark(self.new_em('tmp', d, 1, 1, init=[self.toscalar(v, d['k'])]))
                if scal(v) and not is_int(v) and d['r'] < 2 and d['c'] < 2 and d['r'] * d['c'] != 0:
                    return self.mark(self.new_em('tmp', d, 1, 1, init=[self.toscalar(v, d['k'])]))
                if isinstance(v, int) and d['r'] > 0:
                    return self.mark(self.default(t, 'tmp'))
                if isinstance(v, Ptr) and d['r'] > 0 and d['c'] > 0:
                    return self.mark(self.copy_mx(View(self, v.buf, v.off, d['r'], d['c'], d['c'] if d['rm'] else 1, 1 if d['rm'] else d['r'], d['k']), d, 'tmp'))
            if len(vs) == 2 and all(is_int(x) for x in vs) and (d['r'] < 0 or d['c'] < 0):
                return self.mark(self.new_em('tmp', d, vs[0], vs[1]))
            if all(scal(x) for x in vs) and d['r'] * d['c'] == len(vs):
                return self.mark(self.new_em('tmp', d, d['r'], d['c'], init=[self.toscalar(x, d['k']) for x in vs]))
            raise Unmodelled('matrix constructor')
        if n == 'Eigen::Ref':
            v = self.eval(a[0])
            if isinstance(v, EM):
                v = self.emview(v)
            return self.toref(v, t)
        if n == 'Eigen::Map':
            return self.make_map(t, a)
        if n.endswith('PrivateType'):
            return Obj('null')
        if n == 'Eigen::Stride':
            if e.get('copy'):
                return self.eval(a[0])
            vs = [self.eval(x) for x in a] if a else [self.tyarg(x) for x in t.get('a') or []]
            return Obj('stride', kind=n, v=tuple(vs))
        if n in ('Eigen::OuterStride', 'Eigen::InnerStride'):
            if e.get('copy'):
                return self.eval(a[0])
            if a:
                v = self.eval(a[0])
                if isinstance(v, Obj):
                    return v
                return Obj('stride', kind=n, v=v)
            return Obj('stride', kind=n, v=self.tyarg(t['a'][0]) if t.get('a') else 1)
        if n == 'std::function':
            v = self.eval(a[0]) if a else None
            return v
        if n == 'std::vector':
            return self.make_vector(t, a, e)
        if n in AGG:
            if not a:
                return self.default_agg(t)
            if e.get('copy') and len(a) == 1 or len(a) == 1:
                v = self.eval(a[0])
                if isinstance(v, SVec):
                    return self.copy_vec(v) if strip(a[0])['k'] not in ('ctor', 'call', 'opcall', 'mcall') else v
                return self.make_agg(t, [v])
            return self.make_agg(t, [self.eval(x) for x in a])
        if e.get('copy') and len(a) == 1:
            v = self.eval(a[0])
            return self.copy_rec(v) if isinstance(v, Rec) else v
        if n.startswith('Eigen::'):
            base = n[7:]
            if base in ('ColPivHouseholderQR', 'HouseholderQR', 'PartialPivLU', 'FullPivLU', 'EigenSolver',
                        'SelfAdjointEigenSolver', 'JacobiSVD'):
                m = self.mx(self.eval(a[0])) if a else None
                return Obj(base, m=self.force(m) if isinstance(m, Mx) else None)
            if len(a) == 1:
                return self.eval(a[0])
            raise Unmodelled('constructor of ' + n)
        if t.get('p'):
            rec = self.prog.records.get(n)
            r = Rec(self, n, self.sym(n + '#'), None, True)
            F = self.resolve_fn(e['f'], self.fr().F.tu if self.fr().F else None) if e.get('f') else None
            if F is not None and F.body is not None:
                self.call(F, self.args(F, a), this=r)
                return r
            self.class_init(r)
            if a and e.get('list'):
                for fd, x in zip(rec['f'], a):
                    l = Loc(fd['n'])
                    r.f[fd['n']] = l
                    self.st.mem[l] = self.eval(x)
            return r
        if len(a) == 1:
            return self.eval(a[0])
        return Obj(n or 'object')

    def class_init(self, r, skip=()):
        """In-class member initialisers of a record made without a constructor of its own."""
        rec = self.prog.records.get(r.cls)
        for fd in (rec or {}).get('f', []):
            if 'i' not in fd or fd['n'] in skip:
                continue
            fr = Frame(None, rec['tt'])
            fr.this = r
            self.frames.append(fr)
            try:
                t = self.deep(rec['tt'], fd['t'])
                v = self.initv(self.eval(fd['i']), t, fd['n'], fd['i'])
            finally:
                self.frames.pop()
            l = Loc(r.name + '.' + fd['n'])
            r.f[fd['n']] = l
            self.st.mem[l] = v

    def mark(self, em):
        self._fresh_em = em
        return em

    def make_map(self, t, a):
        p = self.eval(a[0])
        rest = [self.eval(x) for x in a[1:]]
        rest = [x for x in rest if not (isinstance(x, Obj) and x.k == 'null')]
        if isinstance(p, View):        # Map copy
            return p
        if not isinstance(p, Ptr):
            raise Unmodelled('Map over %s' % type(p).__name__)
        d = self.mtype(t)
        st = None
        dims = []
        for x in rest:
            if isinstance(x, Obj) and x.k == 'stride':
                st = x
            else:
                dims.append(x)
        rows, cols = d['r'], d['c']
        if len(dims) == 2:
            rows, cols = dims
        elif len(dims) == 1:
            if cols == 1:
                rows = dims[0]
            else:
                cols = dims[0]
        ta = t['a']
        stt = self.tyarg(ta[2]) if len(ta) > 2 else None
        outer = inner = None
        if stt is not None and stt.get('n') == 'Eigen::OuterStride':
            sv = stt['a'][0] if stt.get('a') else -1
            outer = st.d['v'] if st is not None and st.d['v'] is not None and not (isinstance(st.d['v'], int) and st.d['v'] < 0) else sv
        elif stt is not None and stt.get('n') == 'Eigen::InnerStride':
            inner = st.d['v'] if st is not None else (stt['a'][0] if stt.get('a') else 1)
        elif st is not None and isinstance(st.d['v'], tuple):
            outer, inner = [x if not (isinstance(x, int) and x == 0) else None for x in st.d['v']]
        if d['rm'] and cols != 1:
            cs = inner or 1
            rs = outer if outer is not None else cols
        else:
            rs = inner or 1
            cs = outer if outer is not None else rows
        return View(self, p.buf, p.off, rows, cols, rs, cs, d['k'], d['arr'])

    def agg_types(self, t):
        if t['n'] == 'std::array':
            return [self.tyarg(t['a'][0])] * int(t['a'][1])
        ts = t['a']
        if t['n'] == 'std::tuple' and len(ts) == 1 and isinstance(ts[0], list):
            ts = ts[0]
        return [self.tyarg(x) for x in ts]

    def make_agg(self, t, v):
        """std::array, std::pair or std::tuple from a list of values."""
        ts = self.agg_types(t)
        while len(v) == 1 and isinstance(v[0], list) and (t['n'] == 'std::array' or len(ts) > 1):
            v = v[0]
        if len(v) > len(ts):
            raise Unmodelled('initialiser of ' + t['n'])
        out = []
        for i, et in enumerate(ts):
            l = Loc('elem%d' % i)
            if et.get('c') in ('ref', 'rref'):
                x = v[i]
                if isinstance(x, (Loc, Elem)):
                    out.append(x)
                    continue
                raise Unmodelled('tuple of references')
            self.st.mem[l] = self.initv(v[i], et, 'elem', {'k': 'x'}) if i < len(v) else self.zerov(et, 'elem')
            out.append(l)
        return SVec(out)

    def default_agg(self, t):
        out = []
        for i, et in enumerate(self.agg_types(t)):
            l = Loc('elem%d' % i)
            self.st.mem[l] = self.default(et, 'elem') if t['n'] == 'std::array' else self.zerov(et, 'elem')
            out.append(l)
        return SVec(out)

    def make_vector(self, t, a, e):
        et = self.tyarg(t['a'][0])
        if not a:
            return SVec(())
        if e.get('copy') and len(a) == 1:
            v = self.eval(a[0])
            return self.copy_vec(v)
        if len(a) >= 1:
            first = strip(a[0])
            if first['k'] == 'ilist' or e.get('list'):
                items = first['a'] if first['k'] == 'ilist' else a
                out = []
                for x in items:
                    v = self.eval(x)
                    l = Loc('elem')
                    self.st.mem[l] = self.initv(v, et, 'elem', {'k': 'x'})
                    out.append(l)
                return SVec(out)
        v = self.eval(a[0])
        if len(a) > 1 and (isinstance(v, Ptr) or isinstance(v, Obj) and v.k == 'viter'):
            v = [self.val(x) for x in self.span(v, self.eval(a[1]))]
        if isinstance(v, list):
            out = []
            for x in v:
                l = Loc('elem')
                self.st.mem[l] = self.initv(x, et, 'elem', {'k': 'x'})
                out.append(l)
            return SVec(out)
        if isinstance(v, (SVec, SymVec)):
            return self.copy_vec(v)
        if isinstance(v, int):
            fill = self.eval(a[1]) if len(a) > 1 and strip(a[1])['k'] not in ('null',) else None
            out = []
            for i in range(v):
                l = Loc('elem%d' % i)
                if fill is None or isinstance(fill, Obj):
                    x = self.zerov(et, 'elem')
                else:
                    x = self.initv(fill, et, 'elem', {'k': 'x'})
                self.st.mem[l] = x
                out.append(l)
            return SVec(out)
        if isinstance(v, Poly):
            h = getattr(self, 'symvec_hook', None)
            if h is not None:
                return h(self, t, et, v)
        raise Unmodelled('vector constructor')

    def zerov(self, et, name):
        k = self.kindof(et)
        if k == 'f':
            return ZERO
        if k == 'i':
            return 0
        if k == 'b':
            return False
        return self.default(et, name)

    def copy_vec(self, v):
        if isinstance(v, SVec):
            out = []
            for l in v.e:
                x = self.cur(l)
                n = Loc(l.n)
                self.st.mem[n] = self.copied(x)
                out.append(n)
            return SVec(out)
        return v

    def copied(self, x):
        if isinstance(x, EM):
            return self.copy_em(x)
        if isinstance(x, Rec):
            return self.copy_rec(x)
        if isinstance(x, SVec):
            return self.copy_vec(x)
        if isinstance(x, Mx):
            return self.copy_mx(x, {'k': x.kind, 'r': x.rows, 'c': x.cols, 'rm': True, 'arr': x.arr}, 'elem')
        return x

    def deref(self, b):
        """What a pointer to an object designates."""
        while isinstance(b, (Loc, Elem)):
            b = self.val(b)
        return b

    # ---- overloaded operators
    def e_opcall(self, e):
        op = e['op']
        a = e['a']
        if op in ('()', '[]'):
            r = self.subscript(e)
            if isinstance(r, (Loc, Elem)):
                return self.val(r)
            return r
        if op in ('=', '+=', '-=', '*=', '/='):
            f = e['f']
            F = self.resolve_fn(f, self.fr().F.tu if self.fr().F else None) if f.get('p') else None
            if F is not None:
                if f.get('cls') is not None and len(F.params) == len(a) - 1:
                    this = self.deref(self.val(self.lv(a[0])))
                    return self.call(F, self.args(F, a[1:]), this=this)
                return self.call(F, self.args(F, a))
            l = self.lv(a[0])
            r = self.op_assign(l, a[1], op)
            return self.val(l) if isinstance(l, (Loc, Elem)) else l if isinstance(l, View) else r
        if op == '<<':
            return self.comma_first(e)
        if op == ',':
            return self.comma_next(e)
        if e['f'].get('p'):
            F = self.resolve_fn(e['f'], self.fr().F.tu if self.fr().F else None)
            if F is not None:
                if e['f'].get('cls') is not None and len(F.params) == len(a) - 1:
                    this = self.val(self.lv(a[0]))
                    return self.call(F, self.args(F, a[1:]), this=this)
                return self.call(F, self.args(F, a))
        if len(a) == 1:
            if op == '-':
                return self.e_un({'k': 'un', 'op': '-', 'e': a[0]})
            if op == '!':
                return simp(bnot(b_(self.eval(a[0]))))
            if op == '*':
                p = self.eval(a[0])
                if isinstance(p, Obj) and p.k == 'viter':
                    if not 0 <= p.d['i'] < len(p.d['v'].e):
                        raise Unmodelled('iterator out of range')
                    return self.val(p.d['v'].e[p.d['i']])
                if isinstance(p, Obj) and p.k == 'picked':
                    return p.d['v']
                if isinstance(p, Ptr):
                    return self.readbuf(p.buf, p.off)
                return self.val(p)
        if op in ('++', '--'):
            l = self.lv(a[0])
            old = self.val(l)
            if isinstance(old, (Ptr, Obj)) and isinstance(l, Loc):
                self.st.mem[l] = self.advance(old, 1 if op == '++' else -1)
                return old if len(a) == 2 else self.st.mem[l]
        x = self.eval(a[0])
        y = self.eval(a[1])
        if isinstance(x, Obj) and x.k == 'viter':
            if op in ('+', '-') and is_int(y):
                return self.advance(x, y if op == '+' else pneg(y))
            if isinstance(y, Obj) and y.k == 'viter' and x.d['v'].e == y.d['v'].e:
                if op == '-':
                    return x.d['i'] - y.d['i']
                if op in ('<', '>', '<=', '>=', '==', '!='):
                    return simp(self.compare(op, x.d['i'], y.d['i']))
            if isinstance(y, Obj) and y.k == 'picked' and op == '-':
                raise Unmodelled('iterator arithmetic')
        if isinstance(x, Obj) and x.k == 'picked' and isinstance(y, Obj) and y.k == 'viter' and op == '-' and y.d['i'] == 0:
            return x.d['i']
        if op in ('+', '-', '*', '/'):
            if isinstance(x, Obj) or isinstance(y, Obj):
                return self.marith(op, self.mx(x), self.mx(y))
            return self.arith(op, x, y)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(op, x, y)
        if op in ('&&', '||'):
            x, y = self.mx(x), self.mx(y)
            if isinstance(x, Mx):
                f = band if op == '&&' else bor
                return self.lazy(x.rows, x.cols, lambda r, c: f(x.get(r, c), y.get(r, c)), 'b', True)
        raise Unmodelled('overloaded ' + op)

    def op_assign(self, l, rhs, op):
        tgt = self.val(l) if isinstance(l, (Loc, Elem)) else l
        if isinstance(tgt, SVec) or isinstance(tgt, SymVec):
            v = self.eval(rhs)
            if isinstance(v, list):
                v = self.tup([self.copied(x) for x in v])
            if isinstance(l, Loc):
                self.st.mem[l] = self.copy_vec(v)
                return v
            if isinstance(tgt, SVec) and isinstance(v, SVec) and len(tgt.e) == len(v.e):
                for d, x in zip(tgt.e, [self.copied(self.val(x)) for x in v.e]):
                    self.store(d, x)
                return v
            raise Unmodelled('vector assignment')
        if isinstance(tgt, EM):
            tgt = self.emview(tgt, l if isinstance(l, Loc) else None)
        if isinstance(tgt, Obj) and tgt.k == 'rowwise':
            m = tgt.d['m']
            b = self.mx(self.eval(rhs))
            if op == '=':
                src = Mx(m.rows, m.cols, lambda r, c: b.get(0, c) if b.rows == 1 else b.get(c, 0))
                return self.assign(m, self.force(src))
            r = self.marith(op[0], tgt, b)
            return self.assign(m, r)
        if isinstance(tgt, (View,)) or isinstance(tgt, Obj) and tgt.k == 'noalias':
            v = self.eval(rhs)
            return self.massign(tgt, v, op)
        if isinstance(l, Loc):
            v = self.eval(rhs)
            if op == '=':
                self.st.mem[l] = self.copied(v)
                return v
        if isinstance(tgt, Rec):
            v = self.eval(rhs)
            if isinstance(v, Rec) and op == '=':
                for n, ft in self.fields(v).items():
                    src = self.copied(self.cur(v.field(n, ft)))
                    l2 = tgt.field(n, ft) if n in tgt.f else tgt.f.setdefault(n, Loc(n))
                    self.st.mem[l2] = src
                return v
        raise Unmodelled('assignment %s to %s' % (op, type(tgt).__name__))

    def subscript(self, e):
        a = e['a']
        base = self.lv(a[0])
        obj = self.val(base) if isinstance(base, (Loc, Elem)) else base
        if isinstance(obj, FuncObj) and obj.specs is not None:
            obj = self.instance(obj, e['f'].get('id'))
        if isinstance(obj, FuncObj) or (callable(obj) and not isinstance(obj, (Mx,))):
            return self.invoke(obj, self.fargs(obj, a[1:]))
        if isinstance(obj, Rec):
            F = self.resolve_fn(e['f'], None)
            if F is not None:
                return self.call(F, self.args(F, a[1:]), this=obj)
        ix = [self.eval(x) for x in a[1:]]
        ix = [self.toscalar(i, 'i') if isinstance(i, (T, B, bool)) else i for i in ix]
        if isinstance(obj, SVec):
            i = ix[0]
            if isinstance(i, int):
                if not 0 <= i < len(obj.e):
                    self.oob.append(('vector', i, len(obj.e), self.here(), self.st.cond()))
                    raise Unmodelled('vector subscript out of range')
                return obj.e[i]
            # symbolic subscript: gated read
            vals = [self.cur(l) for l in obj.e]
            r = vals[-1]
            for k in reversed(range(len(vals) - 1)):
                r = self.merge_val(ieq(i, k), vals[k], r)
            if isinstance(r, Obj):
                raise Unmodelled('symbolic vector subscript')
            return r
        if isinstance(obj, SymVec):
            if self.log_access:
                self.accesses.append((obj, ix[0], obj.n, False, self.st.pc,
                                      tuple((g.v, g.lo, g.hi) for g in self.gens), self.here()))
            return obj.mk(self, ix[0])
        m = self.mx(obj)
        if not isinstance(m, Mx):
            raise Unmodelled('subscript of %s' % (type(obj).__name__ + (':' + obj.cls if isinstance(obj, Rec) else '') + (':' + obj.k if isinstance(obj, Obj) else '')))
        if len(ix) == 1:
            if m.cols == 1:
                r, c = ix[0], 0
            elif m.rows == 1:
                r, c = 0, ix[0]
            elif isinstance(m, View) and m.cs == 1 and m.rs == m.cols or isinstance(m, View) and m.rs == 1 and m.cs == m.rows:
                self.bound(View(self, m.buf, m.off, pmul(m.rows, m.cols), 1, 1, 1, m.kind), ix[0], 0)
                return Elem(m.buf, padd(m.off, ix[0]))
            else:
                raise Unmodelled('linear subscript of a matrix')
        else:
            r, c = ix
        if isinstance(m, View):
            self.bound(m, r, c)
            return Elem(m.buf, m.at(r, c))
        return m.get(r, c)

    def bound(self, m, r, c):
        """Definite violations of the view's own extent (Eigen asserts on them)."""
        for i, n in ((r, m.rows), (c, m.cols)):
            if isinstance(i, int) and (i < 0 or isinstance(n, int) and i >= n):
                self.oob.append((m.buf.n, i, n, self.here(), self.st.cond()))
            elif self.log_access and not (isinstance(i, int) and isinstance(n, int)):
                self.accesses.append((m.buf, i, n, False, self.st.pc,
                                      tuple((g.v, g.lo, g.hi) for g in self.gens), self.here()))

    def comma_first(self, e):
        m = self.lv(e['a'][0])
        if isinstance(m, Loc):
            m = self.lmx(m)
        if isinstance(m, EM):
            m = self.emview(m)
        if isinstance(m, Obj):
            return m
        v = self.eval(e['a'][1])
        st = Obj('comma', m=m)
        return self.comma_put(st, v)

    def comma_next(self, e):
        st = self.eval(e['a'][0])
        v = self.eval(e['a'][1])
        return self.comma_put(st, v)

    def comma_put(self, st, v):
        if st.k != 'comma':
            return st
        m = st.d['m']
        v = self.mx(v)
        d = st.d
        if not isinstance(v, Mx):
            v = Vals(1, 1, [v], m.kind)
        if not all(isinstance(x, int) for x in (v.rows, v.cols, m.cols)):
            raise Unmodelled('comma initialiser of symbolic size')
        r0, c0, h = d.get('r', 0), d.get('c', 0), d.get('h', v.rows)
        if c0 == m.cols:
            r0, c0, h = r0 + h, 0, v.rows
        if v.rows != h or c0 + v.cols > m.cols or isinstance(m.rows, int) and r0 + h > m.rows:
            self.oob.append((m.buf.n, (r0, c0), (v.rows, v.cols), self.here(), self.st.cond()))
            raise Unmodelled('comma initialiser does not fit')
        vs = self.vals(v)
        for i in range(v.rows):
            for j in range(v.cols):
                self.writebuf(m.buf, m.at(r0 + i, c0 + j), self.toscalar(vs[i * v.cols + j], m.kind))
        d['r'], d['c'], d['h'] = r0, c0 + v.cols, h
        return st

    # ---- member calls
    def e_mcall(self, e):
        f = e['f']
        n = f['n']
        if f.get('p'):
            F = self.resolve_fn(f, self.fr().F.tu if self.fr().F else None)
            b = self.lv(e['b']) if e.get('b') else self.fr().this
            b = self.deref(b)
            if f.get('virt') and isinstance(b, Rec):
                F = self.override(b.cls, n, len(e['a'])) or F
            if F is None:
                raise Unmodelled('method ' + f['q'])
            return self.call(F, self.args(F, e['a']), this=b)
        b = self.lv(e['b'])
        l = b
        b = self.val(b) if isinstance(b, (Loc, Elem)) else b
        while isinstance(b, (Loc, Elem)) and not n.startswith('operator '):      # through a pointer
            l = b
            b = self.val(b)
        if n.startswith('operator '):
            m = self.mx(b)
            if isinstance(m, Mx) and m.rows == 1 and m.cols == 1:
                return m.get(0, 0)
            return b
        a = [self.eval(x) for x in e['a']]
        a = [x for x in a if not (isinstance(x, Obj) and x.k == 'null')]
        if isinstance(b, EM):
            return self.mmeth(self.emview(b, l if isinstance(l, Loc) else None), n, a, f)
        if isinstance(b, Mx):
            return self.mmeth(b, n, a, f)
        if isinstance(b, (SVec, SymVec)):
            return self.vmeth(b, l, n, a, f)
        if isinstance(b, list) and n == 'size':
            return len(b)
        if isinstance(b, Obj):
            return self.ometh(b, l, n, a, f)
        if scal(b):
            if n == 'real':
                return b
        raise Unmodelled('method %s of %s' % (n, type(b).__name__))

    def override(self, cls, n, na):
        """Final overrider of a virtual method in the dynamic class."""
        while cls:
            for F in self.prog.byq.get(cls + '::' + n, []):
                if len(F.params) == na:
                    return F
            rec = self.prog.records.get(cls)
            b = rec['b'] if rec else []
            if len(b) != 1:
                return None
            cls = (rec['tt'][b[0]] if isinstance(b[0], int) else b[0])['n']
        return None

    def vmeth(self, b, l, n, a, f):
        if n == 'size':
            return len(b.e) if isinstance(b, SVec) else b.n
        if isinstance(b, SVec):
            if n == 'push_back' or n == 'emplace_back' and len(a) == 1:
                x = Loc('elem')
                v = a[0]
                self.st.mem[x] = self.copied(v)
                self.st.mem[l] = SVec(b.e + (x,))
                return None
            if n in ('begin', 'end', 'cbegin', 'cend'):
                return Obj('viter', v=b, i=0 if 'begin' in n else len(b.e))
            if n == 'fill' or n == 'assign' and len(a) == 1:
                for x in b.e:
                    self.st.mem[x] = self.copied(self.toscalar(a[0], 'f') if isinstance(self.cur(x), T) else a[0])
                return None
            if n == 'swap' and isinstance(l, Loc) and isinstance(a[0], SVec):
                raise Unmodelled('vector::swap')
            if n == 'insert' and len(a) == 2 and isinstance(a[0], Obj) and a[0].k == 'viter':
                x = Loc('elem')
                self.st.mem[x] = self.copied(a[1])
                i = a[0].d['i']
                self.st.mem[l] = SVec(b.e[:i] + (x,) + b.e[i:])
                return None
            if n == 'erase' and len(a) == 1 and isinstance(a[0], Obj) and a[0].k == 'viter':
                i = a[0].d['i']
                self.st.mem[l] = SVec(b.e[:i] + b.e[i + 1:])
                return None
            if n == 'resize' and isinstance(a[0], int) and len(a) == 2:
                out = list(b.e[:a[0]])
                while len(out) < a[0]:
                    x = Loc('elem')
                    self.st.mem[x] = self.copied(a[1])
                    out.append(x)
                self.st.mem[l] = SVec(out)
                return None
            if n == 'clear':
                self.st.mem[l] = SVec(())
                return None
            if n == 'pop_back':
                self.st.mem[l] = SVec(b.e[:-1])
                return None
            if n in ('back', 'front'):
                return self.cur(b.e[-1 if n == 'back' else 0])
            if n == 'reserve':
                return None
            if n == 'at':
                return self.cur(b.e[a[0]])
            if n == 'empty':
                return len(b.e) == 0
        raise Unmodelled('vector::' + n)

    def blockof(self, m, r0, c0, rows, cols):
        if isinstance(m, View):
            self.bound_block(m, r0, c0, rows, cols)
            return m.sub(r0, c0, rows, cols)
        return self.lazy(rows, cols, lambda r, c: m.get(padd(r0, r), padd(c0, c)), m.kind, m.arr)

    def bound_block(self, m, r0, c0, rows, cols):
        for i, k, n in ((r0, rows, m.rows), (c0, cols, m.cols)):
            if all(isinstance(x, int) for x in (i, k, n)):
                if i < 0 or i + k > n:
                    self.oob.append((m.buf.n, (i, k), n, self.here(), self.st.cond()))
            elif self.log_access:
                gl = tuple((g.v, g.lo, g.hi) for g in self.gens)
                self.accesses.append((m.buf, i, padd(n, 1), False, self.st.pc, gl, self.here()))
                self.accesses.append((m.buf, padd(i, k), padd(n, 1), False, self.st.pc, gl, self.here()))

    def targs(self, f):
        return [x for x in (f.get('a') or []) if isinstance(x, int)]

    def mmeth(self, m, n, a, f):
        ta = self.targs(f)
        vec = m.cols == 1 or m.rows == 1
        size = m.rows if m.cols == 1 else (m.cols if m.rows == 1 else pmul(m.rows, m.cols))

        def seg(i, k):
            if m.cols == 1:
                return self.blockof(m, i, 0, k, 1)
            return self.blockof(m, 0, i, 1, k)
        if n in ('segment', 'head', 'tail') :
            if n == 'segment':
                return seg(a[0], ta[0] if ta and len(a) == 1 else a[1])
            k = ta[0] if ta and not a else a[0]
            return seg(0, k) if n == 'head' else seg(psub(size, k), k)
        if n == 'row':
            return self.blockof(m, a[0], 0, 1, m.cols)
        if n == 'col':
            return self.blockof(m, 0, a[0], m.rows, 1)
        if n == 'block':
            if len(ta) >= 2 and len(a) in (2, 4):
                return self.blockof(m, a[0], a[1], ta[0], ta[1])
            return self.blockof(m, *a)
        if n in ('topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols'):
            if n in ('middleRows', 'middleCols'):
                k = a[1] if len(a) > 1 else ta[0]
                return self.blockof(m, a[0], 0, k, m.cols) if n == 'middleRows' else self.blockof(m, 0, a[0], m.rows, k)
            k = a[0] if a else ta[0]
            return {'topRows': lambda: self.blockof(m, 0, 0, k, m.cols),
                    'bottomRows': lambda: self.blockof(m, psub(m.rows, k), 0, k, m.cols),
                    'leftCols': lambda: self.blockof(m, 0, 0, m.rows, k),
                    'rightCols': lambda: self.blockof(m, 0, psub(m.cols, k), m.rows, k)}[n]()
        if n.endswith('Corner'):
            r, c = (ta[0], ta[1]) if len(ta) >= 2 and len(a) == 0 else (a[0], a[1])
            r0 = 0 if n.startswith('top') else psub(m.rows, r)
            c0 = 0 if 'Left' in n else psub(m.cols, c)
            return self.blockof(m, r0, c0, r, c)
        if n in ('rows', 'cols', 'size', 'outerStride', 'innerStride', 'outerSize', 'innerSize'):
            return {'rows': m.rows, 'cols': m.cols, 'size': pmul(m.rows, m.cols)}.get(n)
        if n == 'data':
            if isinstance(m, View):
                return Ptr(m.buf, m.off, m.kind)
            raise Unmodelled('data() of a temporary')
        if n == 'array':
            return m.asarr(True) if isinstance(m, View) else self.lazy(m.rows, m.cols, m.get, m.kind, True)
        if n == 'matrix':
            return m.asarr(False) if isinstance(m, View) else self.lazy(m.rows, m.cols, m.get, m.kind, False)
        if n in ('eval', 'derived', 'finished', 'real', 'conjugate', 'template', 'nestedExpression', 'const_cast_derived'):
            if n == 'eval':
                return Vals(m.rows, m.cols, self.vals(m), m.kind, m.arr)
            return m
        if n == 'imag':
            return self.lazy(m.rows, m.cols, lambda r, c: X.fn('imag', m.get(r, c)))
        if n == 'noalias':
            return Obj('noalias', m=m)
        if n in ('transpose', 'adjoint'):
            return self.mtrans(m)
        if n == 'transposeInPlace':
            return self.massign(m, self.force(self.mtrans(Vals(m.rows, m.cols, self.vals(m), m.kind))), '=')
        if n == 'cast':
            tt = self.tyarg((f.get('a') or [{}])[0])
            k = self.kindof(tt) if isinstance(tt, dict) and 'c' in tt else 'f'
            return self.lazy(m.rows, m.cols, lambda r, c: self.toscalar(m.get(r, c), k), k, m.arr)
        if n in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity'):
            ints = [x for x in a if is_int(x)]
            val = {'setZero': 0, 'setOnes': 1}.get(n)
            if n in ('setConstant', 'fill'):
                val = a[-1]
                ints = ints[:-1] if is_int(a[-1]) else ints
            if ints and m.em is not None:
                em = self.cur(m.em)
                rows = ints[0]
                cols = ints[1] if len(ints) > 1 else 1
                if em.rows != rows or em.cols != cols:
                    if em.dr >= 0 and em.dc >= 0:
                        self.effects.append(('shape', em.buf.n, (em.rows, em.cols), (rows, cols), self.here(), self.st.cond()))
                        raise Unmodelled('setZero with another size')
                    nb = self.newbuf(em.buf.n, pmul(rows, cols), em.kind)
                    ne = EM(nb, rows, cols, em.rm and cols != 1, em.kind, em.arr, em.dr, em.dc)
                    self.st.mem[m.em] = ne
                    m = self.emview(ne, m.em)
            k = m.kind
            if n == 'setIdentity':
                src = Mx(m.rows, m.cols, lambda r, c: ONE if r == c else ZERO)
            else:
                sv = self.toscalar(lift(val) if k == 'f' and not isinstance(val, T) else (b_(bool(val)) if k == 'b' else val), k)
                src = Mx(m.rows, m.cols, lambda r, c: sv, k)
            self.assign(m, src)
            return m
        if n in ('resize', 'conservativeResize'):
            if m.em is None:
                raise Unmodelled('resize')
            em = self.cur(m.em)
            rows = a[0]
            cols = a[1] if len(a) > 1 else 1
            if em.rows == rows and em.cols == cols:
                return None
            old = self.vals(m) if n != 'resize' else None
            nb = self.newbuf(em.buf.n, pmul(rows, cols), em.kind)
            ne = EM(nb, rows, cols, em.rm and cols != 1, em.kind, em.arr, em.dr, em.dc)
            self.st.mem[m.em] = ne
            if old is not None:
                nv = self.emview(ne)
                for r in range(min(rows, m.rows)):
                    for c in range(min(cols, m.cols)):
                        self.writebuf(nb, nv.at(r, c), old[r * m.cols + c])
            return None
        if n in ('maxCoeff', 'minCoeff') and a:
            if len(a) > 1 or not vec or not isinstance(size, int) or not isinstance(a[0], (Loc, Elem, Ptr)):
                raise Unmodelled(n + ' with position')
            vs = self.vals(m)
            best, k = vs[0], 0
            for i, y in enumerate(vs[1:], 1):
                c = b_(simp(self.compare('<', best, y) if n == 'maxCoeff' else self.compare('<', y, best)))
                best, k = self.merge_val(c, y, best), iite(c, i, k)
            self.store(Elem(a[0].buf, a[0].off) if isinstance(a[0], Ptr) else a[0], k)
            return best
        if n in ('begin', 'end', 'cbegin', 'cend') and isinstance(m, View) and vec and isinstance(size, int):
            step = m.rs if m.cols == 1 else m.cs
            if step == 1:
                return Ptr(m.buf, padd(m.off, 0 if 'begin' in n else size), m.kind)
        if n in ('sum', 'prod', 'maxCoeff', 'minCoeff', 'any', 'all'):
            r = self.reduce(m, n)
            return simp(r) if isinstance(r, B) else r
        if n == 'mean':
            return div(self.reduce(m, 'sum'), lift(size))
        if n == 'count':
            vs = self.vals(m)
            r = 0
            for v in vs:
                r = padd(r, self.toscalar(b_(v), 'i'))
            return r
        if n in ('stableNorm', 'blueNorm', 'hypotNorm'):
            n = 'norm'
        if n in ('squaredNorm', 'norm', 'dot'):
            o = self.mx(a[0]) if n == 'dot' else m

            def at(x, i):
                return x.get(i, 0) if x.cols == 1 else x.get(0, i)
            if isinstance(m.rows, int) and isinstance(m.cols, int):
                x, y = self.vals(m), self.vals(o)
                s = ZERO
                for u, w in zip(x, y):
                    s = self.arith('+', s, self.arith('*', u, w))
            else:
                s = self.reduce(self.lazy(m.rows, m.cols, lambda r, c: mul(m.get(r, c), o.get(r, c))), 'sum')
            return X.sqrt(s) if n == 'norm' else s
        if n == 'lpNorm':
            return self.lpnorm(m, f)
        if n == 'normalized':
            nn = self.mmeth(m, 'norm', [], f)
            return self.lazy(m.rows, m.cols, lambda r, c: div(m.get(r, c), nn))
        if n in ('normalize', 'setLinSpaced') and isinstance(m, View):
            vs = self.vals(m)
            if n == 'normalize':
                nn = self.mmeth(m, 'norm', [], f)
                vs = [div(x, nn) for x in vs]
            elif len(a) == 2:
                k, lo, hi = len(vs), lift(a[0]), lift(a[1])
                vs = [hi if i == k - 1 else add(lo, mul(sub(hi, lo), C(Fraction(i, max(k - 1, 1))))) for i in range(k)]
            else:
                raise Unmodelled('setLinSpaced')
            self.assign(m, Vals(m.rows, m.cols, vs))
            return m
        if n == 'cross':
            u, w = self.vals(m), self.vals(self.mx(a[0]))
            v = [sub(mul(u[1], w[2]), mul(u[2], w[1])), sub(mul(u[2], w[0]), mul(u[0], w[2])), sub(mul(u[0], w[1]), mul(u[1], w[0]))]
            return Vals(m.rows, m.cols, v)
        if n == 'trace':
            s = ZERO
            for i in range(m.rows):
                s = add(s, m.get(i, i))
            return s
        if n == 'diagonal':
            if isinstance(m, View) and isinstance(m.rows, int) and isinstance(m.cols, int):
                return View(self, m.buf, m.off, min(m.rows, m.cols), 1, padd(m.rs, m.cs), 1, m.kind)
            return self.lazy(m.rows, 1, lambda r, c: m.get(r, r))
        if n == 'asDiagonal':
            return Obj('diag', m=self.force(m))
        if n in ('rowwise', 'colwise'):
            return Obj(n, m=m)
        if n == 'determinant':
            return self.det(self.vals(m), m.rows)
        if n == 'inverse' and not m.arr:
            return self.inverse(self.vals(m), m.rows)
        if n == 'reverse':
            if m.cols == 1:
                return self.lazy(m.rows, 1, lambda r, c: m.get(psub(psub(m.rows, 1), r), 0))
            return self.lazy(m.rows, m.cols, lambda r, c: m.get(psub(psub(m.rows, 1), r), psub(psub(m.cols, 1), c)))
        U = {'abs': lambda x: X.tabs(x) if isinstance(x, T) else self.libfun('abs', [x], None), 'cwiseAbs': lambda x: X.tabs(x),
             'sqrt': X.sqrt, 'cwiseSqrt': X.sqrt,
             'square': lambda x: mul(x, x), 'cube': lambda x: mul(x, mul(x, x)), 'exp': X.exp,
             'inverse': lambda x: div(ONE, x), 'cwiseInverse': lambda x: div(ONE, x),
             'abs2': lambda x: mul(x, x), 'cwiseAbs2': lambda x: mul(x, x),
             'isNaN': self.isnan, 'log': lambda x: X.fn('log', x),
             'sin': lambda x: X.fn('sin', x), 'cos': lambda x: X.fn('cos', x)}
        if n in U:
            g = U[n]
            return self.lazy(m.rows, m.cols, lambda r, c: g(m.get(r, c)), 'b' if n == 'isNaN' else m.kind, m.arr)
        if n == 'pow':
            return self.lazy(m.rows, m.cols, lambda r, c: X.power(m.get(r, c), lift(a[0])), m.kind, m.arr)
        B2 = {'max': self.smax, 'min': self.smin, 'cwiseMax': self.smax, 'cwiseMin': self.smin,
              'cwiseProduct': lambda x, y: self.arith('*', x, y), 'cwiseQuotient': lambda x, y: self.arith('/', x, y)}
        if n in B2:
            g = B2[n]
            o = self.mx(a[0])
            if isinstance(o, Mx):
                return self.lazy(m.rows, m.cols, lambda r, c: g(m.get(r, c), o.get(r, c)), m.kind, m.arr)
            return self.lazy(m.rows, m.cols, lambda r, c: g(m.get(r, c), lift(o) if m.kind == 'f' else o), m.kind, m.arr)
        if n == 'binaryExpr':
            o = self.mx(a[0])
            return self.lazy(m.rows, m.cols, lambda r, c: self.invoke(a[1], [m.get(r, c), o.get(r, c)]), m.kind, m.arr)
        if n == 'select':
            x, y = self.mx(a[0]), self.mx(a[1])
            at = lambda z, r, c: z.get(r, c) if isinstance(z, Mx) else self.toscalar(z, 'f')
            return self.lazy(m.rows, m.cols, lambda r, c: self.merge_val(b_(m.get(r, c)), at(x, r, c), at(y, r, c)),
                             x.kind if isinstance(x, Mx) else y.kind if isinstance(y, Mx) else 'f', False)
        if n == 'replicate':
            k = a if a else ta
            return self.lazy(pmul(m.rows, k[0]), pmul(m.cols, k[1]), lambda r, c: m.get(X.imod(r, m.rows), X.imod(c, m.cols)), m.kind, m.arr)
        if n == 'unaryExpr':
            fo = a[0]
            return self.lazy(m.rows, m.cols, lambda r, c: self.invoke(fo, [m.get(r, c)]), m.kind, m.arr)
        if n == 'triangularView':
            if ta not in ([1], [2]):
                raise Unmodelled('triangularView %s' % (ta,))
            m = self.force(m)
            return self.lazy(m.rows, m.cols, lambda r, c: m.get(r, c) if (r <= c if ta == [2] else r >= c) else ZERO)
        if n in ('colPivHouseholderQr', 'householderQr', 'partialPivLu', 'fullPivLu', 'lu', 'ldlt', 'llt'):
            return Obj('ColPivHouseholderQR', m=self.force(m))
        if n == 'eigenvalues':
            return self.mfn('eigenvalues', m, m.rows)
        if n in ('coeff', 'coeffRef'):
            return m.get(a[0], a[1] if len(a) > 1 else 0) if m.cols == 1 or len(a) > 1 else m.get(0, a[0])
        if n in ('x', 'y', 'z', 'w'):
            i = 'xyzw'.index(n)
            return Elem(m.buf, m.at(i, 0)) if isinstance(m, View) else m.get(i, 0)
        if n == 'swap':
            o = self.mx(a[0])
            x, y = self.vals(m), self.vals(o)
            self.assign(m, Vals(m.rows, m.cols, y))
            self.assign(o, Vals(o.rows, o.cols, x))
            return None
        if n == 'hasNaN':
            r = FALSE
            for v in self.vals(m):
                r = bor(r, self.isnan(lift(v)))
            return simp(r)
        if n == 'allFinite':
            r = TRUE
            for v in self.vals(m):
                r = band(r, X.buf_('isfinite', (lift(v),)))
            return simp(r)
        if n == 'isApprox':
            return X.buf_(n, tuple(self.vals(m)) + (tuple(self.vals(self.mx(a[0]))) if a and isinstance(self.mx(a[0]), Mx) else ()))
        raise Unmodelled('Eigen method ' + n)

    def lpnorm(self, m, f):
        vs = self.vals(m)
        p_ = self.targs(f)
        if p_ and p_[0] == 2:
            return self.mmeth(m, 'norm', [], f)
        if p_ and p_[0] == 1:
            r = ZERO
            for v in vs:
                r = add(r, X.tabs(v))
            return r
        r = X.tabs(vs[0])
        for v in vs[1:]:
            r = X.tmax(r, X.tabs(v))
        return r

    def det(self, v, n):
        if n == 1:
            return v[0]
        if n == 2:
            return sub(mul(v[0], v[3]), mul(v[1], v[2]))
        if n == 3:
            return add(sub(mul(v[0], sub(mul(v[4], v[8]), mul(v[5], v[7]))),
                           mul(v[1], sub(mul(v[3], v[8]), mul(v[5], v[6])))),
                       mul(v[2], sub(mul(v[3], v[7]), mul(v[4], v[6]))))
        return X.mk('mdet', n, tuple(v))

    def inverse(self, v, n):
        if n == 2:
            d = self.det(v, 2)
            return Vals(2, 2, [div(v[3], d), neg(div(v[1], d)), neg(div(v[2], d)), div(v[0], d)])
        if n == 3:
            d = self.det(v, 3)

            def cof(i, j):
                r = [x for x in range(3) if x != i]
                c = [x for x in range(3) if x != j]
                m = sub(mul(v[r[0] * 3 + c[0]], v[r[1] * 3 + c[1]]), mul(v[r[0] * 3 + c[1]], v[r[1] * 3 + c[0]]))
                return m if (i + j) % 2 == 0 else neg(m)
            return Vals(3, 3, [div(cof(j, i), d) for i in range(3) for j in range(3)])
        if n == 1:
            return Vals(1, 1, [div(ONE, v[0])])
        mi = X.mk('minv', n, tuple(v))
        return Vals(n, n, [X.el(mi, i) for i in range(n * n)])

    def isnan(self, x):
        return X.buf_('isnan', (x,))

    def tridiag(self, m):
        """Ascending eigenvalues of a symmetric tridiagonal matrix with zero
        diagonal (the lower triangle counts), in closed form up to order 4."""
        n = m.rows
        if not isinstance(n, int) or n > 4 or n < 1:
            return None
        v = self.vals(m)
        for i in range(n):
            for j in range(i + 1):
                if i != j + 1 and v[i * n + j] is not ZERO:
                    return None
        o = [v[(i + 1) * n + i] for i in range(n - 1)]
        if n == 1:
            return [ZERO]
        s = ZERO
        for x in o:
            s = add(s, mul(x, x))
        if n == 2:
            r = X.sqrt(s)
            return [neg(r), r]
        if n == 3:
            r = X.sqrt(s)
            return [neg(r), ZERO, r]
        q = mul(mul(o[0], o[0]), mul(o[2], o[2]))
        d = X.sqrt(sub(mul(s, s), mul(lift(4), q)))
        a, b = X.sqrt(div(sub(s, d), lift(2))), X.sqrt(div(add(s, d), lift(2)))
        return [neg(b), neg(a), a, b]

    def mfn(self, name, m, nout, cols=1):
        x = X.mk('mfn', name, nout * cols, tuple(self.vals(m)))
        return Vals(nout, cols, [X.el(x, i) for i in range(nout * cols)])

    def ometh(self, b, l, n, a, f):
        k = b.k
        if k in ('ColPivHouseholderQR', 'HouseholderQR', 'PartialPivLU', 'FullPivLU'):
            if n == 'solve':
                A, r = b.d['m'], self.mx(a[0])
                r = self.force(r)
                ms = X.mk('msolve', A.rows, r.cols, tuple(self.vals(A)), tuple(self.vals(r)))
                return Vals(A.rows, r.cols, [X.el(ms, i) for i in range(A.rows * r.cols)])
            if n == 'compute':
                b.d['m'] = self.force(self.mx(a[0]))
                return b
            if n in ('inverse',):
                return self.inverse(self.vals(b.d['m']), b.d['m'].rows)
            if n == 'householderQ':
                m = b.d['m']
                return self.mfn('qr.Q:%d' % m.rows, m, m.rows, m.rows)
            if n == 'matrixQR':
                m = b.d['m']
                return self.mfn('qr.R:%d' % m.rows, m, m.rows, m.cols)
        if k in ('Eigen::ColPivHouseholderQR', 'Eigen::HouseholderQR', 'Eigen::EigenSolver', 'Eigen::SelfAdjointEigenSolver', 'Eigen::JacobiSVD'):
            if n == 'compute':
                nb = Obj(k[7:], m=self.force(self.mx(a[0])))
                if isinstance(l, Loc):
                    self.st.mem[l] = nb
                return nb
        if k in ('EigenSolver', 'SelfAdjointEigenSolver'):
            m = b.d['m']
            if n == 'compute':
                b.d['m'] = self.force(self.mx(a[0]))
                return b
            if n == 'eigenvalues':
                if k == 'SelfAdjointEigenSolver':
                    r = self.tridiag(m)
                    if r is not None:
                        return Vals(m.rows, 1, r)
                return self.mfn('eigenvalues' if k == 'EigenSolver' else k + '.eigenvalues', m, m.rows)
            if n == 'eigenvectors':
                return self.mfn(k + '.eigenvectors', m, m.rows, m.rows)
        if k == 'JacobiSVD':
            m = b.d['m']
            if n == 'singularValues':
                return self.mfn('svd.S', m, m.rows)
            if n == 'matrixV':
                return self.mfn('svd.V', m, m.cols, m.cols)
            if n == 'matrixU':
                return self.mfn('svd.U', m, m.rows, m.rows)
        if k == 'comma' and n == 'finished':
            return b.d['m']
        if k in ('rowwise', 'colwise'):
            m = b.d['m']
            if n in ('sum', 'norm', 'squaredNorm', 'maxCoeff', 'minCoeff', 'prod', 'mean', 'any', 'all'):
                def red(i):
                    sl = self.blockof(m, i, 0, 1, m.cols) if k == 'rowwise' else self.blockof(m, 0, i, m.rows, 1)
                    return self.mmeth(sl, n, [], f)
                cnt = m.rows if k == 'rowwise' else m.cols
                vs = [red(i) for i in range(cnt)]
                return Vals(cnt, 1, vs) if k == 'rowwise' else Vals(1, cnt, vs)
            if n == 'reverse':
                if k == 'colwise':
                    return self.lazy(m.rows, m.cols, lambda r, c: m.get(psub(psub(m.rows, 1), r), c))
                return self.lazy(m.rows, m.cols, lambda r, c: m.get(r, psub(psub(m.cols, 1), c)))
        if n in ('str', 'good', 'begin', 'end'):
            return Obj('str')
        raise Unmodelled('method %s of %s' % (n, k))


class LambdaF:
    """Stands for the body of a lambda in a Frame."""

    def __init__(self, fo):
        self.tu = fo.F.tu if fo.F else None
        self.ret = None
        self.file = fo.F.file if fo.F else ''
        self.tt = fo.F.tt if fo.F else None


def X_name(p):
    return next(iter(p.syms()))


def strip(e):
    while e.get('k') in ('cast',) or (e.get('k') == 'ctor' and e.get('copy') and len(e['a']) == 1):
        e = e['e'] if e['k'] == 'cast' else e['a'][0]
    return e
