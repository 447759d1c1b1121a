"""Helpers that put a function of the resolved program under analysis with
symbolic arguments."""
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)

import terms as X
from terms import *          # noqa
from poly import *           # noqa
from front import *          # noqa
import interp as IP
from interp import View, EM, Rec, SVec, SymVec, Mx, Vals, Loc, Unmodelled, Dead, Log, Elem
from execu import Interp


class Drv(Interp):
    """One analysis session (fresh memory) over a program."""

    def __init__(self, prog, opaque=()):
        Interp.__init__(self, prog)
        self.distcalls = []
        self.nlcalls = []
        self.opaque['distance'] = Drv.h_distance
        self.opaque['nonlin_solve'] = Drv.h_nonlin

    def h_distance(self, F, args):
        """Signed distance re-initialisation: an unknown array of the same size."""
        nm = 'dist%d' % len(self.distcalls)
        v = self.mx(args[0])
        self.distcalls.append((nm, v, self.st, args))
        self.frames.append(IP.Frame(F, F.tt))
        try:
            em = self.new_em(nm, {'k': 'f', 'rm': False, 'arr': False, 'r': -1, 'c': 1}, v.rows, 1, base=nm)
        finally:
            self.frames.pop()
        return self.mark(em)

    def h_nonlin(self, F, args):
        """Root of a vector function near a guess: an unknown vector."""
        nm = 'root%d' % len(self.nlcalls)
        v = self.mx(args[1].buf and args[1] if isinstance(args[1], (View, EM)) else self.cur(args[1]))
        self.nlcalls.append((nm, args[0], v, args[2:]))
        em = self.new_em(nm, {'k': 'f', 'rm': False, 'arr': False, 'r': -1, 'c': 1}, v.rows, 1, base=nm)
        return self.mark(em)

    def vec(self, name, n, kind='f', arr=False, init=None):
        b = self.newbuf(name, n, kind, base=name, init=init)
        return View(self, b, 0, n, 1, 1, n, kind, arr)

    def mat(self, name, r, c, kind='f', rm=True, arr=False, init=None):
        b = self.newbuf(name, pmul(r, c), kind, base=name, init=init)
        rs, cs = (c, 1) if rm else (1, r)
        return View(self, b, 0, r, c, rs, cs, kind, arr)

    def par(self, name='MP', cls='Par', **fix):
        r = Rec(self, cls, name)
        for k, v in fix.items():
            l = Loc(name + '.' + k)
            r.f[k] = l
            self.base_mem[l] = v
            self.st.mem[l] = v
        return r

    def arg(self, t, name, F):
        """Symbolic argument of type t."""
        t = F.tt[t] if isinstance(t, int) else t
        c = t['c']
        if c in ('ref', 'rref'):
            v = self.arg(t['e'], name, F)
            return v
        if c in ('b', 'enum'):
            k = self.kindof(t)
            return psym(name) if k == 'i' else brd(name, 0) if k == 'b' else S(name)
        if c == 'rec':
            n = t['n']
            if n.startswith('Eigen::'):
                fr = IP.Frame(F, F.tt)
                self.frames.append(fr)
                d = self.mtype(t)
                self.frames.pop()
                r = d['r'] if d['r'] > 0 else psym('rows(%s)' % name)
                cc = d['c'] if d['c'] > 0 else psym('cols(%s)' % name)
                return self.mat(name, r, cc, d['k'], d['rm'] and cc != 1, d['arr'])
            if n == 'std::vector':
                e = t['a'][0]
                e = F.tt[e['t']] if isinstance(e, dict) and 't' in e else e
                return SymVec(name, psym('size(%s)' % name), lambda it, i, e=e: self.elem(e, name, i, F))
            return Rec(self, n, name)
        raise Unmodelled('argument type ' + c)

    def elem(self, e, name, i, F):
        return self.arg(e, '%s[%s]' % (name, i), F)

    def run(self, q, *args, nparams=None, pred=None):
        F = self.prog.one(q, nparams, pred) if isinstance(q, str) else q
        self.frames.append(IP.Frame(F, F.tt))
        try:
            return self.call(F, list(args))
        finally:
            self.frames.pop()

    def out(self, v):
        """List of values of a matrix-like result."""
        return self.vals(v) if isinstance(v, (Mx, EM)) else [v]
