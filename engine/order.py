"""Second interpretation of the value graph: residues as in terms.Ev, but every
order comparison is decided by a shadow over the ordered field of the reals.

The residue interpretation orders numbers by quadratic character, which knows
sign rules but not transitivity (max(max(a,b),c) against max(a,max(b,c))) or
monotonicity (sqrt(max(a,b)) against max(sqrt a, sqrt b)).  A difference found
there is a difference of the programs only if it is also one here."""
import numpy as np
import terms as X
from terms import Ev, T, up, U, mix, G, _ik          # noqa

KNOWN = {'log': np.log, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'atan': np.arctan, 'acos': np.arccos, 'asin': np.arcsin,
         'tanh': np.tanh, 'sinh': np.sinh, 'cosh': np.cosh, 'floor': np.floor, 'ceil': np.ceil}


# the constants of std::numeric_limits<double>
LIMITS = {'DBL_MAX': np.finfo(float).max, 'DBL_MIN': np.finfo(float).tiny, 'DBL_EPSILON': np.finfo(float).eps}


class Ev2(Ev):
    def __init__(self, **kw):
        Ev.__init__(self, **kw)
        self.fm = {}
        sc = (self.h('scale') >> U(11)).astype(np.float64) / 2.0 ** 53
        # lanes differ in how widely their magnitudes spread
        self.spread = np.where(sc < 0.4, 0.7, np.where(sc < 0.7, 3.0, 12.0))

    def real(self, hv, positive):
        """A random real from a hash."""
        a = (mix(hv + U(101)) >> U(11)).astype(np.float64) / 2.0 ** 53
        b = (mix(hv + U(202)) >> U(11)).astype(np.float64) / 2.0 ** 53
        v = np.exp((a - 0.5) * 2 * self.spread)
        if positive:
            return v
        return np.where(b < 0.5, v, -v)

    def child(self, ivars, carried):
        ch = Ev.child(self, ivars, carried)
        ch.fm = {}
        ch.__class__ = Ev2
        return ch

    def f(self, x):
        self.t(x)
        r = self.fm.get(x)
        if r is None:
            with np.errstate(all='ignore'):
                r = self.f1(x)
            self.fm[x] = r
        return r

    def t1(self, x):
        r = Ev.t1(self, x)
        if x not in self.fm:
            with np.errstate(all='ignore'):
                self.fm[x] = self.f1(x, r)
        return r

    def isym(self, n):
        d = _ik.get(n)
        if d is not None and d[0] == 'trunc' and 'trunc' not in self.intdom and n not in self.ints and n not in self.imemo:
            with np.errstate(all='ignore'):
                v = np.nan_to_num(np.trunc(self.f(d[1])), nan=0.)
            self.imemo[n] = np.clip(v, -1e6, 1e6).astype(np.int64)
        return Ev.isym(self, n)

    def b(self, x):
        if x is True or x is False or x in self.bmemo or x in self.bools:
            return Ev.b(self, x)
        if x.k == 'r<':
            u, _ = self.t(x.a[0])
            w, _ = self.t(x.a[1])
            with np.errstate(all='ignore'):
                v = (u != w) & (self.f(x.a[0]) < self.f(x.a[1]))
            self.bmemo[x] = v
            return v
        return Ev.b(self, x)

    def hreal(self, x, r, name=None):
        u = (r or self.memo[x])[0]
        return self.real(mix(u + U(4242)), self.allpos or name in self.positive)

    def f1(self, x, r=None):
        k, a = x.k, x.a
        L = self.L
        if x in self.fixed:
            return self.real(mix(self.fixed[x] + U(4242)), False)
        if k == 'c':
            return np.full(L, float(a[0]))
        if k == 's':
            if a[0] in LIMITS:
                return np.full(L, LIMITS[a[0]])
            v = self.real(self.h('sym', a[0]), self.allpos or a[0] in self.positive)
            if a[0] in self.small:
                e = (self.h('small', a[0]) >> U(11)).astype(np.float64) / 2.0 ** 53
                v = np.where(e < 0.8, v * np.exp(-24 * e), v)
            return v
        if k == '+':
            return self.f(a[0]) + self.f(a[1])
        if k == '-':
            return self.f(a[0]) - self.f(a[1])
        if k == '*':
            return self.f(a[0]) * self.f(a[1])
        if k == '/':
            return self.f(a[0]) / self.f(a[1])
        if k == 'neg':
            return -self.f(a[0])
        if k == 'pow':
            return np.power(self.f(a[0]), self.f(a[1]))
        if k == 'cbrt':
            return np.cbrt(self.f(a[0]))
        if k == 'exp':
            return np.exp(self.f(a[0]))
        if k == 'ite':
            return np.where(self.b(a[0]), self.f(a[1]), self.f(a[2]))
        if k == 'rd':
            return self.real(self.h('rd', a[0], self.i(a[1])), self.allpos or a[0] in self.positive)
        if k == 'i2r':
            return self.i(a[0]).astype(np.float64)
        if k == 'fn' and len(a) == 2 and a[0] in KNOWN:
            return KNOWN[a[0]](self.f(a[1]))
        if k == 'fn' and a[0] == 'atan2':
            return np.arctan2(self.f(a[1]), self.f(a[2]))
        if k == 'fn' and a[0] == 'hypot':
            return np.hypot(self.f(a[1]), self.f(a[2]))
        if k == 'el':
            m = self.f(a[0])
            return m[a[1]]
        if k in ('minv', 'msolve', 'mdet'):
            n = a[0]
            ents = a[1] if k != 'msolve' else a[2]
            A = np.stack([self.f(e) for e in ents]).reshape(n, n, L).transpose(2, 0, 1)
            A = np.where(np.isfinite(A), A, 0)
            if k == 'mdet':
                return np.linalg.det(A)
            if k == 'minv':
                Bm = np.broadcast_to(np.eye(n), (L, n, n))
                c = n
            else:
                c = a[1]
                Bm = np.stack([self.f(e) for e in a[3]]).reshape(n, c, L).transpose(2, 0, 1)
            out = np.full((L, n, c), np.nan)
            try:
                out = np.linalg.solve(A, Bm)
            except np.linalg.LinAlgError:
                for i in range(L):
                    try:
                        out[i] = np.linalg.solve(A[i], Bm[i])
                    except np.linalg.LinAlgError:
                        pass
            return out.transpose(1, 2, 0).reshape(n * c, L)
        if k == 'mfn' and a[0].startswith('qr.'):
            # a factor of the QR decomposition, with its actual meaning
            rows = int(a[0].split(':')[1])
            ents = a[2]
            A = np.stack([self.f(e) for e in ents]).reshape(rows, -1, L).transpose(2, 0, 1)
            A = np.where(np.isfinite(A), A, 0)
            o = np.linalg.qr(A, mode='complete')[0 if a[0].startswith('qr.Q') else 1]
            return o.transpose(1, 2, 0).reshape(-1, L)
        if k == 'mfn':
            u = (r or self.memo[x])[0]
            return np.stack([self.real(mix(u[i] + U(4242)), a[0] in self.positive) for i in range(a[1])])
        if k == 'lam':
            return self.hreal(x, r)
        return self.hreal(x, r, a[0] if k == 'uf' else None)


def ev2s(evs, L=1024):
    """Order-decided counterparts of a batch list."""
    out = []
    for i, e in enumerate(evs[:2]):
        o = Ev2(L=L, seed=int(i + 31), positive=e.positive, undef_seed=e.undef_seed, allpos=e.allpos, small=e.small)
        for nm in ('ints_fn',):
            if hasattr(e, nm):
                getattr(e, nm)(o)
        if e.ints:
            # integer lanes are repeated to the new length
            o.ints = {k: np.resize(v, L) for k, v in e.ints.items()}
        o.intdom = e.intdom
        if e.bools:
            o.bools = {k: np.resize(v, L) for k, v in e.bools.items()}
        if e.fixed:
            o.fixed = {k: np.resize(v, L) for k, v in e.fixed.items()}
        out.append(o)
    return out


def has_order(ts):
    """Does any term contain an order comparison?"""
    seen, st = set(), list(ts)
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, X.B):
            if x.k == 'r<':
                return True
            st.extend(x.a)
        elif isinstance(x, T):
            if x.k == 'fn' and x.a[0] in KNOWN and x.a[0] not in ('floor', 'ceil'):
                return True
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, str) and x in _ik:
            st.extend(_ik[x])
        elif hasattr(x, 'm') and isinstance(getattr(x, 'm'), dict):
            for kk in x.m:
                st.extend(kk)
    return False
