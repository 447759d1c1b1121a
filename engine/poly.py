"""Exact integer polynomials over index symbols (loop variables, grid extents,
integer kernels).  Used for array subscripts and loop bounds."""


class Poly:
    __slots__ = ('m', '_h')

    def __init__(self, m):
        self.m = m                      # dict: tuple(sorted symbols) -> int
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, int):
            return self.is_const() and self.const() == o
        return isinstance(o, Poly) and self.m == o.m

    def is_const(self):
        return all(k == () for k in self.m)

    def const(self):
        return self.m.get((), 0)

    def syms(self):
        s = set()
        for k in self.m:
            s.update(k)
        return s

    def __add__(self, o):
        return padd(self, o)

    def __radd__(self, o):
        return padd(self, o)

    def __sub__(self, o):
        return padd(self, o, -1)

    def __rsub__(self, o):
        return padd(o, self, -1)

    def __mul__(self, o):
        return pmul(self, o)

    def __rmul__(self, o):
        return pmul(self, o)

    def __neg__(self):
        return pmul(self, -1)

    def __repr__(self):
        if not self.m:
            return '0'
        out = []
        for k, c in sorted(self.m.items(), key=lambda kc: (-len(kc[0]), kc[0])):
            t = '*'.join(k)
            if not t:
                out.append(str(c))
            elif c == 1:
                out.append(t)
            else:
                out.append('%d*%s' % (c, t))
        return ' + '.join(out)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    assert isinstance(x, int), x
    return Poly({(): x} if x else {})


def psym(name):
    return Poly({(name,): 1})


def norm(p):
    """Poly -> int when constant."""
    if isinstance(p, Poly) and p.is_const():
        return p.const()
    return p


def padd(a, b, s=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + s * b
    a, b = P(a), P(b)
    m = dict(a.m)
    for k, c in b.m.items():
        v = m.get(k, 0) + s * c
        if v:
            m[k] = v
        else:
            m.pop(k, None)
    return norm(Poly(m))


def psub(a, b):
    return padd(a, b, -1)


def pmul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    a, b = P(a), P(b)
    m = {}
    for k1, c1 in a.m.items():
        for k2, c2 in b.m.items():
            k = tuple(sorted(k1 + k2))
            v = m.get(k, 0) + c1 * c2
            if v:
                m[k] = v
            else:
                m.pop(k, None)
    return norm(Poly(m))


def pneg(a):
    return pmul(a, -1)


def psubst(p, sub):
    """Substitute symbols by polys."""
    if isinstance(p, int):
        return p
    if not (p.syms() & set(sub)):
        return p
    r = 0
    for k, c in p.m.items():
        t = c
        for s in k:
            t = pmul(t, sub[s] if s in sub else psym(s))
        r = padd(r, t)
    return r


def peval(p, look):
    if isinstance(p, int):
        return p
    r = 0
    for k, c in p.m.items():
        t = c
        for s in k:
            t *= look(s)
        r += t
    return r


def divmono(p, d):
    """Quotient of the monomials of p divisible by the leading monomial of d
    (d: nonzero).  Returns q such that p - q*d has no monomial divisible by the
    leading monomial of d, or None when a coefficient does not divide."""
    d = P(d)
    lead = max(d.m, key=lambda k: (len(k), k))
    lc = d.m[lead]
    q = 0
    rest = P(p)
    for _ in range(64):
        found = None
        for k, c in rest.m.items():
            r = list(k)
            ok = True
            for s in lead:
                if s in r:
                    r.remove(s)
                else:
                    ok = False
                    break
            if ok and (lead != () or True):
                if c % lc == 0:
                    found = (tuple(r), c // lc)
                    break
                if lead == ():
                    # constant divisor: floor-divide constants only
                    if k == ():
                        continue
                    return None
                return None
        if found is None:
            return q, norm(rest)
        t = Poly({found[0]: found[1]})
        q = padd(q, t)
        rest = P(psub(rest, pmul(t, d)))
    return None


def delinearise(p, strides):
    """Write p = sum q_d * strides[d] + r with strides ordered from the largest.
    The last stride must be a positive integer.  Returns ([q...], r) with
    0 <= r < last stride an int, or None."""
    qs = []
    rest = p
    for s in strides[:-1]:
        res = divmono(rest, s)
        if res is None:
            return None
        q, rest = res
        qs.append(norm(q) if isinstance(q, Poly) else q)
    s = strides[-1]
    rest = P(rest)
    q = {}
    r = 0
    for k, c in rest.m.items():
        if k == ():
            q[k] = c // s
            r = c % s
        else:
            if c % s:
                return None
            q[k] = c // s
    q = {k: v for k, v in q.items() if v}
    qs.append(norm(Poly(q)))
    return qs, r
