"""Bookkeeping of one check: obligations, verdicts, evidence, exit status."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from drive import *          # noqa
import drive
import order

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, tier, level, rule):
        self.pid, self.tier, self.level, self.rule = pid, tier, level, rule
        self.t0 = time.time()
        self.okl, self.bad, self.und, self.errs = [], [], [], []
        self.functions, self.units, self.sites = set(), set(), 0
        self.configs = []
        self.seed = int(os.environ.get('VERIF_SEED') or 1)
        self.thorough = tier == 'thorough'
        self.assume = []
        self.progs = {}
        self.samples = []
        self._e2 = {}
        self.witness = self.given = None

    # ---- programs
    def prog(self, **opts):
        o = {k: ('true' if v is True else 'false' if v is False else str(v)) for k, v in opts.items()}
        key = json.dumps(o, sort_keys=True)
        if key not in self.progs:
            p = Program(o)
            self.progs[key] = p
            self.configs.append(o)
            for s, _ in p.units:
                self.units.add(relp(s))
        return self.progs[key]

    def drv(self, prog):
        d = Drv(prog)
        d.chk = self
        self._drvs = getattr(self, '_drvs', [])
        self._drvs.append(d)
        return d

    def note_calls(self):
        for d in getattr(self, '_drvs', []):
            self.nruns = getattr(self, 'nruns', 0) + 1
            for F in d.calls:
                self.functions.add('%s:%s %s' % (relp(F.file), F.line, F.q))
            self.bounds(d)
        self._drvs = []

    def bounds(self, d):
        """Subscripts that are outside their array on a path some input takes."""
        seen = set()
        for nm, off, size, at, cond in d.oob:
            if (nm, str(at)) not in seen and self.feasible(cond):
                seen.add((nm, str(at)))
                self.fail('inside the arrays: %s' % nm, str(at), 'index %s of an array of extent %s' % (off, size))
        for x in d.effects:
            if x[0] == 'shape' and all(isinstance(n, int) for n in x[2] + x[3]) and ('shape', str(x[4])) not in seen and self.feasible(x[5]):
                seen.add(('shape', str(x[4])))
                self.fail('shapes agree: %s' % x[1], str(x[4]), 'an array of shape %sx%s is assigned to one of shape %sx%s' % (tuple(x[3]) + tuple(x[2])))

    def feasible(self, cond):
        if cond is TRUE or cond is True:
            return True
        if cond is FALSE or cond is False:
            return False
        try:
            for o in order.ev2s(self.evs(2), L=1024):
                if drive.IP.np.any(o.b(cond)):
                    return True
        except (Undecided, KeyError):
            pass
        return False

    # ---- evaluation batches
    def evs(self, n=None, L=None, **kw):
        n = n or (6 if self.thorough else 2)
        L = L or (256 if self.thorough else 64)
        return [Ev(L=L, seed=self.seed * 1000 + i, **kw) for i in range(n)]

    # ---- verdicts
    def ok(self, name, detail=''):
        self.okl.append(name)
        if len(self.samples) < 12:
            self.samples.append('%s %s' % (name, detail) if detail else name)

    def fail(self, name, where, msg):
        self.bad.append({'obligation': name, 'where': where, 'message': msg})

    def undecided(self, name, why):
        self.und.append({'obligation': name, 'why': str(why)[:300]})

    def attempt(self, name, fn):
        """Run fn; engine limitations make the obligation undecided."""
        try:
            return fn()
        except FrontError as e:
            self.undecided(name, e)
        except Dead:
            self.undecided(name, 'every path throws')
        except (Undecided, RecursionError) as e:
            self.undecided(name, '%s @%s' % (e, getattr(e, 'at', '')))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(name, 'engine: %s %s (%s:%d) @%s' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno, getattr(e, 'at', '')))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        return None

    def staged(self, name, fn, sym=True):
        """fn(sub, symbolic, opaque) states the same obligations at several levels of
        abstraction; a difference seen at the coarse level (uninterpreted kernels,
        symbolic grid) is only reported when a finer level sees one too."""
        def go(sy, op, wit=None):
            sub = Check(self.pid, self.tier, self.level, self.rule)
            sub.progs, sub.seed, sub._e2 = self.progs, self.seed, self._e2
            sub.given = wit
            sub.attempt(name, lambda: fn(sub, sy, op))
            sub.note_calls()
            self.functions |= sub.functions
            return sub

        def take(sub):
            self.okl += sub.okl
            self.bad += sub.bad
            self.und += sub.und
            for x in sub.samples:
                if len(self.samples) < 12:
                    self.samples.append(x)
        a = go(sym, True)
        if not a.bad and not a.und:
            return take(a)
        if not a.bad:
            b = go(False, True)
            if not b.bad and not b.und:
                self.note('%s: decided on literal grids only (%s)' % (name, a.und[0]['why'][:120]))
                return take(b)
            if not b.bad:
                return take(a if len(a.okl) >= len(b.okl) else b)
            d = go(False, False)
            if not d.bad and d.und:
                d.undecided(name, 'difference at the abstract level not confirmed: ' + b.bad[0]['obligation'])
            return take(d)
        why = 'difference at the abstract level not confirmed: ' + a.bad[0]['obligation']
        b = go(False, True, a.witness)          # the grid on which the difference was seen, literally
        if not b.bad:
            b.undecided(name, why)
            return take(b)
        d = go(False, False, a.witness)         # with the real kernels
        if not d.bad and not d.und:
            return take(d)
        if not d.bad:
            d.undecided(name, why)
            return take(d)
        for x in d.bad:
            x['message'] += ' (also seen on a grid of symbolic size: %s)' % a.bad[0]['obligation']
        return take(d)

    def grids(self, *default):
        """Literal grids: the one on which a difference was seen, else the defaults."""
        w = self.given
        if w:
            n = len(default[0]) if isinstance(default[0], tuple) else 1
            try:
                g = tuple(w[k] for k in ('nx', 'ny')[:n])
                return [g if n > 1 else g[0]]
            except KeyError:
                pass
        return list(default)

    def saw(self, r):
        if self.witness is None and isinstance(r, tuple) and r[0].ints:
            self.witness = {k: int(v[r[1]]) for k, v in r[0].ints.items()}

    def note(self, s):
        self.notes = getattr(self, 'notes', [])
        self.notes.append(s)

    def eq(self, name, got, want, evs, where='', what=''):
        """got and want denote the same real-valued function."""
        try:
            r = equal(got, want, evs)
        except (Undecided, RecursionError) as e:
            return self.undecided(name, e)
        if r is not None and not self.confirmed(equal, got, want, evs):
            self.real = getattr(self, 'real', 0) + 1
            return self.ok(name, '(in the reals)')
        if r is None:
            self.ok(name)
            return True
        self.saw(r)
        self.fail(name, where, what or 'the value computed differs from the value the property requires')
        return False

    def beq(self, name, got, want, evs, where='', what=''):
        try:
            r = bequal(got, want, evs)
        except Undecided as e:
            return self.undecided(name, e)
        if r is not None and not self.confirmed(bequal, got, want, evs):
            self.real = getattr(self, 'real', 0) + 1
            return self.ok(name, '(in the reals)')
        if r is None:
            self.ok(name)
            return True
        self.saw(r)
        self.fail(name, where, what or 'the condition differs from the one the property requires')
        return False

    def confirmed(self, f, got, want, evs):
        """Does a difference persist when comparisons follow the real order?"""
        if not order.has_order([x for x in (got, want) if not isinstance(x, (bool, int, float))]):
            return True
        key = tuple(map(id, evs))
        if key not in self._e2:
            self._e2[key] = (evs, order.ev2s(evs))
        try:
            return f(got, want, self._e2[key][1]) is not None
        except Undecided:
            return True

    def same(self, a, b, evs):
        """Equality as a plain truth value (both interpretations)."""
        if equal(a, b, evs) is None:
            return True
        return not self.confirmed(equal, a, b, evs)

    def feq(self, name, got, want, evs, where='', what='', tol=1e-6, scale=None, when=None):
        """Equality under the interpretation in the reals (for graphs with
        transcendental functions): evs are order.Ev2; lanes where `when` fails or
        either side is not finite on both sides are left out."""
        import numpy as np
        n = bad = 0
        for e in evs:
            try:
                a, b = e.f(got), e.f(want)
                m = np.ones(e.L, bool) if when is None else e.b(when)
                s = np.abs(a) + np.abs(b) + (0 if scale is None else np.abs(e.f(scale)))
            except (Undecided, KeyError) as x:
                return self.undecided(name, x)
            a, b, s = (np.broadcast_to(z, (e.L,)) for z in (a, b, s))
            with np.errstate(all='ignore'):
                fin = m & np.isfinite(b)
                d = ~(np.abs(a - b) <= tol * s + 1e-300)
            n += int(fin.sum())
            bad += int((fin & d).sum())
        if n < 8:
            return self.undecided(name, 'only %d interpretations reach this case' % n)
        if bad > max(2, n // 50):
            self.fail(name, where, what or 'the value computed differs from the value the property requires')
            return False
        self.ok(name)
        return True

    def eqs(self, name, got, want, evs, where='', what=''):
        """Element-wise equality, one obligation per element."""
        if len(got) != len(want):
            return self.fail(name, where, 'has %d components, %d required' % (len(got), len(want)))
        for i, (a, b) in enumerate(zip(got, want)):
            self.eq('%s[%d]' % (name, i), a, b, evs, where, what)

    def true(self, name, cond, where='', msg=''):
        if cond:
            self.ok(name)
        else:
            self.fail(name, where, msg)
        return bool(cond)

    # ---- end of run
    def finish(self):
        self.note_calls()
        kf = []
        p = os.path.join(ROOT, 'known_findings.json')
        if os.path.exists(p):
            kf = [k for k in json.load(open(p))['findings'] if k['property'] == self.pid and k.get('status', 'known') == 'known']
        new, known = [], []
        for b in self.bad:
            m = [k for k in kf if any(match(o, b['obligation']) for o in k['obligations'])]
            (known if m else new).append((b, m[0] if m else None))
        seen = []
        for b, k in known:
            if k['id'] not in seen:
                seen.append(k['id'])
                print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k['id'], k['what']))
        for k in kf:
            if k['id'] not in seen:
                print('note: known finding %s of %s is not reported any more' % (k['id'], self.pid))
        decided = len(self.okl) + len(self.bad)
        total = decided + len(self.und)
        cov = {
            'obligations': total,
            'discharged': len(self.okl),
            'violated': len(self.bad),
            'known_findings': len(known),
            'undecided': len(self.und),
            'undecided_list': self.und[:40],
            'functions_analysed': len(self.functions),
            'functions': sorted(self.functions)[:120],
            'translation_units': len(self.units),
            'configurations': self.configs,
            'rule': self.rule,
            'samples': self.samples,
            'explanation': '%s -- %d obligations from the current source, %d discharged, %d violated (%d of them known findings), %d undecided; '
                           '%d functions of %d translation units were analysed under %d configuration(s)' % (
                               self.rule, total, len(self.okl), len(self.bad), len(known), len(self.und),
                               len(self.functions), len(self.units), len(self.configs)),
        }
        if getattr(self, 'real', 0):
            self.note('%d obligations were decided in the real interpretation only (comparisons or transcendental functions arranged differently)' % self.real)
        if getattr(self, 'notes', None):
            cov['notes'] = self.notes[:40]
        if self.errs:
            cov['errors'] = self.errs
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2),
              'violations': [b for b, _ in new]}
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w'), indent=1, ensure_ascii=False)
        print('%s: %d obligations, %d discharged, %d violated (%d known), %d undecided, %d functions, %.1fs' % (
            self.pid, total, len(self.okl), len(self.bad), len(known), len(self.und), len(self.functions), time.time() - self.t0))
        for u in self.und[:10]:
            print('  undecided: %s: %s' % (u['obligation'], u['why']))
        for e in self.errs:
            print('  error: ' + e)
        if new:
            rp = os.path.join(ROOT, 'evidence', self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for b, _ in new:
                    f.write('%s\n  at %s\n  %s\n  rule: %s\n' % (b['obligation'], b['where'], b['message'], self.rule))
            for b, _ in new[:20]:
                print('  %s: %s: %s' % (b['where'], b['obligation'], b['message']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if not decided:
            print('  nothing could be decided: no violation is claimed, and none is excluded')
        return 0


def match(pat, s):
    if pat.endswith('*'):
        return s.startswith(pat[:-1])
    return pat == s


def floc(prog, q, nparams=None, pred=None):
    try:
        F = prog.one(q, nparams, pred)
    except FrontError:
        return q
    return '%s:%d %s' % (relp(F.file), F.line, F.q)
