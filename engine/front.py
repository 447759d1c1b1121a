"""Builds the clang front end, exports every translation unit of the extension
module, and links the result into one Program."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPP = os.path.join(REPO, 'code/cpp')
BUILD = os.path.join(ROOT, 'build')
LLVM = '/usr/lib/llvm-18'


class FrontError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for x in parts:
        h.update(x if isinstance(x, bytes) else x.encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def build_tool():
    src = os.path.join(ROOT, 'tool/astexport.cpp')
    key = _sha(open(src, 'rb').read())
    out = os.path.join(BUILD, 'astexport-' + key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    cxx = LLVM + '/bin/clang++'
    if not os.path.exists(cxx):
        cxx = 'g++'
    cmd = [cxx, '-O0', '-std=c++17', '-fno-rtti', '-I' + LLVM + '/include', src, '-o', tmp,
           '-L/usr/lib/x86_64-linux-gnu', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise FrontError('cannot build the front end:\n' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def sources():
    """Translation units of the extension module, from its build description."""
    txt = open(os.path.join(CPP, 'CMakeLists.txt'), encoding='utf8').read()
    m = re.search(r'SET\(SRCS(.*?)\)', txt, re.S)
    if not m:
        raise FrontError('SRCS not found in code/cpp/CMakeLists.txt')
    out = [os.path.join(CPP, x) for x in m.group(1).split() if x.endswith('.cpp')]
    if len(out) < 20:
        raise FrontError('implausible source list')
    return out


def tree_keys(opts, srcs):
    """One key per translation unit: its own text plus every header."""
    com = [json.dumps(opts, sort_keys=True), CPP]
    cpps = set(map(os.path.normpath, srcs))
    for base in ('src', 'bindings', 'include/skfmm'):
        for f in sorted(glob.glob(os.path.join(CPP, base, '**/*'), recursive=True)):
            if f.endswith(('.cpp', '.h', '.hpp', '.hxx', '.inl', '.cc')) and os.path.normpath(f) not in cpps:
                com.append(f)
                com.append(open(f, 'rb').read())
    com.append(open(os.path.abspath(__file__), 'rb').read())
    for f in sorted(glob.glob(os.path.join(ROOT, 'tool/**/*'), recursive=True)):
        if os.path.isfile(f):
            com.append(open(f, 'rb').read())
    h = _sha(*com)
    # a unit that includes another .cpp depends on all of them
    txt = {s: open(s, 'rb').read() for s in srcs}
    every = _sha(h, *[txt[s] for s in srcs])
    return {s: _sha(every if re.search(rb'#\s*include\s*["<][^">]*\.(cpp|cc)[">]', txt[s]) else h, s, txt[s]) for s in srcs}


def overlay(opts, d):
    """A scratch copy of the sources with other configuration constants."""
    w = os.path.join(d, 'cpp')
    os.makedirs(w)
    for x in ('src', 'bindings'):
        shutil.copytree(os.path.join(CPP, x), os.path.join(w, x))
    p = os.path.join(w, 'src/options.h')
    txt = open(p, encoding='utf8').read()
    for k, v in opts.items():
        txt, n = re.subn(r'(const\s+\w+\s+%s\s*=\s*)([^;]+);' % k, r'\g<1>%s;' % v, txt)
        if n != 1:
            raise FrontError('option %s not found in options.h' % k)
    open(p, 'w', encoding='utf8').write(txt)
    return w


def export(opts=None, only=None):
    """-> list of (source file, parsed json)."""
    opts = opts or {}
    tool = build_tool()
    srcs = sources()
    if only:
        srcs = [s for s in srcs if any(s.endswith(o) for o in only)]
        if not srcs:
            raise FrontError('no source matches %r' % (only,))
    keys = tree_keys(opts, srcs)
    done = {}
    for x in srcs:
        f = os.path.join(BUILD, 'tu-' + keys[x] + '.json')
        if os.path.exists(f):
            try:
                done[x] = json.load(open(f))
                os.utime(f)
            except (ValueError, OSError):
                pass
    todo = [x for x in srcs if x not in done]
    if not todo:
        return [[x, done[x]] for x in srcs]
    with tempfile.TemporaryDirectory() as d:
        W = overlay(opts, d) if opts else CPP
        roots = ':'.join([W + '/src', CPP + '/include/skfmm', W + '/bindings'])
        base = ['-resource-dir', LLVM + '/lib/clang/18', '-I' + ROOT + '/tool/stubs',
                '-I' + CPP + '/include', '-std=gnu++17', '-fopenmp', '-march=x86-64-v2',
                '-fno-spell-checking', '-w']

        def one(i):
            out = os.path.join(d, '%d.json' % i)
            name = src = todo[i]
            if opts and (src.startswith(CPP + '/src/') or src.startswith(CPP + '/bindings/')):
                src = W + src[len(CPP):]
            r = subprocess.run([tool, out, roots, src, '--'] + base, capture_output=True, text=True)
            if r.returncode or not os.path.exists(out) or 'error:' in r.stderr:
                raise FrontError('front end failed on %s:\n%s' % (name, r.stderr[-1500:]))
            txt = open(out).read()
            j = json.loads(txt.replace(W + '/', CPP + '/') if opts else txt)
            f = os.path.join(BUILD, 'tu-' + keys[name] + '.json')
            tmp = '%s.%d' % (f, os.getpid())
            json.dump(j, open(tmp, 'w'))
            os.replace(tmp, f)
            done[name] = j
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, range(len(todo))))
    # keep the cache small
    old = sorted(glob.glob(os.path.join(BUILD, 'tu-*.json')), key=lambda f: os.path.getmtime(f) if os.path.exists(f) else 0)
    for f in old[:-1200]:
        try:
            os.unlink(f)
        except OSError:
            pass
    return [[x, done[x]] for x in srcs]


class Func:
    __slots__ = ('tu', 'd', 'n', 'q', 'sig', 'file', 'line', 'params', 'body', 'ret', 'tt', 'vars')

    def __init__(self, tu, d, tt):
        self.tu, self.d, self.tt = tu, d, tt
        self.n, self.q, self.sig = d['n'], d['q'], d['sig']
        self.file, self.line = d['file'], d['l']
        self.params, self.body, self.ret = d['params'], d.get('body'), d.get('ret')

    def __repr__(self):
        return '%s (%s:%s)' % (self.q, relp(self.file), self.line)


def relp(f):
    f = os.path.normpath(f)
    b = os.path.normpath(REPO) + '/'
    return f[len(b):] if f.startswith(b) else f


class Program:
    def __init__(self, opts=None, only=None):
        self.units = export(opts, only)
        self.bysig = {}
        self.byq = {}
        self.globals = {}
        self.records = {}
        self.opts = opts or {}
        self.all = []
        for src, j in self.units:
            tt = j['types']
            for f in j['funcs']:
                F = Func(src, f, tt)
                if F.q.startswith(('std::', 'Eigen::')):
                    continue
                self.all.append(F)
                self.bysig.setdefault(F.sig, []).append(F)
                self.byq.setdefault(F.q, []).append(F)
            for g in j['globals']:
                g['tu'] = src
                g['tt'] = tt
                key = self.gkey(src, g['g'], g['internal'])
                old = self.globals.get(key)
                if old is None or (g.get('def') and not old.get('def')) or ('i' in g and 'i' not in old):
                    self.globals[key] = g
            for r in j['records']:
                r['tt'] = tt
                self.records.setdefault(r['n'], r)

    @staticmethod
    def gkey(tu, g, internal):
        return (tu, g) if internal else g

    def find(self, q, nparams=None, pred=None):
        """The definition(s) of qualified name q, distinct by signature."""
        seen = {}
        for F in self.byq.get(q, []):
            if nparams is not None and len(F.params) != nparams:
                continue
            if pred and not pred(F):
                continue
            seen.setdefault((F.sig, os.path.normpath(F.file), F.line), F)
        return list(seen.values())

    def one(self, q, nparams=None, pred=None):
        r = self.find(q, nparams, pred)
        if not r:
            raise FrontError('anchor vanished: no definition of %s' % q)
        return r[0]
