"""Runs the extractor over /repo's current tree and loads the merged facts."""
import hashlib, json, os, pickle, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(VERIF, 'tool')
ENV = dict(os.environ, PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (neither held nor violated)."""


def _sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build_extractor():
    src = os.path.join(TOOL, 'extract.cpp')
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'extract-' + _sha([src]))
    if os.path.exists(out):
        return out
    def cfg(*a):
        return subprocess.check_output(['llvm-config-18'] + list(a), env=ENV, text=True).split()
    cxx = [f for f in cfg('--cxxflags') if not f.startswith('-std=') and f != '-fno-exceptions']
    lib = cfg('--libdir')[0]
    tmp = out + '.tmp%d' % os.getpid()
    cmd = ['/usr/bin/clang++-18', '-O1', '-std=c++17', '-fno-rtti', '-w', src, '-o', tmp] + cxx + \
          [os.path.join(lib, 'libclang-cpp.so.18.1'), '-Wl,-rpath,' + lib] + cfg('--ldflags', '--libs')
    r = subprocess.run(cmd, env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('cannot build the extractor:\n' + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def sources():
    s = []
    for pat in ('src/**/*.cpp', 'src/**/*.cc', 'src/**/*.cxx'):
        s += glob.glob(os.path.join(REPO, pat), recursive=True)
    return sorted(set(s))


def headers():
    h = []
    for d in ('include', 'src'):
        for ext in ('hpp', 'h', 'hh', 'ipp', 'tpp', 'inl'):
            h += glob.glob(os.path.join(REPO, d, '**/*.' + ext), recursive=True)
    return sorted(set(h))


def eigen_dir():
    for d in ('/usr/include/eigen3', '/usr/local/include/eigen3'):
        if os.path.isdir(d):
            return d
    raise AnalysisBroken('eigen headers not found')


def flags():
    return ['-I' + os.path.join(REPO, 'include'), '-I' + eigen_dir(), '-include', 'string', '-include',
            'functional', '-DEIGEN_MAX_CPP_VER=3', '-DNDEBUG', '-std=gnu++11', '-w',
            '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def run_extractor(exe, src, out):
    roots = ':'.join([os.path.join(REPO, 'src'), os.path.join(REPO, 'include')])
    r = subprocess.run([exe, out, roots, src, '--'] + flags(), env=ENV, capture_output=True, text=True)
    return r


class Facts:
    def __init__(self):
        self.functions = {}   # key -> fn dict
        self.records = {}     # name -> rec
        self.globals = {}
        self.inst = []
        self.units = []
        self.witness_error = None
        self.apps = {}        # unit with a main -> {'functions', 'globals'} of its own

    def app(self, unit):
        """the program of one application: its own definitions shadow same-named ones of the other applications"""
        G = Facts()
        G.functions = dict(self.functions)
        G.records = self.records
        G.globals = dict(self.globals)
        a = self.apps[unit]
        G.functions.update(a['functions'])
        G.globals.update(a['globals'])
        G.units, G.inst = self.units, self.inst
        return G

    def by_qname(self, q):
        return [f for f in self.functions.values() if f['qname'] == q]


def _merge(F, data, unit):
    types = data['types']
    T = lambda i: types[i] if isinstance(i, int) and 0 <= i < len(types) else None
    app = None
    if any(fn['key'] == 'main(int,char**)' or fn['qname'] == 'main' for fn in data['functions']):
        app = F.apps.setdefault(unit, {'functions': {}, 'globals': {}})
    for fn in data['functions']:
        k = fn['key']
        own = app is not None and os.path.abspath(fn['file']) == os.path.abspath(unit)
        if k in F.functions and not own:
            continue
        fn['ret'] = T(fn['ret'])
        fn['unit'] = unit
        for p in fn['params']:
            p['t'] = T(p['t'])
        nodes = {}
        for i, n in fn['nodes'].items():
            for f in ('t', 'mt', 'gt', 'rt', 'nt_', 'st', 'ct'):
                if f in n:
                    n[f] = T(n[f])
            if 'vars' in n:
                for v in n['vars']:
                    v['t'] = T(v['t'])
            nodes[int(i)] = n
        fn['nodes'] = nodes
        for b in fn['blocks']:
            for e in b['els']:
                if isinstance(e, dict) and 't' in e:
                    e['t'] = T(e['t'])
        if own:
            app['functions'][k] = fn
        F.functions.setdefault(k, fn)
    for r in data['records']:
        for f in r['fields']:
            f['t'] = T(f['t'])
        F.records.setdefault(r['name'], r)
    for g in data['globals']:
        g['t'] = T(g['t'])
        if app is not None:
            app['globals'][g['name']] = g
        F.globals.setdefault(g['name'], g)
    for i in data['inst']:
        i['unit'] = unit
        F.inst.append(i)


def load(verbose=False):
    exe = build_extractor()
    srcs = sources()
    if not srcs:
        raise AnalysisBroken('no sources under %s/src' % REPO)
    wit = os.path.join(TOOL, 'witness.cpp')
    common = _sha(headers() + [os.path.join(TOOL, 'extract.cpp'), os.path.abspath(__file__)]) + REPO
    todo = srcs + [wit]
    key = hashlib.sha256((common + _sha(todo)).encode()).hexdigest()[:24]
    cache = os.path.join(BUILD, 'facts-%s.pickle' % key)
    if os.path.exists(cache):
        try:
            with open(cache, 'rb') as f:
                F = pickle.load(f)
            os.utime(cache)
            return F
        except Exception:
            pass
    udir = os.path.join(BUILD, 'units')
    os.makedirs(udir, exist_ok=True)
    tmp = os.path.join(BUILD, 'tmp%d' % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    F = Facts()
    try:
        def one(i_s):
            i, s = i_s
            uk = os.path.join(udir, hashlib.sha256((common + _sha([s])).encode()).hexdigest()[:24] + '.json')
            if os.path.exists(uk):
                try:
                    os.utime(uk)
                    with open(uk) as fh:
                        return s, json.load(fh), None
                except (OSError, ValueError):
                    pass
            out = os.path.join(tmp, '%d.json' % i)
            r = run_extractor(exe, s, out)
            return s, (out, uk), r
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate(todo)))
        for s, out, r in res:
            if r is None:
                data = out
            else:
                out, uk = out
                if not os.path.exists(out):
                    if s == wit:
                        F.witness_error = r.stderr[-2000:]
                        continue
                    raise AnalysisBroken('extractor produced nothing for %s:\n%s' % (s, r.stderr[-2000:]))
                data = json.load(open(out))
                if data['errors']:
                    if s == wit:
                        F.witness_error = r.stderr[-2000:]
                        continue
                    raise AnalysisBroken('%s does not parse:\n%s' % (s, r.stderr[-3000:]))
                os.replace(out, uk)
            _merge(F, data, s)
            F.units.append(s)
    finally:
        for f in glob.glob(os.path.join(tmp, '*')):
            os.unlink(f)
        os.rmdir(tmp)
    ptmp = cache + '.tmp%d' % os.getpid()
    with open(ptmp, 'wb') as f:
        pickle.dump(F, f, protocol=4)
    os.replace(ptmp, cache)
    # keep the cache directory small
    for pat, n in (('facts-*.pickle', int(os.environ.get('VERIF_CACHE', '8'))), ('units/*.json', 20 * int(os.environ.get('VERIF_CACHE', '8')))):
        def age(p):
            try:
                return os.path.getmtime(p)
            except OSError:
                return 0
        old = sorted(glob.glob(os.path.join(BUILD, pat)), key=age)
        for p in old[:-n]:
            try:
                os.unlink(p)
            except OSError:
                pass
    return F


if __name__ == '__main__':
    F = load(True)
    print(len(F.units), 'units', len(F.functions), 'functions', len(F.records), 'records',
          sum(len(f['nodes']) for f in F.functions.values()), 'nodes')
