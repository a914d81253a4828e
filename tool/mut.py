#!/usr/bin/env python3
"""Development aid: run checks against edited copies of the sources (static only), in parallel.
usage: mut.py FILE.py [name-substring] ; FILE.py defines MUTS = [(name, [checks], expect, [(path, old, new), ...])]
expect: 1 = every listed check must report, 0 = must stay quiet.  -x: run the quiet ones against every claimed check; -j N"""
import glob, json, os, runpy, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
cross = '-x' in args
if cross: args.remove('-x')
J = 4
if '-j' in args:
    i = args.index('-j'); J = int(args[i + 1]); del args[i:i + 2]
files = sorted(glob.glob(V + '/tool/muts/*.py')) if args[0] == 'all' else [args[0]]
sub = args[1] if len(args) > 1 else ''
ids = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
if os.environ.get('MUT_IDS'): ids = os.environ['MUT_IDS'].split()
work = []
for p in files:
    for name, checks, expect, edits in runpy.run_path(p)['MUTS']:
        if sub in name and not (cross and expect):
            work.append((os.path.basename(p)[:-3] + '/' + name, ids if cross or checks == ['ALL'] else checks, expect, edits))
slots, lock = list(range(J)), threading.Lock()
def one(w):
    name, checks, expect, edits = w
    with lock: k = slots.pop()
    D = '/tmp/mut' + str(os.getpid()) + '/%d/repo' % k
    try:
        for d in ('src', 'include'):
            shutil.rmtree(os.path.join(D, d), ignore_errors=True)
            shutil.copytree(os.path.join('/repo', d), os.path.join(D, d))
        for path, old, new in edits:
            p = os.path.join(D, path); s = open(p).read()
            if old not in s:
                return ['BAD %s: text not found in %s: %r' % (name, path, old[:60])]
            open(p, 'w').write(s.replace(old, new))
        r = subprocess.run([sys.executable, V + '/tool/checkmany.py', 'quick'] + list(checks), capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=D, VERIF_CACHE='32'))
        out = []
        got = {l.split(' ')[0]: l for l in r.stdout.splitlines()}
        for c in checks:
            l = got.get(c, c + ' 9 ' + r.stderr[-400:])
            out.append('%s %s %s' % ('ok  ' if l.split(' ')[1] == str(expect) else 'BAD ', name, l[:260]))
        return out
    finally:
        with lock: slots.append(k)
bad = n = 0
with ThreadPoolExecutor(J) as ex:
    for o in ex.map(one, work):
        for l in o:
            n += 1; bad += l.startswith('BAD'); print(l, flush=True)
shutil.rmtree('/tmp/mut' + str(os.getpid()), ignore_errors=True)
print(n, 'runs, bad:', bad)
