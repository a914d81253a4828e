#!/usr/bin/env python3
"""Development aid: which checks report each planted bug; writes tool/seed_results.json"""
import glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
sub = sys.argv[1] if len(sys.argv) > 1 else ''
def one(d):
    n = os.path.basename(d); W = '/tmp/caught/' + n
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    for x in ('src', 'include'): shutil.copytree('/repo/' + x, W + '/' + x)
    r = subprocess.run(['patch', '-p1', '-s', '-i', d + '/patch.diff'], cwd=W, capture_output=True, text=True)
    if r.returncode: return n, ['PATCH ' + r.stdout]
    r = subprocess.run([sys.executable, V + '/tool/checkmany.py', 'quick'] + ids, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W, VERIF_CACHE='32'))
    shutil.rmtree(W)
    if r.returncode: return n, ['ERR ' + r.stderr[-300:]]
    return n, [l.split()[0] for l in r.stdout.splitlines() if l.split()[1] == '1']
p = V + '/tool/seed_results.json'
res = json.load(open(p)) if os.path.exists(p) else {}
with ThreadPoolExecutor(4) as ex:
    for n, l in ex.map(one, [d for d in sorted(glob.glob(V + '/seeded/*')) if sub in d]):
        own = json.load(open(V + '/seeded/%s/meta.json' % n))['property']
        print('%s %s %s' % ('ok  ' if own in l else 'MISS', n, l), flush=True); res[n] = l
json.dump(res, open(p, 'w'), indent=1, sort_keys=True)
