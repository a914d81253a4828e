#!/usr/bin/env python3
"""Development aid: several checks in one process (shared interpretation). usage: checkmany.py TIER ID... ; prints 'ID rc details'"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import common, facts
for m in sorted(glob.glob(V + '/engine/rules/r_*.py')):
    importlib.import_module('rules.' + os.path.basename(m)[:-3])
known = {}
for l in open(V + '/known_findings.jsonl'):
    d = json.loads(l)
    if d['status'] == 'known': known.setdefault(d['property'], set()).add(d['key'])
C = common.Ctx(sys.argv[1])
for pid in sys.argv[2:]:
    R = common.Report(pid)
    err = []
    for name, text, f in common.RULES[pid]:
        R.cur = name
        R.obligations.setdefault(name, [0, 0])
        try:
            f(C, R)
        except Exception as e:
            err.append('%s: %r' % (name, e))
    new = [v for v in R.violations if v['key'] not in known.get(pid, ())]
    n = sum(a for a, b in R.obligations.values())
    rc = 1 if new else (2 if n == 0 else 0)
    print(pid, rc, ' | '.join('%s:%s %s [%s]' % (v['file'], v['line'], v['detail'], v['rule']) for v in new)[:500],
          'und=%d' % len(R.undecided), ' '.join(R.undecided)[:150], 'ERR ' + ' '.join(err)[:300] if err else '', flush=True)
