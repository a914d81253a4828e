#!/usr/bin/env python3
"""writes DESIGN.md: the hand-written parts below plus, per property, its rules and the planted bugs its check catches"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import common
for m in sorted(glob.glob(V + '/engine/rules/r_*.py')):
    importlib.import_module('rules.' + os.path.basename(m)[:-3])
exec(open(V + '/tool/manifest.py').read().split('ids =')[0])
src = open(V + '/tool/design_src.md').read()
notes = {}
head, _, rest = src.partition('<!-- NOTES -->')
rest, _, tail = rest.partition('<!-- END NOTES -->')
cur = None
for l in rest.splitlines():
    if l.startswith('@'):
        cur = l[1:].strip(); notes[cur] = []
    elif cur:
        notes[cur].append(l)
seeds = {}
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(p)); seeds.setdefault(d['property'], []).append((p.split('/')[-2], d))
caught = {}
cp = V + '/tool/seed_results.json'
if os.path.exists(cp):
    caught = json.load(open(cp))
known = [json.loads(l) for l in open(V + '/known_findings.jsonl') if l.strip()]
o = [head]
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); i = d['id']
    o.append('### %s %s\n' % (i, d['title']))
    if i in common.RULES:
        o.append('Technique: %s.\n' % TECH[i])
        for n, t, f in common.RULES[i]:
            o.append('- **%s**: %s.' % (n, ' '.join(t.split())))
        o.append('')
    else:
        o.append('Not applicable: %s.\n' % NA.get(i, 'see below'))
    if i in notes:
        o.append('\n'.join(notes[i]).strip() + '\n')
    k = [x for x in known if x['property'] == i]
    for x in k:
        o.append('- %s: %s' % ('Known finding' if x['status'] == 'known' else 'Fixed (%s)' % x.get('commit', ''), x['what']))
    if k: o.append('')
    for n, s in seeds.get(i, []):
        r = caught.get(n)
        o.append('- Planted `%s`: %s Needs: %s %s' % (n, s['what_it_breaks'].rstrip('.') + '.', s['needs'].rstrip('.') + '.',
                 '' if r is None else ('Caught by: %s.' % ', '.join(r) if r else '**Not caught.**')))
    if i in seeds: o.append('')
o.append(tail)
open(V + '/DESIGN.md', 'w').write('\n'.join(o).replace('\n\n\n', '\n\n'))
