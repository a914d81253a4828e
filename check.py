#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import importlib, glob, traceback
import facts


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    rp = os.path.join(ev, 'replay')
    os.makedirs(rp, exist_ok=True)
    try:
        import common
        for m in sorted(glob.glob(os.path.join(HERE, 'engine', 'rules', 'r_*.py'))):
            importlib.import_module('rules.' + os.path.basename(m)[:-3])
        rules = common.RULES.get(pid)
        if not rules:
            raise facts.AnalysisBroken('no rule for ' + pid)
        C = common.Ctx(tier)
        R = common.Report(pid)
        info, broken, crashed = [], [], []
        for name, text, f in rules:
            R.cur = name
            R.obligations.setdefault(name, [0, 0])
            try:
                f(C, R)
            except facts.AnalysisBroken as e:
                broken.append('%s: %s' % (name, e))
                R.unsure('not decided: %s' % e)
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'):
                    raise
                R.unsure('internal error %r: %s' % (e, traceback.format_exc(limit=-2)))
                crashed.append(name)
            n, u = R.obligations[name]
            info.append(dict(rule=name, text=text, obligations=n, undecided=u))
            if n + u == 0 and not broken:
                broken.append('rule %s of %s has no instance in this tree' % (name, pid))
                R.unsure('the rule has no instance in this tree')
        if os.environ.get('VERIF_DEBUG') and broken:
            print('broken: ' + '; '.join(broken))
        # a rule that lost its subject is reported as undecided in the evidence; a property none of whose rules decided
        # anything has no answer
        if not R.violations and sum(a for a, b in R.obligations.values()) == 0:
            raise facts.AnalysisBroken('; '.join(broken + crashed))
    except facts.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        sys.exit(2)
    known = []
    kf = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get('property') == pid and k.get('status') == 'known':
                    known.append(k)
    new, old = [], []
    for v in R.violations:
        m = [k for k in known if k['key'] == v['key']]
        (old if m else new).append((v, m[0] if m else None))
    seen = set()
    for v, k in old:
        if k['key'] not in seen:
            seen.add(k['key'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for i, (v, _) in enumerate(new):
        p = os.path.join(rp, '%s-%d.json' % (pid, i))
        json.dump(dict(property=pid, **v), open(p, 'w'), indent=1)
        print('%s:%s: in %s: %s [%s]' % (v['file'], v['line'], v['function'], v['detail'], v['rule']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    tot = sum(r['obligations'] for r in info)
    und = sum(r['undecided'] for r in info)
    cov = dict(explanation='static analysis of the resolved program: every rule instance below was decided from the '
                           'extracted control flow graphs and value numbers of the current sources; nothing was run',
               units=len(C.F.units), functions=len(C.F.functions), entry_points=len(C.entries), obligations=tot,
               undecided=und, rules=info, samples=R.samples[:12], undecided_list=R.undecided[:40],
               known_findings=len(old))
    out = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
               assumptions=['the parse of the sources by clang 18 with the build flags of the repository',
                            'the models of std and Eigen operations in engine/interp.py'],
               wall_s=round(time.time() - t0, 3), violations=len(new))
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(out, f, indent=1)
    print('%s %s: %d obligations, %d undecided, %d violations, %d known findings, %.1fs' % (
        pid, tier, tot, und, len(new), len(old), time.time() - t0))
    sys.exit(1 if new else 0)


main()
