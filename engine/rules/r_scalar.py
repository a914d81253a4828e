"""C23: both precisions are available, and the double precision one stays in double precision"""
from common import *
from rules.r_corpus import all_functions
from rules.r_casts import fsc


def public(i):
    return '/include/ldaplusplus/' in i['file']


def compiled(p):
    return p.endswith(('.cpp', '.cc', '.cxx'))


@rule('C23', 'classes', 'every class template of the public headers with members defined in a source file is explicitly instantiated there for float and double')
def r_classes(C, R):
    seen = {}
    for i in C.F.inst:
        if i['kind'] == 'ctemplate' and public(i):
            e = seen.setdefault(i['name'], {'line': i['line'], 'file': i['file'], 'units': {}, 'decl': [m['name'] for m in i['methods']]})
            e['units'][i['unit']] = i['methods']
    for name, e in sorted(seen.items()):
        need = set()                     # indices of members not defined in a header
        for u, ms in e['units'].items():
            for k, m in enumerate(ms):
                if not m['body'] or compiled(m['bodyfile']):
                    need.add(k)
        if not need:
            continue
        for sc in ('float', 'double'):
            us = [i for i in C.F.inst if i['kind'] == 'class' and i['name'] == name and (i['targs'] or [''])[0] == sc]
            have = set()
            for i in us:
                ms = e['units'].get(i['unit'], ())
                have |= {k for k, m in enumerate(ms) if m['body']}
            miss = sorted(need - have)
            if miss:
                m = e['decl'][miss[0]].split('<')[0]
                R.violation(name + '::' + m, 'has no instantiation for %s that a program could link with' % sc, e['file'], e['line'], key='class|' + sc)
            else:
                R.ok('%s<%s>: %d members' % (name.replace(NS, ''), sc, len(need)), len(need))


@rule('C23', 'functions', 'every overload of a public function template defined in a source file is explicitly instantiated for float and double')
def r_functions(C, R):
    want = {}
    for i in C.F.inst:
        if i['kind'] == 'ftemplate' and public(i) and not i['member']:
            want.setdefault((i['name'], i['nparams']), {}).setdefault(i['line'], []).append(i)
    for (name, np), decls in sorted(want.items()):
        out = {l: ds for l, ds in decls.items() if any(d['hasbody'] and compiled(d['bodyfile']) for d in ds) or not any(d['hasbody'] for d in ds)}
        if not out:
            continue
        for sc in ('float', 'double'):
            sig = {tuple(i['ptypes']) for i in C.F.inst if i['kind'] == 'function' and i['name'] == name and len(i['ptypes']) == np and sc in i['targs']}
            # members of a templated result type count by their own scalar
            if len(sig) < len(out):
                l = sorted(out)[0]
                R.violation(name, '%s %d parameters has no instantiation for %s that a program could link with' % (
                    'the overload with' if len(out) == 1 else 'an overload with', np, sc), out[l][0]['file'], l, key='function|%d|%s' % (np, sc))
            else:
                R.ok('%s(%d)<%s>' % (name.replace(NS, ''), np, sc), len(out))


SMALL = ('float', 'Eigen::half', 'half', '_Float16')
INTS = ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'char', 'unsigned char', 'unsigned short', 'long long', 'unsigned long long', 'bool')


def clean(t):
    return (t or '').replace('const ', '').rstrip('& ').strip()


def version(f):
    """'double' for the double precision version and for the applications, which train in double precision"""
    k = f['key']
    if 'float' in k.split('(')[0]:
        return 'float'
    s = fsc(f)
    if s:
        return s
    if 'float' in k:
        return 'float'
    if 'double' in k or 'applications' in f['file']:
        return 'double'
    return None


def only_index(g, t, x, top=True):
    """x occurs in t only where a position is given"""
    if t == x:
        return False
    if not isinstance(t, Term):
        return True
    if t.op in ('E', 'v', 'iter') or t.op == 'call' and isinstance(t.args[0], str) and t.args[0].split('::')[-1] in ('at', 'operator[]', 'operator()'):
        kids = [a for a in t.args[1:2] if isinstance(a, Term)]
    elif t.op == 'upd':
        kids = [a for a in (t.args[0], t.args[3]) if isinstance(a, Term)]
    else:
        kids = [a for a in t.args if isinstance(a, Term)]
    return all(only_index(g, a, x, False) for a in kids)


@rule('C23', 'narrowing', 'no value of the double precision version or of the applications is converted to single precision, or to an integer that is more than a position')
def r_narrow(C, R):
    n_ = 0
    for A, f in all_functions(C):
        if version(f) != 'double' or not f['key'].startswith(NS) and 'applications' not in f['file']:
            continue
        n_ += 1
        bad = 0
        nodes = f['nodes']
        for nid, n in nodes.items():
            if not isinstance(n, dict):
                continue
            ck = n.get('ck')
            kid = nodes.get(n['c'][0], {}) if n.get('c') else {}
            if ck == 'FloatingCast' and clean(n['t']) in SMALL and clean(kid.get('t')) in ('double', 'long double'):
                if kid.get('k') == 'FloatingLiteral':
                    continue
                bad += 1
                R.violation(f['qname'], 'a double is converted to %s' % clean(n['t']), f['file'], n.get('l') or f['line'], key='float')
            elif n.get('k') == 'CompoundAssignOperator' and len(n.get('c') or ()) == 2 and clean(nodes.get(n['c'][0], {}).get('t')) in SMALL + INTS and \
                    clean(nodes.get(n['c'][1], {}).get('t')) in ('double', 'long double') and nodes.get(n['c'][1], {}).get('k') != 'FloatingLiteral':
                bad += 1
                R.violation(f['qname'], 'a double is accumulated in a variable of type %s' % clean(nodes[n['c'][0]].get('t')), f['file'], n.get('l') or f['line'],
                            key='accumulated')
            elif ck == 'FloatingToIntegral' and clean(kid.get('t')) in ('double', 'long double'):
                g = A.run(f)
                ts = {x for o in g.ops('write', 'ret') if o.op.val is not None for x in subterms(o.op.val) if x.op == 'op' and x.args[0] == 'trunc'}
                if g.root.ret is not None:
                    ts |= {x for x in subterms(g.root.ret) if x.op == 'op' and x.args[0] == 'trunc'}
                outs = [v for k, v in dict(g.root.exit_state or {}).items() if isinstance(v, Term) and not is_int_var(f, k)]
                outs += [g.root.ret] if g.root.ret is not None else []
                seen = set()
                k = 0
                while k < len(outs):
                    for x in subterms(outs[k]):
                        if x.op == 'phi' and x not in seen and not is_int_var(f, x.args[2]):
                            seen.add(x)
                            outs += [v for v in g.I.phis.get(x, {}).values()]
                        if x.op == 'op' and x.args[0] == 'trunc':
                            ts.add(x)
                    k += 1
                if any(not only_index(g, v, x) for v in outs for x in ts):
                    bad += 1
                    R.violation(f['qname'], 'a double is rounded to %s and used as a value' % clean(n['t']), f['file'], n.get('l') or f['line'], key='integer')
            nm = n.get('n') or ''
            if nm.split('::')[-1] == 'cast' and nm.startswith('Eigen') and n.get('fa'):
                to = n['fa'][0]
                ob = clean((nodes.get(n.get('o'), {}) or {}).get('t')) if n.get('o') is not None else ''
                if to in SMALL or to in INTS and 'double' in ob:
                    bad += 1
                    R.violation(f['qname'], 'a matrix is converted to %s' % to, f['file'], n.get('l') or f['line'], key='cast')
            if nm in ('std::accumulate', 'std::inner_product', 'std::reduce') and n.get('fa') and 'double' in (n['fa'][0] or ''):
                to = n['fa'][-1] if nm != 'std::accumulate' else n['fa'][1]
                if clean(to) in SMALL + INTS:
                    bad += 1
                    R.violation(f['qname'], 'doubles are summed up in %s' % to, f['file'], n.get('l') or f['line'], key='sum')
        if not bad:
            R.ok('no conversion in %s' % f['qname'].replace(NS, ''))
    if not n_:
        R.unsure('no function of the double precision version')


def is_int_var(f, k):
    """an integer variable on its own is not a result"""
    if k.op == 'tmp':
        return k.args[1] != 'ret'
    if k.op != 'var':
        return False
    ts = {clean(n['t']) for n in f['nodes'].values() if n.get('k') == 'DeclRefExpr' and n.get('v') == k.args[1]}
    return not ts or bool(ts & set(INTS))


@rule('C23', 'same algorithm', 'the two precisions are instances of the same definitions')
def r_same(C, R):
    by = {}
    for f in C.F.functions.values():
        if f['key'].startswith(NS) and f.get('blocks') and ('<float>' in f['key'] or '<double>' in f['key']):
            by.setdefault(f['key'].replace('float', 'S').replace('double', 'S'), {})['float' if 'float' in f['key'].split('(')[0] else 'double'] = f
    for k, d in sorted(by.items()):
        if len(d) == 2:
            a, b = d['float'], d['double']
            if (a['file'], a['line']) == (b['file'], b['line']):
                R.ok('one definition of %s' % a['qname'].replace(NS, ''))
            else:
                R.unsure('%s has a definition of its own for float' % a['qname'])
