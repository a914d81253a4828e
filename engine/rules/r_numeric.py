"""C18: totals that can be zero, C19: the table based exponential."""
from common import *
from rules.r_params import poly
from rules.r_corpus import carries, leaves_of, all_functions, own, evaluate, feasible
from rules.r_io import lin_term


def callees(f):
    out = set()
    for n in f['nodes'].values():
        if n.get('f'):
            out.add(n['f'])
    return out


def roots(C):
    """functions no other function of the library calls: what they call is interpreted inside them"""
    if not hasattr(C, '_roots'):
        called = set()
        for f in C.F.functions.values():
            if own(f):
                called |= {k for k in callees(f) if k != f['key']}
        out = []
        for k, f in sorted(C.F.functions.items()):
            if not own(f) or not f.get('blocks') or 'lambda@' in k or f['qname'] == 'main':
                continue
            if k in called and not f.get('overrides'):
                continue
            out.append(f)
        C._roots = out
    return C._roots


# -- signs ----------------------------------------------------------------------

def positive(g, t, assume=(), d=0):
    """every element of t is known to be greater than zero (mathematically)"""
    if d > 12:
        return False
    P = lambda x: positive(g, x, assume, d + 1)
    if t in assume:
        return True
    if t.op == 'const':
        return isinstance(t.args[0], (int, float)) and t.args[0] > 0
    if t.op == 'filled':
        return P(t.args[0])
    if t.op == 'S':
        return 'Ones' in t.args or 'Constant' in t.args and isinstance(t.args[-1], Term) and P(t.args[-1])
    if t.op == 'E':
        n = t.args[0]
        if n in ('exp',):
            return True
        if n == 'unaryExpr':
            return any('FastExp' in str(s.args) for s in subterms(t.args[2]) if s.op in ('obj', 'new')) if len(t.args) > 2 and isinstance(t.args[2], Term) else False
        if n in ('rows', 'cols'):
            return True     # no model has an empty dimension
        if n in ('sum', 'row', 'col', 'at', 'transpose', 'array', 'matrix', 'cast', 'head', 'tail', 'segment', 'colwise', 'rowwise', 'value',
                 'maxCoeff', 'minCoeff', 'replicate', 'mean'):
            return P(t.args[1])
        return False
    if t.op == 'call':
        if t.args[0] in ('exp',):
            return True
        if str(t.args[0]).endswith('Corpus::size'):
            return True
        return False
    if t.op == 'op':
        o = t.args[0]
        if o == 'max':
            return any(P(x) for x in t.args[1:])
        if o == 'min':
            return all(P(x) for x in t.args[1:])
        if o == '+':
            return any(P(x) for x in t.args[1:]) and all(P(x) or nonneg(g, x, assume, d + 1) for x in t.args[1:])
        if o in ('*', '/', '@'):
            return all(P(x) for x in t.args[1:])
        return False
    if t.op == 'ite':
        c = t.args[0]
        a, b = t.args[1], t.args[2]
        return (P(a) or nonzero(g, a, [c])) and (P(b) or nonzero(g, b, [neg(c)]))
    if t.op == 'upd':
        old, path, how, val = t.args
        if not P(old):
            return False
        if how in ('+=',):
            return nonneg(g, val, assume, d + 1)
        return how in ('=', '*=', '/=') and P(val)
    if t.op == 'phi':
        vs = list(g.I.phis.get(t, {}).values())
        return bool(vs) and all(v == t or positive(g, v, tuple(assume) + (t,), d + 1) for v in vs)
    return False


def nonneg(g, t, assume=(), d=0):
    if positive(g, t, assume, d + 1):
        return True
    if d > 12:
        return False
    if t.op == 'const':
        return isinstance(t.args[0], (int, float)) and t.args[0] >= 0
    if t.op == 'E' and t.args[0] in ('sum', 'row', 'col', 'at', 'transpose', 'array', 'cast', 'value', 'colwise', 'rowwise'):
        return nonneg(g, t.args[1], assume, d + 1)
    if t.op == 'E' and t.args[0] in ('squaredNorm', 'norm', 'abs', 'square'):
        return True
    if t.op == 'init' and any(s.op == 'call' and str(s.args[0]).endswith('::get_words') for s in subterms(t)):
        return True
    if t.op == 'init' and t.args[0].op == 'mem' and t.args[0].args[0].op == 'param' and int_matrix(g, t.args[0].args[0]):
        return True         # word counts
    if t.op == 'op' and t.args[0] in ('+', '*', '/', '@'):
        return all(nonneg(g, x, assume, d + 1) for x in t.args[1:])
    if t.op == 'op' and t.args[0] == 'max':
        return any(nonneg(g, x, assume, d + 1) for x in t.args[1:])
    return False


def int_matrix(g, p):
    f = g.I.F.functions.get(p.args[0])
    return f is not None and any(x['name'] == p.args[1] and 'Eigen::Matrix<int,' in x['t'] for x in f['params'])


def nonzero(g, d, facts):
    """one of the facts says that d is not zero"""
    d = g.N(d)
    for f in facts:
        f = g.N(f) if isinstance(f, Term) else f
        if f == d:
            return True
        if d not in set(subterms(f)):
            continue
        if evaluate(f, d, 0) in (False, 0) and evaluate(f, d, 0) is not None:
            return True
        # a comparison of something with d on one side that zero cannot satisfy: 0 < x <= d
    return False


def totals(g, t):
    """sums among the factors of t that are not known to be positive"""
    if positive(g, t):
        return []
    if t.op == 'op' and t.args[0] in ('*', '@'):
        return [s for x in t.args[1:] for s in totals(g, x)]
    if t.op == 'E' and t.args[0] == 'at' and len(t.args) == 3 and is_counts(strip_views(g.N(t.args[1]))):
        return [t]                          # how often a word occurs
    if t.op == 'E' and t.args[0] in ('maxCoeff', 'minCoeff') and len(t.args) == 2 and weights(strip_views(g.N(t.args[1]))):
        return [t]                          # the weights of the classes start at zero
    if t.op == 'E' and t.args[0] in ('array', 'transpose', 'matrix', 'cast', 'replicate', 'value', 'rowwise', 'colwise', 'at') and len(t.args) >= 2:
        r = totals(g, t.args[1])
        if r:
            return r
    if t.op == 'E' and t.args[0] in ('sum',):
        return [t]
    if t.op == 'ite':
        return [t] if any(totals(g, x) for x in t.args[1:]) else []
    if t.op == 'op' and t.args[0] in ('max', 'min'):
        return [t] if any(totals(g, x) for x in t.args[1:]) and all(x.op == 'const' or totals(g, x) for x in t.args[1:]) else []
    if t.op == 'phi':
        vs = list(g.I.phis.get(t, {}).values())
        z = [v for v in vs if v.op == 'const' and v.args[0] == 0]
        st = [x for v in vs if v not in z for x in leaves_of(g, v) if x != t]
        if z and st and all(x.op == 'op' and x.args[0] == '+' and t in x.args[1:] for x in st):
            return [t]
        # a total that was adjusted when it is zero: merge of guarded values
        if vs and not any(carries(g, v, t) for v in vs) and len(vs) == 2:
            ts = [v for v in vs if totals(g, v)]
            if ts and len(ts) == len(vs):
                return [t]
    return []


def is_counts(t):
    return t.op == 'init' and t.args[0].op == 'mem' and t.args[0].args[0].op == 'call' and str(t.args[0].args[0].args[0]).endswith('::get_words')


def weights(t):
    return t.op == 'init' and t.args[0].op == 'f' and t.args[0].args[1] == 'eta'


def search_guard(g, i, facts, total):
    """a fact n >= 0 about an index n found by a downward search that stops at a non-zero entry of what is summed"""
    if total.op != 'E' or total.args[0] != 'sum':
        return False
    base = strip_views(total.args[1])
    for f in facts:
        for p in [s for s in subterms(f) if s.op == 'phi']:
            if feasible(g, [f], p, -1):
                continue
            for fr in g.I.frame_list:
                for l in g.loops(fr):
                    ts = l.tests()
                    if not any(t.get('phi') == p for t in ts):
                        continue
                    for t in ts:
                        e = [s for s in subterms(g.N(t['fact'])) if s.op == 'E' and s.args[0] == 'at' and s.args[2] == p and strip_views(s.args[1]) == base] \
                            if t.get('fact') is not None else []
                        if e and not feasible(g, [g.N(t['fact'])], e[0], 0):
                            return True
    return False


@rule('C18', 'totals', 'whatever is divided by a total that is zero for some legal input is only divided where the total is known not to be zero')
def r_totals(C, R):
    seen = {}
    for f in roots(C):
        if C.tier == 'quick' and ('float' in f['key'] and 'double' not in f['key']):
            continue
        g = C.run(f)
        live = None
        for n in g.ops('div'):
            o = n.op
            d = g.N(o.args[1])
            if n.frame.fn['file'].startswith('/usr'):
                continue
            ts = totals(g, d)
            if not ts:
                continue
            facts = g.facts_at(n.i)
            key = (n.frame.fn['qname'], o.line)
            for t in ts:
                if nonzero(g, t, facts) or nonzero(g, d, facts) or nonzero(g, o.args[1], facts):
                    seen.setdefault(key, []).append(('ok', n, t))
                elif search_guard(g, n.i, facts, t):
                    seen.setdefault(key, []).append(('ok', n, t))
                elif same_content(g, t, facts):
                    seen.setdefault(key, []).append(('ok', n, t))
                else:
                    seen.setdefault(key, []).append(('bad', n, t))
    for (q, line), v in sorted(seen.items(), key=str):
        bad = [x for x in v if x[0] == 'bad']
        if bad:
            n, t = bad[0][1], bad[0][2]
            R.at(n, 'divided by %s, which is zero for legal input' % show(t, 4), key='total', fn=q)
        else:
            R.ok('%s:%s: total is not zero' % (q.replace(NS, ''), line), len(v))
    if not seen:
        raise AnalysisBroken('no division by a total was found')


def strip_views(t):
    while t.op == 'E' and t.args[0] in ('array', 'cast', 'transpose', 'matrix', 'eval') and len(t.args) >= 2:
        t = t.args[1]
    return t


def same_content(g, t, facts):
    """the fact is about the sum of the same content seen through other views"""
    if t.op != 'E' or t.args[0] != 'sum':
        return False
    base = strip_views(t.args[1])
    for f in facts:
        for s in subterms(f):
            if s.op == 'E' and s.args[0] == 'sum' and strip_views(g.N(s.args[1])) == base and evaluate(f, s, 0) in (False,):
                return True
    return False


def searched_total(g, l, p, facts):
    """the total of what the search looks through is known not to be zero"""
    bases = set()
    for t in l.tests():
        if t.get('phi') == p:
            continue
        if t.get('fact') is None or not isinstance(t['fact'], Term):
            return False
        es = [s for s in subterms(g.N(t['fact'])) if s.op == 'E' and any(isinstance(x, Term) and p in set(subterms(x)) for x in s.args[1:])]
        if not es or not all(s.args[0] == 'at' and s.args[2] == p for s in es):
            return False        # something else is asked of what is found
        bases |= {strip_views(s.args[1]) for s in es}
    for f in facts:
        for s in subterms(g.N(f) if isinstance(f, Term) else f):
            if s.op == 'E' and s.args[0] == 'sum' and strip_views(g.N(s.args[1])) in bases and (f == s or evaluate(f, s, 0) in (False,)):
                return True
    return False


@rule('C18', 'found index', 'the index found by a search that can find nothing is only used where it was found')
def r_search(C, R):
    """a loop that counts down to -1 and is left early: outside of it the counter may be -1"""
    seen = {}
    for f in roots(C):
        if C.tier == 'quick' and ('float' in f['key'] and 'double' not in f['key']):
            continue
        g = C.run(f)
        cand = {}
        for fr in g.I.frame_list:
            if fr.fn['file'].startswith('/usr'):
                continue
            for l in g.loops(fr):
                for t in l.tests():
                    if t.get('phi') is not None and t.get('step') in (-1, T('const', -1)) and t.get('fact') is not None:
                        if feasible(g, [t['fact']], t['phi'], -1) and not feasible(g, [t['fact']], t['phi'], 0) and len(l.tests()) > 1:
                            cand[t['phi']] = l
        if not cand:
            continue
        for n in g.ops('view', 'index'):
            for a in n.op.args or ():
                a = g.N(a)
                if a not in cand:
                    continue
                l = cand[a]
                inside = any(x is l or x.head == l.head and x.fr is l.fr for x in g.enclosing_loops(n.i))
                key = (n.frame.fn['qname'], n.op.line)
                if inside:
                    seen.setdefault(key, []).append(('ok', n))
                elif not feasible(g, g.facts_at(n.i), a, -1) or searched_total(g, l, a, g.facts_at(n.i)):
                    seen.setdefault(key, []).append(('ok', n))
                else:
                    seen.setdefault(key, []).append(('bad', n))
    for (q, line), v in sorted(seen.items(), key=str):
        bad = [x for x in v if x[0] == 'bad']
        if bad:
            R.at(bad[0][1], 'the index is -1 when the search found nothing (a document without words)', key='search', fn=q)
        else:
            R.ok('%s:%s: the index was found' % (q.replace(NS, ''), line), len(v))
    if not seen:
        raise AnalysisBroken('no search loop was found')


@rule('C18', 'nothing gathered', 'the largest label is looked for only when documents were gathered')
def r_gathered(C, R):
    n_ = 0
    for f in C.overrides('em::MStepInterface::m_step'):
        g = C.run(f)
        for n in g.ops('ecall'):
            if n.op.name not in ('maxCoeff', 'minCoeff') and short(n.op.name or '') not in ('maxCoeff', 'minCoeff'):
                continue
            v = n.op.val
            if v is None or not (v.op == 'M' and v.args[0] in ('conservativeResize', 'resize')):
                continue
            size = v.args[2] if len(v.args) == 3 else None
            if size is None:
                continue
            n_ += 1
            if nonzero(g, size, g.facts_at(n.i)):
                R.ok('%s: documents were gathered' % f['qname'].replace(NS, ''))
            else:
                R.at(n, 'the labels of %s documents are used although none may have been gathered' % show(size, 2), key='gathered', fn=f['qname'])
    if not n_:
        R.unsure('no use of gathered labels found')


# -- logarithms -------------------------------------------------------------------

def f32(c):
    import struct
    try:
        return struct.unpack('f', struct.pack('f', c))[0]
    except OverflowError:
        return float('inf')


def zeroable(g, t, seen=(), d=0):
    """some element of t is exactly zero for legal input: word probabilities, word counts, what is proportional to them"""
    if d > 20 or t in seen:
        return False
    Z = lambda x: zeroable(g, x, seen, d + 1)
    if t.op == 'init':
        l = t.args[0]
        if l.op == 'f' and l.args[1] == 'beta':
            return True
        if any(s.op == 'call' and str(s.args[0]).endswith('::get_words') for s in subterms(t)):
            return True
        return False
    if t.op == 'E':
        if t.args[0] in ('array', 'matrix', 'cast', 'transpose', 'row', 'col', 'at', 'colwise', 'rowwise', 'eval', 'head', 'tail', 'segment', 'replicate',
                         'topRows', 'bottomRows', 'leftCols', 'rightCols', 'block', 'middleCols', 'middleRows'):
            return Z(t.args[1])
        return False
    if t.op == 'op':
        o = t.args[0]
        if o == '*':
            return any(Z(x) for x in t.args[1:])
        if o == '/':
            return Z(t.args[1])
        if o == '+':
            return all(Z(x) or x.op == 'const' and isinstance(x.args[0], float) and 0 <= x.args[0] and f32(x.args[0]) == 0 for x in t.args[1:])
        if o in ('!=',):
            return all(Z(x) or x.op == 'const' and x.args[0] == 0 for x in t.args[1:])
        return False
    if t.op == 'phi':
        return any(v != t and zeroable(g, v, tuple(seen) + (t,), d + 1) for v in g.I.phis.get(t, {}).values())
    if t.op == 'upd':
        old, path, how, val = t.args
        if how in ('*=', '/='):
            return Z(old)
        if how == '=':
            return Z(val)
        return False
    return False


@rule('C18', 'logarithms', 'no logarithm is taken of a probability or a total that is exactly zero for a legal input')
def r_logs(C, R):
    seen = {}
    for f in roots(C):
        if C.tier == 'quick' and ('float' in f['key'] and 'double' not in f['key']):
            continue
        g = C.run(f)
        for n in g.ops('ecall', 'math'):
            o = n.op
            if short(o.name or '') not in ('log', 'log2', 'log10') or n.frame.fn['file'].startswith('/usr'):
                continue
            a = o.val if o.kind == 'ecall' else (o.args[0] if o.args else None)
            if a is None:
                continue
            a = g.N(a)
            key = (n.frame.fn['qname'], o.line)
            if o.kind == 'math':
                ts = totals(g, a)
                # sums of what is not word counts are sums of exponentials or weights
                ts = [t for t in ts if t.op == 'E' and t.args[0] == 'sum' and nonneg(g, t) and zeroable(g, strip_views(t.args[1]))]
                facts = g.facts_at(n.i)
                bad = [t for t in ts if not nonzero(g, t, facts) and not search_guard(g, n.i, facts, t) and not same_content(g, t, facts)]
            else:
                bad = [a] if zeroable(g, a) else []
            seen.setdefault(key, []).append(('bad' if bad else 'ok', n, a))
    for (q, line), v in sorted(seen.items(), key=str):
        bad = [x for x in v if x[0] == 'bad']
        if bad:
            R.at(bad[0][1], 'the logarithm of %s, which is zero for legal input, makes the likelihood or the assignments infinite or NaN' % show(bad[0][2], 4), key='log', fn=q)
        else:
            R.ok('%s:%s: logarithm' % (q.replace(NS, ''), line), len(v))


def zero_columns(g, t, d=0):
    """views of zeroable content whose product with something is the divisor t: all of it is zero when the view is"""
    if d > 8:
        return []
    if t.op == 'op' and t.args[0] in ('@', '*'):
        return [y for x in t.args[1:] for y in zero_columns(g, x, d + 1)]
    if t.op == 'op' and t.args[0] == '/':
        return zero_columns(g, t.args[1], d + 1)
    if t.op == 'E' and t.args[0] in ('value', 'array', 'matrix', 'transpose', 'at', 'sum', 'eval', 'cast'):
        return zero_columns(g, t.args[1], d + 1)
    if t.op == 'E' and t.args[0] == 'col' and zeroable(g, t.args[1]):
        return [t]
    return []


def column_known(g, i, c, facts):
    """a fact, or the way an index was found, says that this column does not add up to zero"""
    n = g.N(c.args[2])

    def about(f):
        f = g.N(f) if isinstance(f, Term) else f
        for s in subterms(f):
            if s.op == 'E' and s.args[0] in ('sum', 'maxCoeff') and s.args[1].op == 'E' and s.args[1].args[0] == 'col' and g.N(s.args[1].args[2]) == n:
                if f == s or evaluate(f, s, 0) in (False,) or not feasible(g, [f], s, 0):
                    return True
        return False
    if any(about(f) for f in facts):
        return True
    if n.op == 'phi':
        for fr in g.I.frame_list:
            for l in g.loops(fr):
                ts = l.tests()
                if not any(t.get('phi') == n for t in ts):
                    continue
                for t in ts:
                    if t.get('fact') is not None and about(t['fact']):
                        return True
                if any(isinstance(x[3], Term) and about(x[3]) for x in l.exits()):
                    return True
    return False


@rule('C18', 'unseen words', 'what is divided by, or the logarithm taken of, a product with the assignments of a word is guarded against words that no topic emits')
def r_unseen(C, R):
    seen = {}
    for f in roots(C):
        if C.tier == 'quick' and ('float' in f['key'] and 'double' not in f['key']):
            continue
        g = C.run(f)
        for n in g.ops('div', 'math'):
            o = n.op
            if n.frame.fn['file'].startswith('/usr') or o.kind == 'math' and short(o.name or '') != 'log':
                continue
            d = g.N(o.args[1] if o.kind == 'div' else o.args[0])
            if d.op == 'E' and d.args[0] == 'sum':
                continue        # the totals rule
            for c in zero_columns(g, d):
                key = (n.frame.fn['qname'], o.line)
                seen.setdefault(key, []).append(('ok' if column_known(g, n.i, c, g.facts_at(n.i)) else 'bad', n, c))
    for (q, line), v in sorted(seen.items(), key=str):
        bad = [x for x in v if x[0] == 'bad']
        if bad:
            R.at(bad[0][1], '%s is all zeros for a word that no topic emits: the result is infinite or NaN' % show(bad[0][2], 3), key='unseen', fn=q)
        else:
            R.ok('%s:%s: the word is emitted by a topic' % (q.replace(NS, ''), line), len(v))
    if not seen:
        R.unsure('no division by a product with the assignments of a word was found')
