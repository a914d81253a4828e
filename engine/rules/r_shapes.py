"""C24: what the rows and columns of every matrix range over.

Dimensions are T (topics), W (vocabulary), K (classes), D (documents) and 1, given by the documented shapes of the model, of the variational
parameters, of a document's words and of the corpora; a number the analysis knows nothing about (an argument, the size of an argument) is a
variable, bound by the expressions it takes part in.  Only two different known dimensions that meet are reported."""
import re
from common import *
from rules.r_corpus import app_ctx
from rules.r_init import repo_functions
from rules.r_norm import plain, loop_at

NAMES = {'T': 'topics', 'W': 'words', 'K': 'classes', 'D': 'documents', '1': 'a single one'}
SEEDS = {
    ('ModelParameters', 'alpha'): ('T', '1'), ('ModelParameters', 'beta'): ('T', 'W'), ('SupervisedModelParameters', 'eta'): ('T', 'K'),
    ('VariationalParameters', 'gamma'): ('T', '1'), ('VariationalParameters', 'phi'): ('T', 'W'),
    ('SupervisedCorrespondenceVariationalParameters', 'tau'): ('W', '1'),
    ('EigenCorpus', 'X_'): ('W', 'D'), ('EigenClassificationCorpus', 'X_'): ('W', 'D'), ('EigenClassificationCorpus', 'y_'): ('D', '1'),
    ('EigenClassificationCorpus', 'priors_'): ('K', '1'),
    ('MultinomialLogisticRegression', 'X_'): ('T', 'D'), ('MultinomialLogisticRegression', 'y_'): ('D', '1'), ('MultinomialLogisticRegression', 'Cy_'): ('K', '1'),
    ('SecondOrderLogisticRegressionApproximation', 'X_'): ('T', 'D'), ('SecondOrderLogisticRegressionApproximation', 'y_'): ('D', '1'),
    ('SecondOrderLogisticRegressionApproximation', 'Cy_'): ('K', '1'),
}
LISTS = {('SecondOrderLogisticRegressionApproximation', 'X_var_'): ('D', ('T', 'T'))}      # what its elements are for, and the shape of each
MODEL = {'alpha': ('T', '1'), 'beta': ('T', 'W'), 'eta': ('T', 'K'), 'gamma': ('T', '1'), 'phi': ('T', 'W'), 'tau': ('W', '1')}
SAME = {'unaryExpr', 'log', 'exp', 'abs', 'array', 'matrix', 'cast', 'sqrt', 'square', 'inverse', 'eval', 'cwiseAbs', 'cwiseSqrt', 'pow', 'cwiseInverse',
        'cwiseMax', 'cwiseMin', 'max', 'min', 'noalias', 'normalized', 'floor', 'ceil', 'reverse'}
SCALAR = {'sum', 'maxCoeff', 'minCoeff', 'squaredNorm', 'norm', 'lpNorm', 'mean', 'prod', 'trace', 'value', 'dot', 'count', 'any', 'all', 'size', 'rows', 'cols',
          'argmaxCoeff', 'argminCoeff', 'coeff'}
REDUCE = {'sum', 'maxCoeff', 'minCoeff', 'squaredNorm', 'norm', 'mean', 'prod', 'count', 'any', 'all'}
MAT = re.compile(r'Eigen::(?:Matrix|Array)<([\w ]+),(-?\d+),(-?\d+)')
ELEM = {'+', '-', '*', '/', '!=', '==', '<', '<=', '>', '>=', '&&', '||', 'max', 'min'}
SC = 'scalar'
BOT = 'not known yet'


def shape_of_type(t):
    m = MAT.search(t or '')
    return (m.group(2), m.group(3)) if m else None


class Shapes(object):
    def __init__(self, C, g, f):
        self.C, self.g, self.f = C, g, f
        self.memo, self.par, self.found, self.n = {}, {}, [], 0
        self.phis, self.seen = {}, set()
        self.why = {}
        self.cls = simple(rec_of(Interp.ckey(f)))

    # dimensions: 'T'.. or ('v', term)
    def find(self, d):
        while d in self.par:
            d = self.par[d]
        return d

    def rigid(self, d):
        d = self.find(d)
        return d if isinstance(d, str) else None

    def meet(self, a, b, what, bind=True):
        """the two dimensions have to be the same; False when they cannot"""
        if a is None or b is None or BOT in (a, b):
            return True
        self.n += 1
        a, b = self.find(a), self.find(b)
        if a == b:
            return True
        if isinstance(a, str) and isinstance(b, str):
            if a.isdigit() and b.isdigit():
                return True
            self.found.append((what, a, b))
            return False
        if not bind:
            return True
        if isinstance(a, str):
            a, b = b, a
        if isinstance(b, str) and b.isdigit():
            return True                     # a count that happens to be one says nothing about what it counts
        if self.stable(a[1]):
            self.par[a] = b
        return True

    def stable(self, t):
        return not any(s.op in ('phi', 'res', 'eff') for s in subterms(t))

    def dim(self, t):
        """what an integer counts"""
        if not isinstance(t, Term):
            return None
        g = self.g
        t = g.N(t)
        if t.op == 'const':
            return None                     # so many of anything
        if t.op == 'E' and t.args[0] in ('rows', 'cols', 'size') and len(t.args) == 2:
            s = self.sh(t.args[1])
            if s == BOT:
                return BOT
            if isinstance(s, tuple):
                if t.args[0] == 'rows':
                    return s[0]
                if t.args[0] == 'cols':
                    return s[1]
                return s[0] if s[1] == '1' else s[1] if s[0] == '1' else None
        if t.op == 'call' and str(t.args[0]).split('::')[-1] == 'size' and 'Corpus' in str(t.args[0]):
            return 'D'
        if t.op == 'phi' and t in g.I.phis:
            ds = {self.dim(v) for v in g.I.phis[t].values() if g.N(v) is not t and g.N(v) is not t} if loop_at(g, t) is None else set()
            ds.discard(BOT)
            return ds.pop() if len(ds) == 1 else None
        if t.op in ('init', 'param', 'E') and not any(s.op == 'phi' for s in subterms(t)):
            return ('v', t)
        return None

    def sh(self, t):
        g = self.g
        if not isinstance(t, Term):
            return None
        t = g.N(t)
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self.go(t)
        if isinstance(r, tuple) and BOT in r:
            r = BOT
        self.memo[t] = r
        return r

    def leaf(self, t, loc):
        """shape of what is found in memory"""
        ty = None
        if loc.op == 'f':
            name, cls = loc.args[1], simple(rec_of(str(loc.args[2]))) if len(loc.args) > 2 and loc.args[2] else ''
            for (c, n), s in SEEDS.items():
                if n == name and (c == cls):
                    return s
            if name in MODEL and ('Parameters' in cls):
                return MODEL[name]
            rec = self.C.F.records.get(rec_of(str(loc.args[2]))) if len(loc.args) > 2 and loc.args[2] else None
            for m in (rec or {}).get('fields', ()):
                if m['name'] == name:
                    ty = m['t']
        elif loc.op == 'mem' and loc.args[0].op == 'init' and loc.args[0].args[0].op == 'f':
            return self.leaf(t, loc.args[0].args[0])
        elif loc.op == 'mem' and loc.args[0].op == 'call' and str(loc.args[0].args[0]).endswith('get_words'):
            return ('W', '1')
        elif loc.op == 'mem' and loc.args[0].op == 'param':
            ty = self.ptype(loc.args[0])
            s = shape_of_type(ty)
            if s and self.cls in ('LDA', 'EigenCorpus', 'EigenClassificationCorpus') and 'Matrix<int' in ty:
                return ('W', 'D') if s[1] == '-1' else ('D', '1')
            if s and self.cls in ('MultinomialLogisticRegression', 'SecondOrderLogisticRegressionApproximation') and s == ('-1', '-1') and fname(self.f) in ('value', 'gradient'):
                return ('T', 'K')
        s = shape_of_type(ty)
        if s is None:
            return SC if ty and scalarish(ty) else None
        return tuple(d if d != '-1' else ('v', T('E', w, t)) for d, w in zip(s, ('rows', 'cols')))

    def ptype(self, p):
        f = self.C.F.functions.get(p.args[0])
        for q in (f or {}).get('params', ()):
            if q['name'] == p.args[1]:
                return q['t']
        return None

    def go(self, t):
        g = self.g
        p = plain(t)
        if p is not t:
            return self.sh(p)
        if t.op == 'const':
            return SC
        if t.op == 'init':
            return self.leaf(t, t.args[0])
        if t.op == 'param':
            ty = self.ptype(t)
            s = shape_of_type(ty)
            if s:
                return tuple(d if d != '-1' else ('v', T('E', w, t)) for d, w in zip(s, ('rows', 'cols')))
            return SC if ty and scalarish(ty) else None
        if t.op == 'alloc':
            s = shape_of_type(str(t.args[0]))
            if not s:
                return None
            if len(t.args) == 2:
                return (self.dim(t.args[1]), '1') if s[1] == '1' else ('1', self.dim(t.args[1])) if s[0] == '1' else None
            if len(t.args) == 3:
                return (self.dim(t.args[1]), s[1] if s[1] != '-1' else self.dim(t.args[2]))
            return None
        if t.op == 'S':
            s = shape_of_type(str(t.args[0]))
            a = list(t.args[2:])
            if t.args[1] == 'Constant':
                a = a[:-1]
            elif t.args[1] not in ('Zero', 'Ones', 'Random', 'Identity'):
                return None
            if not s:
                return None
            if len(a) == 1:
                return (self.dim(a[0]), '1') if s[1] == '1' else ('1', self.dim(a[0]))
            if len(a) == 2:
                return (self.dim(a[0]), self.dim(a[1]))
            return None
        if t.op == 'M':
            if t.args[0] in ('conservativeResize', 'resize'):
                old = self.sh(t.args[1])
                a = t.args[2:]
                if len(a) == 1:
                    return (self.dim(a[0]), '1')
                if len(a) == 2:
                    return (self.dim(a[0]), self.dim(a[1]))
            return None
        if t.op == 'filled':
            return self.sh(t.args[0])
        if t.op == 'upd':
            s = self.sh(t.args[0])
            self.update(t, s)
            return s
        if t.op == 'phi' and t in g.I.phis:
            self.seen.add(t)
            return self.phis.get(t, BOT)
        if t.op == 'E':
            return self.ecall(t)
        if t.op == 'op':
            return self.arith(t)
        if t.op == 'call':
            return None
        return None

    def solve(self, terms):
        """least solution of the joins, then one pass that reports"""
        for r in range(30):
            self.memo.clear()
            for t in terms:
                self.sh(t)
            new = {t: self.join(t) for t in list(self.seen)}
            if new == self.phis:
                break
            self.phis = new
        else:
            self.phis = {t: None for t in self.phis}
        self.phis = {t: None if s == BOT else s for t, s in self.phis.items()}
        self.memo.clear()
        self.found, self.n = [], 0
        for t in terms:
            self.sh(t)

    def sources(self, t, seen):
        """the shapes of the values that can be found in a variable"""
        t = self.g.N(t)
        if t.op == 'phi' and t in self.g.I.phis:
            if t in seen:
                return []
            seen.add(t)
            return [s for v in self.g.I.phis[t].values() for s in self.sources(v, seen)]
        if t.op == 'upd':
            return self.sources(t.args[0], seen)
        return [self.sh(t)]

    def join(self, t):
        g = self.g
        ss = [self.sh(v) for k, v in g.I.phis[t].items() if g.N(v) is not t]
        ss = [x for x in ss if x != BOT]
        if not ss:
            return BOT
        if any(x is None for x in ss):
            return None
        if any(x == SC for x in ss):
            return SC if all(x == SC for x in ss) else None
        out = []
        for ds in zip(*ss):
            ds = [self.find(d) if d is not None else None for d in ds]
            hard = {d for d in ds if isinstance(d, str)}
            if len(hard) == 1 and None not in ds:
                h = hard.pop()
                for d in ds:
                    if not isinstance(d, str) and self.stable(d[1]) and not h.isdigit():
                        self.par[d] = h
                out.append(h)
            elif not hard and len(set(ds)) == 1:
                out.append(ds[0])
            else:
                out.append(None)
        return tuple(out)

    def index(self, i):
        """what an index ranges over: the bound of the loop it counts"""
        g = self.g
        i = g.N(i)
        if i.op == 'call' and str(i.args[0]).endswith('get_class'):
            return 'K'
        if i.op == 'phi' and i in g.I.phis:
            l = loop_at(g, i)
            if l is None:
                return None
            ind = l.inductions()
            if i not in ind:
                return None
            init, step = ind[i]
            for d in l.tests():
                tr = d.get('trips')
                if d.get('phi') is not i or tr is None or tr[1] != 0 or len(tr[0]) != 1 or list(tr[0].values()) != [1]:
                    continue
                n = list(tr[0])[0]
                if (lin(init) == ({}, 0) and step == 1) or (lin(init) == ({n: 1}, -1) and step == -1):
                    return self.dim(n)
            return None
        if i.op == 'E' and i.args[0] == 'at' and len(i.args) == 3:
            b = plain(i.args[1])
            if b.op == 'init' and self.sh(b) == ('D', '1'):
                return 'K'                  # a label
        return None

    def view(self, s, name, ix, t):
        """shape of a part"""
        if s is None or s == SC:
            return None
        if s == BOT:
            return BOT if name != 'at' else SC
        ix = [x for x in ix if isinstance(x, Term)]
        if name == 'at':
            if len(ix) == 1:
                d = s[0] if s[1] == '1' else s[1] if s[0] == '1' else None
                self.meet(self.index(ix[0]), d, ('subscript', t), bind=False)
            elif len(ix) == 2:
                self.meet(self.index(ix[0]), s[0], ('row subscript', t), bind=False)
                self.meet(self.index(ix[1]), s[1], ('column subscript', t), bind=False)
            return SC
        if name == 'row' and ix:
            self.meet(self.index(ix[0]), s[0], ('row number', t), bind=False)
            return ('1', s[1])
        if name == 'col' and ix:
            self.meet(self.index(ix[0]), s[1], ('column number', t), bind=False)
            return (s[0], '1')
        if name == 'transpose':
            return (s[1], s[0])
        return None

    def ecall(self, t):
        name, a = t.args[0], t.args[1:]
        o = a[0] if a else None
        if not isinstance(o, Term):
            return None
        if name == 'at' and len(a) == 2:
            ls = self.list_of(plain(o))
            if ls is not None:
                self.meet(self.index(a[1]), ls[0], ('subscript', t), bind=False)
                return ls[1]
        if name in ('at', 'row', 'col', 'transpose'):
            return self.view(self.sh(o), name, a[1:], t)
        if name in REDUCE and plain(o).op == 'E' and plain(o).args[0] in ('colwise', 'rowwise'):
            s = self.sh(plain(o).args[1])
            if not isinstance(s, tuple):
                return BOT if s == BOT else None
            return ('1', s[1]) if plain(o).args[0] == 'colwise' else (s[0], '1')
        if name == 'value':
            s = self.sh(o)
            if isinstance(s, tuple):
                for d in s:
                    if d is not None and self.rigid(d) in ('T', 'W', 'K', 'D'):
                        self.found.append((('the single value', t), self.rigid(d), '1'))
            return SC
        if name in ('dot', 'cwiseProduct', 'cwiseQuotient'):
            x, y = self.sh(o), self.sh(a[1])
            self.same(x, y, t, name)
            return SC if name == 'dot' else x
        if name in SCALAR:
            self.sh(o)
            return SC if isinstance(self.sh(o), tuple) or name not in ('size',) else SC
        if name in SAME:
            return self.sh(o)
        if name == 'diagonal':
            s = self.sh(o)
            if not isinstance(s, tuple):
                return BOT if s == BOT else None
            self.meet(s[0], s[1], ('the diagonal', t))
            return (s[0], '1')
        if name == 'asDiagonal':
            s = self.sh(o)
            return (s[0], s[0]) if isinstance(s, tuple) else None
        if name in ('colwise', 'rowwise'):
            return ('wise', name, self.sh(o)) if False else None
        return None

    def list_of(self, o):
        if o.op == 'init' and o.args[0].op == 'mem' and o.args[0].args[0].op == 'init':
            o = o.args[0].args[0]
        if o.op != 'init' or o.args[0].op != 'f' or len(o.args[0].args) < 3 or not o.args[0].args[2]:
            return None
        return LISTS.get((simple(rec_of(str(o.args[0].args[2]))), o.args[0].args[1]))

    def same(self, x, y, t, what):
        if isinstance(x, tuple) and isinstance(y, tuple):
            ok = self.meet(x[0], y[0], (what, t))
            if ok:
                self.meet(x[1], y[1], (what, t))

    def arith(self, t):
        name, a = t.args[0], t.args[1:]
        if name in ('neg', '!'):
            return self.sh(a[0])
        if name == '@':
            x, y = self.sh(a[0]), self.sh(a[1])
            if BOT in (x, y):
                return BOT
            if not (isinstance(x, tuple) and isinstance(y, tuple)):
                return None
            self.meet(x[1], y[0], ('matrix product', t))
            return (x[0], y[1])
        if name not in ELEM or len(a) != 2:
            return None
        for i in (0, 1):
            w = plain(self.g.N(a[i]))
            if w.op == 'E' and w.args[0] in ('colwise', 'rowwise'):
                s, v = self.sh(w.args[1]), self.sh(a[1 - i])
                if isinstance(s, tuple) and isinstance(v, tuple):
                    d = s[0] if w.args[0] == 'colwise' else s[1]
                    e = v[0] if v[1] == '1' else v[1] if v[0] == '1' else None
                    self.meet(d, e, ('%s operation' % w.args[0], t))
                return s
        x, y = self.sh(a[0]), self.sh(a[1])
        if x == SC:
            return y
        if y == SC:
            return x
        if x is None or y is None:
            return None
        if x == BOT or y == BOT:
            return y if x == BOT else x
        self.same(x, y, t, 'element by element operation')
        return tuple(p if p is not None else q for p, q in zip(x, y))

    def update(self, t, s):
        old, path, how, val = t.args
        cur = s
        for step in path if isinstance(path, tuple) else ():
            if not isinstance(step, tuple):
                return
            cur = self.view(cur, step[0], step[1:], t)
        v = self.sh(val)
        if isinstance(cur, tuple) and isinstance(v, tuple):
            self.assign(cur, v, t)

    def assign(self, cur, v, t):
        if '1' in cur and '1' in v:
            a = cur[0] if cur[1] == '1' else cur[1]
            b = v[0] if v[1] == '1' else v[1]
            self.meet(a, b, ('assignment', t))
        else:
            self.same(cur, v, t, 'assignment')


def simple(c):
    return (c or '').split('<')[0].split('::')[-1]


def scalarish(t):
    t = re.sub(r'\b(const|unsigned|signed|&)\b|&', '', t).strip()
    return t in ('', 'int', 'long', 'short', 'char', 'bool', 'float', 'double', 'size_t', 'std::size_t', 'long int', 'long long')


RESULTS = {'transform': [('T', 'D')], 'decision_function': [('K', 'D')], 'predict': [('D', '1')]}


@rule('C24', 'dimensions', 'no matrix expression, assignment, loop bound or subscript brings together two of: topics, words, classes, documents')
def dimensions(C, R):
    for sc in C.scalars:
        fields = {}
        for f in repo_functions(C, sc):
            try:
                g = C.run(f)
            except AnalysisBroken:
                continue
            S = Shapes(C, g, f)
            at = {}
            for nd in g.nodes:
                if nd.kind != 'op':
                    continue
                o = nd.op
                for t in [o.val, o.res, o.obj] + list(o.args or ()):
                    if isinstance(t, Term):
                        for s in subterms(t):
                            s = g.N(s)
                            if s not in at:
                                at[s] = nd
            terms = list(at) + [v for v in dict(g.root.exit_state or {}).values() if isinstance(v, Term)]
            S.solve(terms)
            stores(S, g, at)                # binds the numbers that size what is stored
            S.solve(terms)
            stores(S, g, at)
            ret = g.root.ret
            if ret is not None and isinstance(ret, Term) and simple(rec_of(Interp.ckey(f))) == 'LDA' and fname(f) in RESULTS:
                v = g.I.read(g.root.exit_state, ret) if is_loc(ret) else ret
                got = S.sh(v)
                if isinstance(got, tuple):
                    for i in (0, 1):
                        S.meet(RESULTS[fname(f)][0][i], got[i], ('the result', None))
            if isinstance(ret, Term) and fname(f) == 'size' and 'Corpus' in Interp.ckey(f):
                S.meet('D', S.dim(g.I.read(g.root.exit_state, ret) if is_loc(ret) else ret), ('the result', None))
            for t in at:
                if t.op == 'init' and t.args[0].op == 'f' and root(t.args[0]).op == 'mem' and root(t.args[0]).args[0].op == 'this':
                    remember(fields, S, t.args[0], S.sh(t), f)
            for k, v in dict(g.root.exit_state).items():
                if k.op == 'f' and root(k).op == 'mem' and root(k).args[0].op == 'this':
                    remember(fields, S, k, S.sh(v), f)
            R.ok('%s: meetings of two dimensions' % f['qname'].replace(NS, ''), S.n)
            for (what, t), a, b in S.found:
                msg = '%s: %s meet %s' % (what, NAMES.get(a, a), NAMES.get(b, b))
                if t in at:
                    R.at(at[t].op, msg, key='dim', fn=at[t].frame.fn['qname'])
                else:
                    R.violation(f['qname'], msg, f['file'], f['line'], key='dim')
        for (cls, name, axis), ds in sorted(fields.items()):
            if len(ds) > 1:
                a, b = sorted(ds)[:2]
                f = ds[b]
                R.violation(f['qname'], '%s of the member %s: %s here, %s in %s' % (('rows', 'columns')[axis], name, NAMES[b], NAMES[a], fname(ds[a])),
                            f['file'], f['line'], key='member|%s|%d' % (name, axis))
            else:
                R.ok('%s of %s::%s' % (('rows', 'columns')[axis], cls.replace(NS, ''), name))


def stores(S, g, at):
    """what is stored in the model and the variational parameters, and what is put in a matrix whose size is given"""
    for nd in g.nodes:
        o = nd.op if nd.kind == 'op' else None
        if o is None or o.kind != 'write' or o.loc is None or o.val is None:
            continue
        want = None
        if o.loc.op == 'f':
            want = S.leaf(T('init', o.loc), o.loc)
            if not (isinstance(want, tuple) and isinstance(want[0], str)):
                want = None
            what = 'what is stored in %s' % o.loc.args[1]
        if want is None:
            for q in nd.frame.fn.get('params') or ():
                if 'Eigen::Ref<' in q['t'] and nd.frame is not g.root:
                    b = nd.frame.env.get(q['id'])
                    b = b[-1] if isinstance(b, tuple) else b
                    if b is o.loc and nd.frame.in_states:
                        st = nd.frame.in_states.get(max(nd.frame.in_states))
                        if st is not None:
                            want = S.sources(g.I.read(st, o.loc), set())
                            what = 'what is put in %s' % q['name']
        got = S.sh(o.val)
        for w in want if isinstance(want, list) else [want]:
            if isinstance(w, tuple) and isinstance(got, tuple):
                t = g.N(o.val)
                at.setdefault(t, nd)
                for i in (0, 1):
                    S.meet(w[i], got[i], (what, t))


def remember(fields, S, loc, s, f):
    if isinstance(s, tuple):
        for i, d in enumerate(s):
            r = S.rigid(d) if d is not None else None
            if r in NAMES and r != '1':
                fields.setdefault((rec_of(str(loc.args[2])) if len(loc.args) > 2 else '', loc.args[1], i), {}).setdefault(r, f)


def fname(f):
    return f['qname'].split('(')[0].split('::')[-1]
