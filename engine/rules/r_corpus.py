"""C15 (corpora), C16 (documents without a label) and C17 (where randomness comes from).

The corpus classes are decided by composing their methods: the constructor is interpreted with symbolic data, then shuffle(), then
at(), and the methods of the document at() returns are interpreted in that state.  What comes out (the words, the label) is a term over
the caller's matrix and label vector, and the rules ask which column and which entry that is."""
from common import *
from rules.r_params import poly, ENGINE, std_ctor, mentions
from rules.r_apps import short_name
from rules.r_io import lin_term, collapse

PERMUTING = ('shuffle', 'random_shuffle', 'sort', 'stable_sort', 'partial_sort', 'reverse', 'rotate', 'next_permutation',
             'prev_permutation', 'nth_element', 'partition')


def bases_of(C, rec, seen=None):
    seen = set() if seen is None else seen
    r = C.F.records.get(rec)
    for b in (r or {}).get('bases', ()):
        b = rec_of(b if isinstance(b, str) else b.get('t') or b.get('name'))
        if b not in seen:
            seen.add(b)
            bases_of(C, b, seen)
    return seen


def methods(C, cls, name):
    """bodies of cls::name, looked up in the bases when cls does not define it"""
    out = [f for f in C.F.functions.values() if f['qname'] == cls + '::' + name and f.get('cls') and rec_of(f['cls']) == cls]
    if out:
        return sorted(out, key=lambda f: f['key'])
    for b in sorted(bases_of(C, cls)):
        out = [f for f in C.F.functions.values() if f['qname'] == b + '::' + name and f.get('cls')]
        if out:
            return sorted(out, key=lambda f: f['key'])
    return []


def corpora(C):
    """concrete corpus classes: name -> (constructors, at, shuffle, size)"""
    out = {}
    for k in C.F.records:
        k = rec_of(k)
        if NS + 'corpus::Corpus' not in bases_of(C, k):
            continue
        at = methods(C, k, 'at')
        if not at:
            continue
        out[k] = (methods(C, k, k.split('::')[-1]), at, methods(C, k, 'shuffle'), methods(C, k, 'size'))
    return out


def matrix_param(f):
    """(words parameter, label parameter) of a constructor"""
    X = y = None
    for p in f['params']:
        t = p['t']
        if 'Eigen::Matrix<int,-1,-1' in t:
            X = T('param', f['key'], p['name'])
        elif 'Eigen::Matrix<int,-1,1' in t:
            y = T('param', f['key'], p['name'])
    return X, y


def from_param(t, p):
    """t is the content of parameter p"""
    return t == p or t == T('init', mem(p)) or (t.op == 'init' and t.args[0] == p)


class Corpus(object):
    def __init__(self, C, cls, ctor, at, shuffle, size, k):
        self.C, self.cls, self.ctor, self.k = C, cls, ctor, k
        self.X, self.y = matrix_param(ctor)
        tag = 'corpus%d' % k
        self.g0 = C.run(ctor)
        self.this = self.g0.root.this
        self.s0 = self.g0.root.exit_state
        self.g1 = C.run(shuffle, this=self.this, state=self.s0, tag=tag) if shuffle is not None else None
        self.s1 = self.g1.root.exit_state if self.g1 is not None else self.s0
        self.index = T('param', at['key'], at['params'][0]['name'])
        self.at = at
        self.views = []
        for what, st in (('before a shuffle', self.s0), ('after a shuffle', self.s1)):
            g = C.run(at, this=self.this, state=st, tag=tag + what)
            self.views.append((what, g))
        self.gs = C.run(size, this=self.this, state=self.s0, tag=tag) if size is not None else None

    def doc(self, g, name):
        """what the method of the returned document gives"""
        r = g.root.ret
        if r is None or r.op != 'obj':
            return None, None
        cls = rec_of(r.args[2])
        fs = methods(self.C, cls, name)
        if not fs:
            return None, None
        h = self.C.run(fs[0], this=r, state=g.root.exit_state, tag='doc' + str(id(g)))
        t = h.root.ret
        if t is not None and (t.op == 'addr' or is_loc(t)):
            t = h.I.read(h.root.exit_state, mem(t) if t.op == 'addr' else t)
        return t, h


def built(C, R):
    if not hasattr(C, '_corpora'):
        C._corpora = []
        for cls, (ctors, at, sh, size) in sorted(corpora(C).items()):
            for k, c in enumerate(ctors):
                if matrix_param(c)[0] is None:
                    continue
                try:
                    C._corpora.append(Corpus(C, cls, c, at[0], sh[0] if sh else None, size[0] if size else None, k))
                except AnalysisBroken:
                    pass
    if not C._corpora:
        raise AnalysisBroken('no corpus class found')
    return C._corpora


def index_of(t, data, view):
    """the index with which `view` is taken of `data` in t, or None"""
    if t is not None and t.op == 'E' and len(t.args) == 3 and t.args[0] in ((view,) if isinstance(view, str) else view) and from_param(t.args[1], data):
        return t.args[2]
    return None


@rule('C15', 'words', 'the words of the document at a position are the column the permutation names for that position')
def r_words(C, R):
    for K in built(C, R):
        for what, g in K.views:
            name = '%s %s' % (K.cls.split('::')[-1], what)
            t, h = K.doc(g, 'get_words')
            if t is None:
                R.unsure('%s: words' % name)
                continue
            if t.op == 'E' and t.args[0] == 'row' and from_param(t.args[1], K.X):
                R.violation(K.at['qname'], 'the words of a document are a row of the data', K.at['file'], K.at['line'], key='row')
                continue
            ix = index_of(t, K.X, 'col')
            if ix is None:
                R.unsure('%s: words are %s' % (name, show(t, 4)))
                continue
            ix = g.N(ix)
            if ix == K.index:
                if K.g1 is not None and what.startswith('before'):
                    R.violation(K.at['qname'], 'the document at a position is taken without looking at the permutation that shuffle changes',
                                K.at['file'], K.at['line'], key='position')
                continue
            if ix.op == 'E' and ix.args[0] in ('at',) and ix.args[2] == K.index:
                R.ok('%s: position maps to %s' % (name, show(ix.args[1], 2)))
                continue
            p = poly(ix)
            c = p.get(frozenset(), 0)
            atoms_ = [a for k in p for a, e in k]
            if len(atoms_) == 1 and c and atoms_[0].op == 'E' and atoms_[0].args[0] == 'at' and atoms_[0].args[2] == K.index and \
                    list(v for k, v in p.items() if k) == [1]:
                R.violation(K.at['qname'], 'the document at a position is %s away from the one the permutation names' % c, K.at['file'],
                            K.at['line'], key='offset')
            elif ix.op == 'E' and ix.args[0] == 'at' and K.index in set(subterms(ix.args[2])):
                q = poly(ix.args[2])
                if q.get(frozenset(), 0) and q.get(frozenset([(K.index, 1)])) == 1 and len(q) == 2:
                    R.violation(K.at['qname'], 'the permutation is looked up %s places away from the position' % q[frozenset()], K.at['file'],
                                K.at['line'], key='offset')
                else:
                    R.unsure('%s: position %s' % (name, show(ix, 4)))
            elif K.index not in set(subterms(ix)):
                R.violation(K.at['qname'], 'the document returned does not depend on the position', K.at['file'], K.at['line'], key='position')
            else:
                R.unsure('%s: position %s' % (name, show(ix, 4)))


@rule('C15', 'label', 'the label of the document at a position belongs to the same column as its words')
def r_label(C, R):
    for K in built(C, R):
        if K.y is None:
            continue
        for what, g in K.views:
            name = '%s %s' % (K.cls.split('::')[-1], what)
            w, h = K.doc(g, 'get_words')
            l, h2 = K.doc(g, 'get_class')
            iw = index_of(w, K.X, ('col', 'row'))
            il = index_of(l, K.y, ('at', 'row'))
            if iw is None or il is None:
                R.unsure('%s: label %s' % (name, show(l, 4) if l is not None else None))
            elif poly(g.N(iw)) == poly(g.N(il)):
                R.ok('%s: words and label of one document' % name)
            else:
                R.violation(K.at['qname'], 'the words are those of document %s, the label that of document %s' % (show(iw, 3), show(il, 3)),
                            K.at['file'], K.at['line'], key='label')


def whole(t, size, g):
    return poly(g.N(t)) == poly(g.N(size))


def permutation(C, R, K, g, t, name, depth=0):
    """t: value of an index container; the number of entries or None"""
    if depth > 6:
        R.unsure('%s: permutation' % name)
        return None
    f = K.ctor
    if t.op == 'algo':
        kind, inner = t.args[0], t.args[1]
        if kind == 'iota':
            lo, hi, start = t.args[2], t.args[3], t.args[4]
            if start.op == 'const' and start.args[0] != 0:
                R.violation(f['qname'], 'the positions are numbered from %s' % start.args[0], f['file'], f['line'], key='iota')
                return None
            n = inner
            while n.op in ('upd', 'algo'):
                n = n.args[0] if n.op == 'upd' else n.args[1]
            size = n.args[0] if n.op == 'sized' else n.args[2] if n.op == 'cupd' and n.args[1] == 'resize' else None
            if size is None or lo.op != 'iter' or hi.op != 'iter':
                R.unsure('%s: numbering %s' % (name, show(inner, 3)))
                return None
            if lo.args[1] != T('const', 0) or not (whole(hi.args[1], size, g) or hi.args[1].op == 'E' and hi.args[1].args[0] == 'size'):
                R.violation(f['qname'], 'only part of the positions is numbered', f['file'], f['line'], key='iota-range')
                return None
            return size
        if kind in PERMUTING:
            return permutation(C, R, K, g, inner, name, depth + 1)
        R.violation(f['qname'], 'the permutation is overwritten by std::%s' % kind, f['file'], f['line'], key='algo')
        return None
    if t.op == 'phi':
        vals = list(g.I.phis.get(t, {}).values()) if t in g.I.phis else None
        if not vals:
            for h in (K.g0, K.g1) + tuple(x for _, x in K.views):
                if h is not None and t in h.I.phis:
                    vals, g = list(h.I.phis[t].values()), h
        if not vals:
            R.unsure('%s: permutation' % name)
            return None
        start = [v for v in vals if not carries(g, v, t)]
        step = [x for v in vals if carries(g, v, t) for x in leaves_of(g, v) if x != t]
        if len(start) != 1:
            R.unsure('%s: permutation' % name)
            return None
        sizes = set()
        for v in step:
            ups = []
            x = v
            while x.op == 'upd' and len(x.args[1]) == 1 and x.args[1][0][0] == 'at' and x.args[2] == '=':
                ups.append((g.N(x.args[1][0][1]), g.N(x.args[3])))
                x = x.args[0]
            if x.op == 'cupd' and x.args[1] in ('push_back', 'emplace_back') and x.args[0] == t and not ups:
                sizes.add(('push', x.args[2]))
                continue
            if x != t or not ups:
                R.unsure('%s: permutation changed by %s' % (name, show(v, 4)))
                return None
            ups.reverse()
            if len(ups) == 1:
                i, w = ups[0]
                if i == w:
                    sizes.add(('fill', i))
                elif poly(i) == poly(T('op', '-', w, T('const', poly(w).get(frozenset(), 0)))):
                    R.violation(f['qname'], 'position %s is numbered %s' % (show(i, 2), show(w, 2)), f['file'], f['line'], key='iota')
                    return None
                elif t not in set(subterms(w)):
                    R.violation(f['qname'], 'an entry of the permutation is overwritten by %s' % show(w, 3), f['file'], f['line'], key='overwrite')
                    return None
                else:
                    R.violation(f['qname'], 'an entry of the permutation is overwritten by another one', f['file'], f['line'], key='overwrite')
                    return None
            elif len(ups) == 2:
                (a, va), (b, vb) = ups
                def entry(w, i):
                    return w.op == 'E' and w.args[0] == 'at' and g.N(w.args[2]) == i
                if entry(va, b) and entry(vb, a) and va.args[1] == t:
                    sizes.add(('swap',))
                else:
                    R.violation(f['qname'], 'entries of the permutation are changed other than by exchanging two of them', f['file'], f['line'],
                                key='swap')
                    return None
            else:
                R.unsure('%s: permutation changed by %s' % (name, show(v, 4)))
                return None
        if all(s[0] == 'swap' for s in sizes):
            return permutation(C, R, K, g, start[0], name, depth + 1)
        if len(sizes) == 1:
            s = list(sizes)[0]
            for h in (K.g0, K.g1):
                if h is None:
                    continue
                for fr in h.I.frame_list:
                    for l in h.loops(fr):
                        for d in l.tests():
                            if d.get('phi') is not None and d['phi'] == s[1] and d.get('trips') is not None:
                                if d['init'] != T('const', 0):
                                    R.violation(f['qname'], 'positions are numbered from %s' % show(d['init'], 2), f['file'], f['line'], key='iota')
                                    return None
                                return lin_term(d['trips'])
        R.unsure('%s: numbering' % name)
        return None
    R.unsure('%s: permutation is %s' % (name, show(t, 3)))
    return None


@rule('C15', 'permutation', 'the positions start as 0, 1, ... over all documents and are only ever permuted')
def r_perm(C, R):
    for K in built(C, R):
        for what, g in K.views:
            name = '%s %s' % (K.cls.split('::')[-1], what)
            w, h = K.doc(g, 'get_words')
            ix = index_of(w, K.X, ('col', 'row'))
            if ix is None or not (ix.op == 'E' and ix.args[0] == 'at'):
                R.unsure('%s: permutation' % name)
                continue
            before = len(R.violations)
            n = permutation(C, R, K, g, ix.args[1], name)
            if n is None:
                continue
            n = g.N(n)
            docs = [T('E', 'cols', T('init', mem(K.X)))] + ([T('E', 'rows', T('init', mem(K.y))), T('E', 'size', T('init', mem(K.y)))] if K.y is not None else [])
            if n in docs:
                R.ok('%s: one position per document' % name)
            elif n.op == 'E' and n.args[0] in ('rows', 'size') and from_param(n.args[1], K.X) or \
                    any(set(poly(n)) - {frozenset()} == set(poly(d)) and poly(n).get(frozenset(), 0) for d in docs):
                R.violation(K.ctor['qname'], 'the permutation has %s entries' % show(n, 3), K.ctor['file'], K.ctor['line'], key='entries')
            else:
                R.unsure('%s: %s positions' % (name, show(n, 3)))
        # shuffling changes it
        if K.g1 is not None:
            a, b = [index_of(K.doc(g, 'get_words')[0], K.X, ('col', 'row')) for _, g in K.views]
            if a is not None and a == b:
                R.violation(K.cls + '::shuffle', 'shuffling does not change which document a position names', K.at['file'], K.at['line'], key='no-shuffle')
            elif a is not None:
                R.ok('%s: shuffle permutes the positions' % K.cls.split('::')[-1])


@rule('C15', 'size', 'a corpus has as many positions as documents')
def r_size(C, R):
    for K in built(C, R):
        name = K.cls.split('::')[-1]
        if K.gs is None or K.gs.root.ret is None:
            R.unsure('%s: size' % name)
            continue
        t = K.gs.N(K.gs.root.ret)
        ok = [('cols', K.X), ('rows', K.y), ('size', K.y)]
        while t.op == 'E' and t.args[0] == 'size' and t.args[1].op == 'algo':
            t = K.gs.N(K.gs.I.size_of(t.args[1]))
        if t.op == 'E' and any(t.args[0] == o and p is not None and from_param(t.args[1], p) for o, p in ok):
            R.ok('%s: size' % name)
        elif t.op == 'E' and t.args[0] in ('rows', 'size') and from_param(t.args[1], K.X) or \
                len([1 for k in poly(t) if k]) == 1 and poly(t).get(frozenset(), 0) and \
                any(s.op == 'E' and s.args[0] == 'cols' and from_param(s.args[1], K.X) for s in subterms(t)):
            R.violation(K.cls + '::size', 'the number of documents is %s' % show(t, 3), K.at['file'], K.at['line'], key='size')
        else:
            R.unsure('%s: size is %s' % (name, show(t, 3)))


@rule('C15', 'caller data', 'no method of a corpus writes the words or labels it was given')
def r_const(C, R):
    for K in built(C, R):
        bad = False
        for g in [K.g0, K.g1, K.gs] + [x for _, x in K.views]:
            if g is None:
                continue
            for n in g.ops('write', 'call'):
                if n.op.kind == 'write':
                    l = n.op.loc
                    while l is not None and l.op == 'v':
                        l = l.args[0]
                    if l in (mem(K.X), mem(K.y) if K.y is not None else None):
                        bad = True
                        R.at(n, 'the data of the caller are changed', key='write', fn=K.cls)
                elif n.op.child is None and not (n.op.name or '').startswith('Eigen'):
                    for i, a in enumerate(n.op.locs or ()):
                        if a is not None and is_loc(a) and a == mem(K.X):
                            pass
        if not bad:
            R.ok('%s leaves the data alone' % K.cls.split('::')[-1])


def carries(g, v, t, seen=None):
    """v is computed from t, through merges"""
    seen = set() if seen is None else seen
    for s in subterms(v):
        if s == t:
            return True
        if s.op == 'phi' and s not in seen:
            seen.add(s)
            if any(carries(g, x, t, seen) for x in g.I.phis.get(s, {}).values()):
                return True
    return False


def leaves_of(g, t, depth=0):
    """values a non-loop merge can have"""
    if t.op == 'ite':
        return leaves_of(g, t.args[1], depth + 1) + leaves_of(g, t.args[2], depth + 1)
    if t.op == 'phi' and depth < 5:
        vs = list(g.I.phis.get(t, {}).values())
        if vs and not any(carries(g, v, t) for v in vs):
            return [x for v in vs for x in leaves_of(g, v, depth + 1)]
    return [t]


@rule('C15', 'class priors', 'the prior of a class is the number of documents with that label over the number of labelled documents')
def r_priors(C, R):
    n_ = 0
    for K in built(C, R):
        if K.y is None:
            continue
        fs = methods(C, K.cls, 'get_prior')
        if not fs:
            continue
        n_ += 1
        g = K.g0
        f = fs[0]
        h = C.run(f, this=K.this, state=K.s0, tag='prior%d' % K.k)
        t = h.root.ret
        name = K.cls.split('::')[-1]
        arg = T('param', f['key'], f['params'][0]['name'])
        if t is None or t.op != 'E' or t.args[0] not in ('at', 'row'):
            R.unsure('%s: prior is %s' % (name, show(t, 3) if t is not None else None))
            continue
        if h.N(t.args[2]) != arg:
            if poly(h.N(t.args[2])).get(frozenset(), 0) and arg in set(subterms(t.args[2])):
                R.violation(f['qname'], 'the prior of class y is entry %s' % show(t.args[2], 3), f['file'], f['line'], key='prior-index')
            else:
                R.unsure('%s: prior of %s' % (name, show(t.args[2], 3)))
            continue
        div = False
        for v in leaves_of(g, t.args[1]):
            counts, total = v, None
            if v.op == 'op' and v.args[0] == '/':
                counts, total = v.args[1], v.args[2]
                div = True
            elif v.op == 'op' and v.args[0] == '*' and len(v.args) == 3:
                R.unsure('%s: priors are %s' % (name, show(v, 4)))
                div = True
                continue
            if counts.op != 'phi':
                R.unsure('%s: counts are %s' % (name, show(counts, 3)))
                div = True
                continue
            if total is not None:
                tt = g.N(total)
                if tt.op == 'E' and tt.args[0] == 'sum' and tt.args[1] == g.N(counts):
                    R.ok('%s: priors sum to one' % name)
                elif tt.op == 'E' and tt.args[0] in ('rows', 'size', 'cols') and tt.args[1].op == 'init':
                    R.violation(K.ctor['qname'], 'the label counts are divided by %s, which counts documents without a label as well' % show(tt, 3),
                                K.ctor['file'], K.ctor['line'], key='prior-total')
                elif tt.op == 'phi':
                    R.ok('%s: priors are divided by a count' % name)
                else:
                    R.unsure('%s: counts are divided by %s' % (name, show(tt, 3)))
            count_loop(C, R, K, g, counts, name)
        if not div:
            R.violation(K.ctor['qname'], 'the label counts are not divided by their total', K.ctor['file'], K.ctor['line'], key='prior-total')
    if not n_:
        raise AnalysisBroken('no corpus with class priors')


def count_loop(C, R, K, g, counts, name):
    """counts is a loop carried vector: zero, then one more at the label of every labelled document"""
    f = K.ctor
    # writes inside the loop
    ws = [n for n in g.ops('write') if n.op.loc is not None and n.op.loc.op == 'v' and n.op.loc.args[1] == 'at' and
          n.op.obj is not None and counts in set(subterms(n.op.obj))]
    ini = [v for v in g.I.phis.get(counts, {}).values() if not carries(g, v, counts)]
    for v in ini:
        z = v.op == 'filled' and v.args[0] == T('const', 0) or v.op == 'S' and 'Zero' in v.args or v.op == 'filled' and v.args[0].op == 'const' and v.args[0].args[0] == 0
        if v.op == 'filled' and v.args[0].op == 'const' and v.args[0].args[0] != 0 or v.op == 'S' and 'Ones' in v.args:
            R.violation(f['qname'], 'the label counts do not start from zero', f['file'], f['line'], key='prior-init')
        elif v.op == 'alloc':
            R.violation(f['qname'], 'the label counts start from memory that was never written', f['file'], f['line'], key='prior-init')
        elif z:
            R.ok('%s: counts start from zero' % name)
        else:
            R.unsure('%s: counts start from %s' % (name, show(v, 3)))
    for w in ws:
        i = g.N(w.op.loc.args[2])
        li = index_of(i, K.y, ('at', 'row'))
        if li is None:
            R.unsure('%s: counted at %s' % (name, show(i, 3)))
            continue
        if w.op.how == '+=' and w.op.val is not None and w.op.val.op == 'const':
            if w.op.val.args[0] != 1:
                R.at(w, 'a document is counted as %s' % w.op.val.args[0], key='prior-one', fn=f['qname'])
            else:
                R.ok('%s: each document counts once' % name)
        ok = None
        for l in g.enclosing_loops(w.i):
            for d in l.tests():
                if d.get('phi') == li and d.get('trips') is not None:
                    tr = lin_term(d['trips'])
                    docs = [T('E', 'cols', T('init', mem(K.X))), T('E', 'rows', T('init', mem(K.y))), T('E', 'size', T('init', mem(K.y)))]
                    if g.N(tr) in docs and d['init'] == T('const', 0):
                        ok = True
                    elif any(set(poly(g.N(tr))) - {frozenset()} == set(poly(x)) for x in docs):
                        R.at(w, 'only the labels from %s on are counted (%s of them)' % (show(d['init'], 2), show(tr, 3)), key='prior-all', fn=f['qname'])
                        ok = False
        if ok:
            R.ok('%s: all labels are counted' % name)
        elif ok is None:
            R.unsure('%s: loop over the labels' % name)
        # nothing but the sign of the label decides whether it is counted
        for v in (0, 1, 3):
            if not feasible(g, g.facts_at(w.i), i, v):
                R.at(w, 'documents of class %d are not counted' % v, key='prior-class', fn=f['qname'])
                break


# -- labels ---------------------------------------------------------------------

def evaluate(t, x, v):
    """value of t when x is the integer v, None if unknown"""
    if t == x:
        return v
    if t.op == 'const' and isinstance(t.args[0], (int, float, bool)):
        return t.args[0]
    if t.op == 'op':
        a = [evaluate(s, x, v) for s in t.args[1:]]
        o = t.args[0]
        if o == '!' and a[0] is not None:
            return not a[0]
        if o == 'neg' and a[0] is not None:
            return -a[0]
        if o == '&&':
            return False if False in a else True if all(a) and None not in a else None
        if o == '||':
            return True if any(s for s in a if s is not None) else None if None in a else False
        if len(a) == 2 and None not in a:
            p, q = a
            try:
                return {'<': p < q, '<=': p <= q, '==': p == q, '!=': p != q, '>': p > q, '>=': p >= q, '+': p + q, '-': p - q, '*': p * q,
                        'max': max(p, q), 'min': min(p, q)}[o]
            except KeyError:
                return None
    if t.op == 'ite':
        c = evaluate(t.args[0], x, v)
        if c is not None:
            return evaluate(t.args[1] if c else t.args[2], x, v)
    if t.op == 'call' and t.args[0] in ('signbit', 'std::signbit') and evaluate(t.args[1], x, v) is not None:
        return evaluate(t.args[1], x, v) < 0
    return None


def settle(t, x, v):
    """t with the choices that the value of x decides made"""
    if not isinstance(t, Term):
        return t
    if t.op == 'ite':
        c = evaluate(t.args[0], x, v)
        if c is not None:
            return settle(t.args[1] if c else t.args[2], x, v)
    if t.op in ('mem', 'init', 'addr', 'f', 'v', 'ite', 'op', 'E'):
        return T(t.op, *[settle(a, x, v) for a in t.args])
    return t


def feasible(g, facts, x, v):
    return not any(evaluate(f, x, v) in (False, 0) and evaluate(f, x, v) is not None for f in facts)


def label_values(g, x):
    """integers that tell the regions of every comparison with the label apart"""
    vs = {-2, -1, 0, 1, 2}
    for es in g.succ:
        for v, f, k in (es if not isinstance(es, int) else g.succ[es]):
            if f is not None and x in set(subterms(f)):
                for s in subterms(f):
                    if s.op == 'const' and isinstance(s.args[0], int) and not isinstance(s.args[0], bool) and abs(s.args[0]) < 10 ** 6:
                        vs |= {s.args[0] - 1, s.args[0], s.args[0] + 1}
    return sorted(vs)


def label_edges(g, x, v):
    def ok(u, w, fact, kind):
        if fact is None:
            return True
        r = evaluate(fact, x, v)
        return r is None or bool(r)
    return ok


def class_of(g):
    """the term for the label of the document being processed"""
    for n in g.ops('call'):
        if (n.op.name or '').endswith('ClassificationDocument::get_class') and n.op.res is not None:
            return n.op.res
    return None


@rule('C16', 'expectation', 'the semi-supervised expectation step hands a document to the supervised step exactly when its label is not negative, '
      'otherwise to the unsupervised one')
def r_semi_e(C, R):
    fs = [f for f in C.overrides('em::EStepInterface::doc_e_step') if f['qname'] == NS + 'em::SemiSupervisedEStep::doc_e_step']
    if not fs:
        raise AnalysisBroken('SemiSupervisedEStep::doc_e_step not found')
    for f in fs:
        cls = Interp.ckey(f)
        ctor = [c for c in C.F.functions.values() if c['qname'] == NS + 'em::SemiSupervisedEStep::SemiSupervisedEStep' and Interp.ckey(c) == cls]
        if not ctor or len(ctor[0]['params']) < 2:
            R.unsure('constructor of %s' % cls)
            continue
        c = ctor[0]
        g0 = C.run(c)
        sup, uns = [T('param', c['key'], p['name']) for p in c['params'][:2]]
        g = C.run(f, this=g0.root.this, state=g0.root.exit_state, tag='semi')
        x = class_of(g)
        if x is None:
            R.violation(f['qname'], 'the label of the document is not looked at', f['file'], f['line'], key='label')
            continue
        calls = [n for n in g.ops('call') if short_name(n.op) == 'doc_e_step' and n.op.obj is not None]
        for v in label_values(g, x):
            live = g.reach([g.entry], exc=False, edge_ok=label_edges(g, x, v))
            got = [n for n in calls if n.i in live]
            want, other = (sup, uns) if v >= 0 else (uns, sup)
            kinds = []
            for n in got:
                ob = set(subterms(settle(n.op.obj, x, v)))
                k = [w for w, q in (('supervised', sup), ('unsupervised', uns)) if q in ob]
                kinds.append(k[0] if len(k) == 1 else None)
            wk = 'supervised' if v >= 0 else 'unsupervised'
            bad = [n for n, k in zip(got, kinds) if k is not None and k != wk]
            if bad:
                R.at(bad[0], 'a document with label %d is processed by the %s step' % (v, 'unsupervised' if v >= 0 else 'supervised'),
                     key='e:%s' % ('labelled' if v >= 0 else 'unlabelled'), fn=f['qname'])
                break
            if not got and g.exit in live:
                R.violation(f['qname'], 'a document with label %d is processed by neither step' % v, f['file'], f['line'], key='e-none')
                break
            if None in kinds or not got:
                R.unsure('label %d: %s' % (v, kinds))
                continue
            rets = [n for n in g.ops('ret') if n.i in live and n.frame is g.root]
            if rets and not any(n.op.val == m.op.res or n.op.val.op in ('phi', 'ite') for n in rets for m in got):
                R.at(rets[0], 'what the step computed for a document with label %d is not returned' % v, key='e-ret', fn=f['qname'])
                break
            R.ok('%s: label %d goes to the %s step' % (cls.replace(NS, ''), v, wk))


def reached(g0, t, out, depth=0):
    """caller's values and newly created steps that may be in t"""
    if depth > 12 or not isinstance(t, Term) or t in out:
        return out
    out.add(t)
    if t.op == 'phi' and t in g0.I.phis:
        for v in g0.I.phis[t].values():
            reached(g0, g0.N(v), out, depth + 1)
    for a in t.args:
        if isinstance(a, Term) and t.op not in ('obj', 'param'):
            reached(g0, a, out, depth + 1)
    return out


@rule('C16', 'built steps', 'the semi-supervised expectation step the builder creates processes unlabelled documents with the step given (or created) '
      'as the unsupervised one and labelled documents with the supervised one')
@rule('C09', 'semi-supervised steps', 'the supervised and the unsupervised step given to the builder take the roles they are given for')
def r_semi_built(C, R):
    from rules.r_params import made
    for sc in C.scalars:
        for q in ('get_semi_supervised_e_step', 'set_semi_supervised_e_step'):
            for b in C.fns('LDABuilder::' + q, sc):
                if len(b['params']) != 2:
                    continue
                M = made(C, b)
                if M.obj is None:
                    R.unsure('%s does not create one step' % q)
                    continue
                sup, uns = M.ps
                for f in M.methods():
                    if f['qname'].split('::')[-1] != 'doc_e_step':
                        continue
                    g = M.run(f)
                    x = class_of(g)
                    if x is None:
                        R.unsure('%s: the label is not looked at' % f['qname'])
                        continue
                    for v in (-1, 0, 1):
                        live = g.reach([g.entry], exc=False, edge_ok=label_edges(g, x, v))
                        want, other = (sup, uns) if v >= 0 else (uns, sup)
                        for n in g.ops('call'):
                            if n.i not in live or short_name(n.op) != 'doc_e_step' or n.op.obj is None:
                                continue
                            ts = reached(M.g, settle(n.op.obj, x, v), set())
                            made_ = {rec_of(t.args[2]).split('::')[-1] for t in ts if t.op == 'obj' and
                                     rec_of(str(t.args[2])).startswith(NS + 'em::') and t is not M.obj}
                            wrongly = [c for c in made_ if (c == 'UnsupervisedEStep') == (v >= 0)]
                            if other in ts and want not in ts:
                                R.violation(b['qname'], 'documents with label %d go to the step given as %s' % (v, other.args[1]), b['file'],
                                            b['line'], key='semi%s' % ('+' if v >= 0 else '-'))
                            elif want not in ts:
                                R.unsure('%s: label %d: %s' % (q, v, show(n.op.obj, 4)))
                            elif other not in ts and wrongly:
                                R.violation(b['qname'], 'without a step given, documents with label %d go to a new %s' % (v, wrongly[0]),
                                            b['file'], b['line'], key='semidefault%s' % ('+' if v >= 0 else '-'))
                            elif other in ts:
                                R.unsure('%s: label %d reaches either step' % (q, v))
                            else:
                                R.ok('%s: label %d goes to %s' % (q, v, want.args[1]))


def member_writes(g, live, this):
    out = {}
    for n in g.ops('write'):
        if n.i not in live or n.op.loc is None:
            continue
        l = n.op.loc
        while l.op == 'v':
            l = l.args[0]
        if l.op == 'f' and l.args[0] == mem(this):
            out.setdefault(l.args[1], []).append(n)
    return out


@rule('C16', 'maximization', 'in the semi-supervised maximization step a document without a label adds to what the unsupervised step gathers and to '
      'nothing else, a labelled one is gathered with its label')
def r_semi_m(C, R):
    fs = [f for f in C.overrides('em::MStepInterface::doc_m_step') if f['qname'] == NS + 'em::SemiSupervisedMStep::doc_m_step']
    if not fs:
        raise AnalysisBroken('SemiSupervisedMStep::doc_m_step not found')
    for f in fs:
        cls = Interp.ckey(f)
        g = C.run(f)
        this = g.root.this
        sc = 'float' if '<float>' in cls else 'double'
        un = [u for u in C.overrides('em::MStepInterface::doc_m_step') if u['qname'] == NS + 'em::UnsupervisedMStep::doc_m_step' and sc in Interp.ckey(u)]
        topic = None
        if un:
            gu = C.run(un[0])
            topic = set(member_writes(gu, set(range(len(gu.nodes))), gu.root.this))
        x = class_of(g)
        if x is None:
            R.violation(f['qname'], 'the label of the document is not looked at', f['file'], f['line'], key='label')
            continue
        neg_fields = None
        for v in label_values(g, x):
            live = g.reach([g.entry], exc=False, edge_ok=label_edges(g, x, v))
            w = member_writes(g, live, this)
            lab = [n for ns in w.values() for n in ns if n.op.val is not None and x in set(subterms(n.op.val)) or
                   n.op.loc is not None and x in set(subterms(n.op.loc))]
            if v < 0:
                extra = [n for k, ns in w.items() if topic is not None and k not in topic for n in ns]
                if lab or extra:
                    n = (lab or extra)[0]
                    R.at(n, 'a document with label %d changes the statistics of labelled documents' % v, key='m-unlabelled', fn=f['qname'])
                    break
                if not w:
                    R.violation(f['qname'], 'a document with label %d does not contribute to the topics' % v, f['file'], f['line'], key='m-topics')
                    break
                neg_fields = set(w)
                R.ok('%s: label %d only reaches the topics' % (cls.replace(NS, ''), v))
            else:
                if not lab:
                    R.violation(f['qname'], 'the label of a document with label %d is not gathered' % v, f['file'], f['line'], key='m-labelled')
                    break
                if topic is not None and not topic <= set(w):
                    R.violation(f['qname'], 'a document with label %d does not contribute to the topics' % v, f['file'], f['line'], key='m-topics')
                    break
                R.ok('%s: label %d is gathered' % (cls.replace(NS, ''), v))
        # every path of a labelled document gathers it, exactly once
        marks = [n.i for ns in member_writes(g, set(range(len(g.nodes))), this).values() for n in ns if n.op.val is not None and n.op.val == x]
        if marks:
            live = g.reach([g.entry], exc=False, edge_ok=label_edges(g, x, 1))
            pc = g.path_counts(marks, restrict=live)
            if pc and 0 in pc and 1 not in pc:
                R.violation(f['qname'], 'a labelled document is not gathered', f['file'], f['line'], key='m-labelled')
            elif pc and (0 in pc or 2 in pc):
                R.unsure('%s: labelled documents are gathered %s times' % (cls, sorted(pc)))


def label_vectors(f):
    return [T('param', f['key'], p['name']) for p in f['params'] if 'Eigen::Matrix<int,-1,1' in p['t']]


@rule('C16', 'indexing', 'a label taken from a vector of labels is used as an index only where it is known not to be negative')
def r_label_index(C, R):
    todo = [(C, f) for f in C.F.functions.values()]
    seen = set()
    for unit in sorted(C.F.apps):
        A = app_ctx(C, unit)
        if A is None:
            continue
        todo += [(A, f) for f in A.F.functions.values()]
    for D, f in todo:
        ys = label_vectors(f)
        if not ys or f['key'] in seen or not f.get('blocks'):
            continue
        if f['file'].startswith('/usr') or 'lambda@' in f['key']:
            continue
        if f['qname'].startswith(NS) and not f['qname'].startswith(NS + 'corpus::'):
            # the optimization problems only ever get the labels that were gathered from labelled documents
            continue
        seen.add(f['key'])
        g = D.run(f)
        for n in g.ops('index', 'view'):
            for a in n.op.args or ():
                a = g.N(a)
                labs = [s for s in subterms(a) if s.op == 'E' and s.args[0] in ('at', 'row') and len(s.args) == 3 and
                        any(from_param(s.args[1], y) for y in ys)]
                # the element of a range based loop
                if not labs:
                    continue
                x = labs[0]
                facts = g.facts_at(n.i)
                about = [t for t in facts if x in set(subterms(t))]
                if all(feasible(g, facts, x, v) for v in (-1, -2)):
                    if any(evaluate(t, x, -1) is None for t in about):
                        R.unsure('%s: %s' % (f['qname'], show(a, 3)))
                    else:
                        R.at(n, 'a negative label indexes %s' % show(n.op.loc, 2), key='index', fn=f['qname'])
                elif feasible(g, facts, x, -1) or feasible(g, facts, x, -2):
                    R.at(n, 'some negative labels index %s' % show(n.op.loc, 2), key='index', fn=f['qname'])
                elif not feasible(g, facts, x, 0):
                    R.at(n, 'documents of class 0 are treated as if they had no label', key='zero', fn=f['qname'])
                else:
                    R.ok('%s: label is not negative at %s:%s' % (f['qname'].replace(NS, ''), rel(f['file']), n.op.line))


def outcomes(t, x, v):
    if isinstance(t, Term) and t.op == 'ite':
        c = evaluate(t.args[0], x, v)
        out = set()
        if c is not False:
            out |= outcomes(t.args[1], x, v)
        if c is not True:
            out |= outcomes(t.args[2], x, v)
        return out
    return {evaluate(t, x, v)}


@rule('C16', 'sizes', 'the number of classes a corpus allocates for is not negative when no document has a label')
def r_label_sizes(C, R):
    for f in C.F.functions.values():
        if not f['qname'].startswith(NS + 'corpus::') or not label_vectors(f):
            continue
        g, seen = C.run(f), set()
        for n in g.ops('write', 'call'):
            for v in [n.op.val, n.op.res] + list(n.op.args or ()):
                for s in subterms(g.N(v)) if isinstance(v, Term) else ():
                    if s.op not in ('alloc', 'sized', 'M', 'E0', 'S') or s in seen:
                        continue
                    seen.add(s)
                    for d in s.args:
                        xs = [x for x in subterms(d) if x.op == 'E' and x.args[0] == 'maxCoeff' and any(from_param(x.args[1], y) for y in label_vectors(f))] \
                            if isinstance(d, Term) and d.op in ('op', 'ite', 'E') else ()
                        for x in xs[:1]:
                            facts = g.facts_at(n.i)
                            bad = [v for v in (-2, -3) if feasible(g, facts, x, v) and any(r is not None and r < 0 for r in outcomes(d, x, v))]
                            if bad:
                                R.at(n, 'memory for %s classes is allocated, a negative number when every label is below -1' % show(d, 3), key='size', fn=f['qname'])
                            elif any(None in outcomes(d, x, v) for v in (-2, -3)):
                                R.unsure('%s: size %s' % (f['qname'], show(d, 4)))
                            else:
                                R.ok('%s: room for the classes' % f['qname'].replace(NS, ''))


def app_ctx(C, unit):
    """a context over one application"""
    c = C.__dict__.setdefault('_appctx', {})
    if unit not in c:
        D = Ctx.__new__(Ctx)
        D.__dict__.update(C.__dict__)
        D.F = C.F.app(unit)
        D._g = {}
        D.base = Interp(D.F)
        c[unit] = D
    return c[unit]


# -- randomness -------------------------------------------------------------------

GLOBAL_GENERATORS = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'erand48', 'rand_r', 'std::rand', 'std::srand',
                     'arc4random', 'getrandom', 'getentropy'}
AMBIENT = ('std::time', 'time', 'std::clock', 'clock', 'gettimeofday', 'clock_gettime', 'getpid', 'gettid', 'pthread_self',
           'std::this_thread::get_id', 'std::thread::get_id', 'std::thread::hardware_concurrency', 'std::getenv', 'getenv')


def own(f):
    return not f['file'].startswith('/usr') and '/docopt' not in f['file']


def all_functions(C):
    seen = set()
    for f in C.F.functions.values():
        if own(f) and f.get('blocks'):
            seen.add(f['key'])
            yield C, f
    for unit in sorted(C.F.apps):
        A = app_ctx(C, unit)
        for k, f in sorted(C.F.apps[unit]['functions'].items()):
            if own(f) and f.get('blocks') and k not in seen:
                seen.add(k)
                yield A, f


def ambient(name):
    name = name or ''
    return name in AMBIENT or name.startswith('std::chrono') and name.endswith('::now') or 'random_device' in name or name.startswith('std::hash')


@rule('C17', 'sources', 'no function draws from a global generator, a random device or an algorithm that uses one')
def r_sources(C, R):
    n_ = 0
    for D, f in all_functions(C):
        n_ += 1
        for i, n in f['nodes'].items():
            nm = n.get('n') or ''
            bad = None
            if n.get('k') in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                if nm in GLOBAL_GENERATORS:
                    bad = nm
                elif nm == 'std::random_shuffle' and len(n.get('a', ())) < 3:
                    bad = nm
                elif nm.startswith('Eigen::') and nm.split('::')[-1] in ('Random', 'setRandom', 'UnitRandom', 'RandomVectorXd'):
                    bad = nm
                elif 'std::random_device' in nm or 'std::random_device' in str(n.get('t', '')) and n.get('k') in ('CXXConstructExpr',):
                    bad = 'std::random_device'
            if bad:
                R.violation(f['qname'], 'draws from %s, which no caller seeds' % bad, f['file'], n.get('l') or f['line'], key='source:' + bad)
    R.ok('%d functions call no global generator' % n_)


def makes_engine(f):
    for n in f['nodes'].values():
        nm = n.get('n') or ''
        p = nm.split('::')
        if len(p) >= 2 and p[0] == 'std' and (p[-1] in ENGINE or p[-1] == 'seed'):
            return True
        if n.get('k') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and any('std::' + e in str(n.get('t', '')) for e in ENGINE):
            return True
        if n.get('n') in ('std::make_shared', 'std::make_unique') and any(e in str(n.get('fa', '')) for e in ENGINE):
            return True
    return False


def engine_ctors(g):
    for n in g.ops('call'):
        if std_ctor(n, ENGINE) and 'random_device' not in (n.op.name or ''):
            yield n, (n.op.args[0] if n.op.args else None)
        elif (n.op.name or '').startswith('std::') and short(n.op.name) == 'seed' and n.op.obj is not None:
            yield n, (n.op.args[0] if n.op.args else None)


def is_ctor(f):
    q = f['qname'].split('::')
    return len(q) >= 2 and q[-1] == q[-2]


@rule('C17', 'seeds', 'every generator is seeded from a parameter or a fixed value, never from time, threads, addresses or a device, and is not '
      'seeded again between draws')
def r_seeds(C, R):
    n_ = 0
    for D, f in all_functions(C):
        if not makes_engine(f):
            continue
        for n in f['nodes'].values():
            if any((m.get('n') or '').endswith('::seed') for m in f['nodes'].values()):
                break
            if n.get('sl') and any(e in str(n.get('gt', '')) + str(n.get('t', '')) for e in ENGINE):
                R.violation(f['qname'], 'the generator %s keeps its state from one call to the next: only the first call seeds it'
                            % str(n.get('g', '')).split('::')[-1], f['file'], n.get('l') or f['line'], key='static')
                break
        g = D.run(f)
        for n, s in engine_ctors(g):
            if n.frame is not g.root and makes_engine(n.frame.fn) and n.frame.fn['key'] != f['key']:
                pass
            n_ += 1
            if s is not None:
                amb = [x for x in subterms(s) if x.op in ('call', 'res', 'new') and any(ambient(a) for a in x.args if isinstance(a, str))]
                adr = [x for x in subterms(s) if x.op == 'this' or x.op == 'addr' and x == s]
                if amb:
                    R.at(n, 'a generator is seeded from %s' % show(amb[0], 2), key='ambient', fn=f['qname'])
                    continue
                if s.op in ('addr', 'this'):
                    R.at(n, 'a generator is seeded from an address', key='address', fn=f['qname'])
                    continue
            if s is None and short(n.op.name) != 'seed' and any(short(m.op.name or '') == 'seed' for m in g.ops('call')):
                # made first, seeded later
                R.ok('%s: generator seeded later' % f['qname'].replace(NS, ''))
                continue
            # engine made again and again with the same seed
            lps = g.enclosing_loops(n.i)
            if lps and (s is None or not any(x.op in ('phi', 'res', 'eff') for x in subterms(s))):
                R.at(n, 'the generator is seeded with the same value on every iteration', key='reseed-loop', fn=f['qname'])
                continue
            root = g.root.fn
            if not is_ctor(root) and not any(x.op == 'param' for x in (subterms(s) if s is not None else ())) and \
                    root['qname'] != 'main' and root.get('cls') and \
                    (s is None or any(x.op == 'init' for x in subterms(s)) or s.op == 'const') and n.frame is g.root:
                R.at(n, 'the generator is seeded with the same value on every call', key='reseed', fn=f['qname'])
                continue
            R.ok('%s: generator seeded with %s' % (f['qname'].replace(NS, ''), show(s, 2) if s is not None else 'the default'))
    if not n_:
        raise AnalysisBroken('no generator found')


@rule('C17', 'random states', 'every random state a caller can give reaches the generator of its component unchanged')
def r_states(C, R):
    n_ = 0
    for D, f in all_functions(C):
        ps = [p for p in f['params'] if 'random_state' in p['name'] or p['name'] == 'seed']
        if not ps or 'lambda@' in f['key']:
            continue
        g = D.run(f)
        for p in ps:
            n_ += 1
            t = T('param', f['key'], p['name'])
            got = [s for n, s in engine_ctors(g) if s is not None]
            passed = [a for n in g.ops('call') if n.op.child is None and not std_ctor(n, ENGINE) for a in (n.op.args or ()) if a == t]
            stored = [n for n in g.ops('write') if n.op.val is not None and n.op.val == t and n.op.loc is not None and n.op.loc.op == 'f' and n.frame is g.root]
            if t in got or passed:
                R.ok('%s: %s' % (f['qname'].replace(NS, ''), p['name']))
            elif any(t in set(subterms(s)) for s in got):
                ch = [s for s in got if t in set(subterms(s))]
                if any(x.op in ('this', 'addr', 'alloc') for s in ch for x in subterms(s)):
                    R.violation(f['qname'], 'the generator is seeded with the address of an object besides %s' % p['name'], f['file'],
                                f['line'], key='address seed %s' % p['name'])
                elif any(x.op == 'op' and x.args[0] in ('*', '/', '%', '&', '|', '>>', '<<') and t in set(subterms(x)) for s in ch for x in subterms(s)):
                    R.violation(f['qname'], 'different values of %s give the generator the same seed' % p['name'], f['file'], f['line'],
                                key='lossy seed %s' % p['name'])
                else:
                    R.unsure('%s: %s is changed before it seeds the generator' % (f['qname'], p['name']))
            elif stored:
                R.unsure('%s: %s is stored' % (f['qname'], p['name']))
            else:
                R.violation(f['qname'], '%s reaches no generator' % p['name'], f['file'], f['line'], key='state:' + p['name'])
    if not n_:
        raise AnalysisBroken('no random state parameter found')


def is_engine_type(t):
    return any(e in (t or '') for e in ENGINE)


@rule('C17', 'advancing', 'draws advance the generator they are meant to use: none is made from a copy of a generator that lives on')
def r_copies(C, R):
    n_ = 0
    for D, f in all_functions(C):
        if not any('std::shuffle' == (n.get('n') or '') or '_distribution::operator()' in (n.get('n') or '') or
                   any((n.get('n') or '').endswith(e + '::operator()') for e in ENGINE) for n in f['nodes'].values()):
            continue
        g = D.run(f)
        for n in g.ops('call'):
            o = n.op
            nm = o.name or ''
            if n.frame is not g.root:
                continue
            loc = None
            if nm == 'std::shuffle' and len(o.locs or ()) == 3:
                loc, val = o.locs[2], o.args[2]
            elif '_distribution::operator()' in nm and o.locs:
                loc, val = o.locs[0], o.args[0]
            elif any(nm.endswith(e + '::operator()') for e in ENGINE):
                loc, val = o.obj, None
            if loc is None or not is_loc(loc):
                continue
            n_ += 1
            if loc.op in ('var', 'tmp'):
                src = None
                for w in g.ops('write'):
                    if w.op.loc == loc and w.op.how == 'init' and w.op.val is not None:
                        src = w.op.val
                if loc.op == 'tmp' and val is not None:
                    src = src or val
                if src is not None and src.op == 'init' and src.args[0].op in ('f', 'mem') and (is_engine_type(ctype(C, src.args[0]))):
                    R.at(n, 'the numbers are drawn from a copy of a generator that itself never advances', key='copy', fn=f['qname'])
                    continue
            R.ok('%s: draws from the generator itself' % f['qname'].replace(NS, ''))
    if not n_:
        raise AnalysisBroken('no draw found')


def ctype(C, l):
    if l.op == 'f':
        for r in C.F.records.values():
            if rec_of(r['qname']) == rec_of(str(l.args[2])) or r['qname'] == rec_of(str(l.args[2])):
                for x in r['fields']:
                    if x['name'] == l.args[1]:
                        return x['t']
    return ''
