"""C26: topic, class and assignment distributions are normalised along the right axis."""
from common import *
from rules.r_params import poly
from rules.r_numeric import strip_views
from rules.r_corpus import evaluate
from rules.r_model import mstep_classes

OTHER = {'row': 'col', 'col': 'row'}


def plain(t):
    while t.op == 'E' and t.args[0] in ('array', 'cast', 'matrix', 'eval', 'noalias', 'derived') and len(t.args) >= 2:
        t = t.args[1]
    return t


def edge_facts(g, p, key):
    """what is known on the way into the join"""
    fr = next((x for x in g.I.frame_list if x.id == p.args[0]), None)
    if fr is None:
        return []
    b, i = key
    ns = [n for n in g.nodes if n.frame is fr and n.block == b]
    if not ns:
        return []
    fs = set(g.facts_at(ns[-1].i))
    e = fr.blocks[b][1]
    if i < len(e) and isinstance(e[i][1], Term):
        fs.add(g.N(e[i][1]))
    return fs


def loop_at(g, p):
    if not isinstance(p.args[0], int):
        return None
    fr = next((x for x in g.I.frame_list if x.id == p.args[0]), None)
    if fr is None:
        return None
    return next((l for l in g.loops(fr) if l.head == p.args[1]), None)


def sum_of(t):
    """the term that t is the sum of all entries of, or None"""
    t = plain(t)
    if t.op == 'E' and t.args[0] == 'sum' and len(t.args) == 2:
        return plain(t.args[1])
    return None


class Norm(object):
    def __init__(self, g, axis, axiom):
        self.g, self.axis, self.axiom = g, axis, axiom
        self.busy = set()

    # -- verdicts are (v, why): v True, False or None
    def all_of(self, rs):
        rs = list(rs)
        for v in (False, None):
            for r in rs:
                if r[0] is v:
                    return r
        return (True, None)

    def __call__(self, t, assume=frozenset()):
        g = self.g
        t = plain(g.N(t))
        if t in assume or self.axiom(t):
            return (True, None)
        if t.op == 'phi' and t in g.I.phis:
            if t in self.busy:
                return (None, 'cyclic')
            self.busy.add(t)
            try:
                return self.joined(t, assume)
            finally:
                self.busy.discard(t)
        if t.op == 'ite':
            return self.all_of(self(x, assume) for x in t.args[1:])
        if t.op == 'upd':
            return self.updated(t, assume)
        if t.op == 'S' and t.args[1] == 'Constant':
            v, dims = t.args[-1], t.args[2:-1]
            if len(dims) == 2:
                n = dims[1] if self.axis == 'row' else dims[0]
            elif len(dims) == 1:
                n = dims[0] if self.axis == 'col' else const(1)
            else:
                return (None, 'filled')
            q = poly(g.N(T('op', '*', v, n)))
            if q == {frozenset(): 1}:
                return (True, None)
            o = dims[1] if self.axis == 'col' and len(dims) == 2 else dims[0]
            if v.op == 'const' or poly(g.N(T('op', '*', v, o))) == {frozenset(): 1}:
                return (False, 'is filled with %s, which does not add up to one' % show(v, 3))
            return (None, 'filled with %s' % show(v, 3))
        if t.op == 'S' and t.args[1] == 'Zero':
            return (True, None)
        r = self.quotient(t)
        if r is not None:
            return r
        r = self.convex(t, assume)
        if r is not None:
            return r
        return self.raw(t)

    def raw(self, t):
        """nothing that divides has touched it"""
        if self.divides(t):
            return (None, 'is %s' % show(t, 3)[:80])
        return (False, 'is never normalised')

    def divides(self, t, seen=None):
        """something that could have normalised it: a quotient, or anything not understood; an exponential only with a logarithm of a sum in it"""
        seen = set() if seen is None else seen
        if not isinstance(t, Term):
            return False
        t = plain(self.g.N(t))
        if t in seen:
            return False
        seen.add(t)
        if t.op in ('const', 'init', 'param', 'S', 'res', 'str', 'filled', 'alloc'):
            return False
        if t.op == 'op':
            if t.args[0] in ('/', '/='):
                return plain(t.args[2]).op != 'const' or self.divides(t.args[1], seen)
            return any(self.divides(x, seen) for x in t.args[1:])
        if t.op == 'E':
            if t.args[0] == 'unaryExpr':
                f = t.args[2] if len(t.args) > 2 else None
                if f is None or not ('Cwise' in show(f, 2)):
                    return True
                return any(s.op == 'E' and s.args[0] == 'log' and any(x.op == 'E' and x.args[0] == 'sum' for x in subterms(s))
                           for s in subterms(t.args[1])) or any(s.op in ('eff', 'algo', 'cupd') for s in subterms(t.args[1]))
            if t.args[0] in ('row', 'col', 'at', 'transpose', 'rowwise', 'colwise', 'replicate', 'abs', 'sqrt', 'exp', 'sum', 'head', 'tail', 'rows', 'cols', 'size'):
                return any(self.divides(x, seen) for x in t.args[1:2])
            return True
        if t.op == 'upd':
            return t.args[2] in ('/=', '*=') or self.divides(t.args[0], seen) or self.divides(t.args[3], seen)
        if t.op == 'phi' and t in self.g.I.phis:
            return any(self.divides(v, seen) for v in self.g.I.phis[t].values())
        if t.op == 'ite':
            return any(self.divides(x, seen) for x in t.args[1:])
        return True

    def quotient(self, t):
        """x.array().rowwise() / x.colwise().sum() and the like, or a vector over its sum"""
        if t.op != 'op' or t.args[0] != '/' or len(t.args) != 3:
            return None
        a, d = plain(t.args[1]), plain(t.args[2])
        # broadcast over the lines
        if a.op == 'E' and a.args[0] in ('rowwise', 'colwise'):
            x = plain(a.args[1])
            while d.op == 'E' and d.args[0] in ('transpose', 'array', 'replicate', 'matrix') and len(d.args) >= 2:
                d = plain(d.args[1])
            s = sum_of(d)
            if s is None or s.op != 'E' or s.args[0] not in ('rowwise', 'colwise'):
                return None
            if plain(s.args[1]) != x:
                return None
            # x.rowwise() / x.colwise().sum(): every column over its sum
            ax = 'col' if s.args[0] == 'colwise' else 'row'
            if a.args[0] == ('rowwise' if ax == 'col' else 'colwise'):
                if ax == self.axis:
                    return (True, None)
                return (False, 'is normalised over its %ss, not its %ss' % (ax, self.axis))
            return None
        s = sum_of(d)
        if s is not None and s == a:
            return (True, None) if self.vector(a) else (False, 'is divided by the sum of all of it')
        return None

    def vector(self, t):
        return self.is_vec

    is_vec = False

    def convex(self, t, assume):
        if t.op != 'op' or t.args[0] not in ('+', '-', '*'):
            return None
        q = poly(t)
        tot, parts = {}, []
        for m, c in q.items():
            ms = [x for x, k in m if k == 1 and self.matrixish(x)]
            if not m and len(q) == 2 and abs(c) > 0:
                o = [(x, y) for x, y in q.items() if x]
                if len(o[0][0]) == 1 and o[0][1] == 1 and list(o[0][0])[0][1] == 1 and self.matrixish(list(o[0][0])[0][0]) and \
                        self(list(o[0][0])[0][0], assume)[0] is True:
                    return (False, 'has %s added to every entry after it was normalised' % c)
            if len(ms) != 1:
                return None
            co = frozenset((x, k) for x, k in m if x is not ms[0])
            tot[co] = tot.get(co, 0) + c
            if abs(tot[co]) < 1e-15:
                del tot[co]
            parts.append(ms[0])
        if len(parts) < 1:
            return None
        rs = [self(x, assume) for x in parts]
        r = self.all_of(rs)
        if r[0] is not True:
            if r[0] is False and tot == {frozenset(): 1}:
                return r
            return None if r[0] is None else r
        if tot == {frozenset(): 1}:
            return (True, None)
        return (False, 'is a combination of distributions whose weights do not add up to one')

    def matrixish(self, x):
        return self.axiom(x) or (x.op == 'phi' and any(True for s in [x])) and self.is_matrix(x) or x.op in ('upd',) or x.op == 'E' and False

    def is_matrix(self, x):
        """a loop carried or merged value that is updated by lines"""
        seen, work = set(), [x]
        while work:
            y = work.pop()
            if y in seen or len(seen) > 60:
                continue
            seen.add(y)
            if y.op == 'upd' or y.op == 'S' or self.axiom(y):
                return True
            if y.op == 'phi' and y in self.g.I.phis:
                work += [self.g.N(v) for v in self.g.I.phis[y].values()]
        return False

    # -- joins and loops
    def joined(self, t, assume):
        g = self.g
        inc = {k: plain(g.N(v)) for k, v in g.I.phis[t].items()}
        l = loop_at(g, t)
        if l is None:
            arms = []
            for k, v in inc.items():
                r = self(v, assume)
                if r[0] is not True and self.is_vec and self.empty(v, t, k):
                    r = (True, None)
                arms.append(r)
            return self.all_of(arms)
        inits = [v for (b, i), v in inc.items() if b not in l.body]
        backs = [(k, v) for k, v in inc.items() if k[0] in l.body]
        backs = [(k, v) for k, v in backs if v is not t]
        ri = self.all_of(self(v, assume) for v in inits)
        if not backs:
            return ri
        rb = self.all_of(self(v, assume | {t}) for k, v in backs)
        if ri[0] and rb[0]:
            return (True, None)
        # line by line
        lines = {}
        rl = self.all_of(self.line(v, t, l, lines, k, t) for k, v in backs)
        if rl[0] is None and rb[0] is False:
            return rb
        if rl[0] is False and rb[0] is not True:
            return rl
        if not lines:
            if rb[0] is True:
                return ri
            return rb if rl[0] is not None else rl
        if rl[0] is not True:
            return ri if rb[0] is True else rl
        if ri[0] is True and not lines.get('skip'):
            return (True, None)
        if lines.get('skip') and ri[0] is not True:
            return (lines['skip'][0], lines['skip'][1])
        if lines.get('skip'):
            return (True, None)
        # every line has to be reached
        cov = self.covered(l, t, lines['idx'])
        if cov[0] is not True:
            return cov
        return (True, None)

    def empty(self, v, t, k):
        """the whole of it is known to sum to zero on this way into the join"""
        for f in edge_facts(self.g, t, k):
            for s in subterms(f):
                if sum_of(s) == v and evaluate(f, s, 0) is not False and evaluate(f, s, 1e-300) is False:
                    return True
        return False

    def covered(self, l, t, idx):
        g = self.g
        best = (None, 'which lines are normalised was not recognised')
        if len(idx) != 1:
            return best
        i = next(iter(idx))
        for te in l.tests():
            if te.get('trips') is None:
                if te.get('fact') is not None:
                    return (None, 'another way out of the loop')
                continue
            cv = l.covers(i, te)
            if cv is None:
                continue
            tr, first = te['trips'], cv[1]
            dim = self.extent(t, self.axis, l)
            oth = self.extent(t, OTHER[self.axis], l)
            hit = any((tr == lin(x)) for x in dim)
            if hit and cv[0] == 'up' and first == ({}, 0):
                return (True, None)
            if hit and cv[0] == 'down':
                return (True, None)
            if hit and cv[0] == 'up' and not first[0] and first[1] != 0:
                return (False, 'is normalised from %s %s on only' % (self.axis, first[1]))
            for x in dim:
                d = lin_sub(tr, lin(x))
                if not d[0] and d[1] < 0:
                    return (False, 'has its last %ss left out of the normalisation' % self.axis)
            if any((tr == lin(x)) for x in oth) and not any((lin(a) == lin(b)) for a in dim for b in oth):
                best = (False, 'is normalised for as many %ss as it has %ss' % (self.axis, OTHER[self.axis]))
            else:
                best = (None, 'how many lines are normalised')
        return best

    def extent(self, t, axis, l):
        """terms known to be the number of rows (columns) of the matrix"""
        g = self.g
        which = 'rows' if axis == 'row' else 'cols'
        out, seen, work = [], set(), [t]
        while work:
            y = plain(g.N(work.pop()))
            if y in seen or len(seen) > 80:
                continue
            seen.add(y)
            out.append(g.N(T('E', which, y)))
            if y.op == 'phi' and y in g.I.phis:
                work += list(g.I.phis[y].values())
            elif y.op == 'upd':
                work.append(y.args[0])
            elif y.op == 'S' and len(y.args) >= 4:
                dims = y.args[2:] if y.args[1] in ('Zero', 'Random', 'Ones') else y.args[2:-1]
                if len(dims) == 2:
                    out.append(g.N(dims[0 if axis == 'row' else 1]))
                elif len(dims) == 1:
                    out.append(g.N(dims[0]) if axis == 'row' else const(1))
            elif y.op == 'alloc' and len(y.args) >= 3:
                out.append(g.N(y.args[1 if axis == 'row' else 2]))
            elif y.op == 'op' and y.args[0] in ('+', '-', '*', '/'):
                for x in y.args[1:]:
                    x = plain(x)
                    if x.op == 'E' and x.args[0] in ('rowwise', 'colwise'):
                        x = plain(x.args[1])
                    if x.op in ('init', 'phi', 'upd', 'op') and (x.op != 'phi' or self.is_matrix(x)):
                        work.append(x)
        return out

    # -- one line
    def line(self, v, base, l, lines, key, at):
        """v differs from base in the line the loop is at: is that line normalised?  key/at: the way v came in"""
        g = self.g
        v = plain(g.N(v))
        if v == base:
            self.skipped(base, key, at, lines)
            return (True, None)
        if v.op == 'phi' and v in g.I.phis and v not in self.busy:
            self.busy.add(v)
            try:
                inner = loop_at(g, v)
                rs = []
                for k, w in g.I.phis[v].items():
                    w = plain(g.N(w))
                    if w == v:
                        continue
                    if inner is not None and k[0] in inner.body:
                        # a loop over the entries of the line
                        r = self.scaled(v, w, inner, lines)
                        if r is not None:
                            return r
                        rs.append(self.line(w, v, l, lines, k, v))
                    else:
                        if inner is not None and w == base:
                            lines.setdefault('inner', True)
                            self.skipped(base, k, v, lines)
                            continue
                        rs.append(self.line(w, base, l, lines, k, v))
                return self.all_of(rs)
            finally:
                self.busy.discard(v)
        if v.op == 'ite':
            return self.all_of(self.line(x, base, l, lines, None, None) for x in v.args[1:])
        if v.op != 'upd':
            return (None, 'is %s' % show(v, 2)[:60])
        old, path, how, val = v.args
        old = plain(g.N(old))
        if len(path) != 1 or path[0][0] not in ('row', 'col'):
            if how in ('+=', '=', '-=') and len(path) == 1 and path[0][0] == 'at' and not self.divides(val):
                return (False, 'has entries written after or instead of being normalised')
            return (None, 'an update of %s' % (path,))
        ax, i = path[0][0], g.N(path[0][1])
        val = plain(g.N(val))
        if how == '*=':
            q = poly(val)
            if len(q) == 1 and list(q.values()) == [1]:
                (m,) = q
                if len(m) == 1 and next(iter(m))[1] == -1:
                    how, val = '/=', next(iter(m))[0]
        if how == '/=':
            s = sum_of(val)
            if s is None:
                return (None, 'divided by %s' % show(val, 3)[:60])
            want = T('E', ax, old, i)
            if plain(s) == plain(g.N(want)):
                if ax != self.axis and not self.is_vec:
                    return (False, 'is normalised over its %ss, not its %ss' % (ax, self.axis))
                lines.setdefault('idx', set()).add(i)
                return (True, None)
            if s == old or (s.op == 'E' and s.args[0] in ('row', 'col') and plain(s.args[1]) == old):
                return (False, 'has a %s divided by %s, which is not the sum of that %s' % (ax, show(val, 3)[:60], ax))
            return (None, 'divided by %s' % show(val, 3)[:60])
        if how == '=':
            if val.op == 'op' and val.args[0] == '/' and len(val.args) == 3:
                a, s = plain(val.args[1]), sum_of(val.args[2])
                if s is not None and s == a:
                    if ax != self.axis:
                        return (False, 'is normalised over its %ss, not its %ss' % (ax, self.axis))
                    lines.setdefault('idx', set()).add(i)
                    return (True, None)
                if s is not None and (s == old or s.op == 'E' and s.args[0] in ('row', 'col') and plain(s.args[1]) == old):
                    return (False, 'has a %s divided by %s, which is not its sum' % (ax, show(val.args[2], 3)[:60]))
                d = plain(self.g.N(val.args[2]))
                if d.op in ('const', 'param', 'op') and not any(x.op in ('E', 'phi', 'upd', 'res', 'call', 'eff') for x in subterms(d)):
                    return (False, 'has a %s divided by %s, which does not depend on what it adds up to' % (ax, show(d, 3)[:60]))
                return (None, 'assigned %s' % show(val, 2)[:60])
            # an unnormalised line is only left as it is when it is empty
            if ax == self.axis and self.zero_line(v, ax, i, key, at):
                lines.setdefault('idx', set()).add(i)
                return (True, None)
            if self.divides(val):
                return (None, 'assigned %s' % show(val, 2)[:60])
            return (False, 'has a %s that is not normalised' % ax)
        if how in ('+=', '-='):
            if ax == self.axis and self.zero_line(v, ax, i, key, at):
                lines.setdefault('idx', set()).add(i)
                return (True, None)
            return (False, 'is added to and not normalised afterwards')
        return (None, 'an update %s' % how)

    def zero_line(self, v, ax, i, key, at):
        g = self.g
        if key is None:
            return False
        s = g.N(T('E', 'sum', T('E', ax, v, i)))
        return any(evaluate(f, s, 0) is not False and evaluate(f, s, 1) is False and evaluate(f, s, -1) is False or
                   evaluate(f, s, 1e-300) is False and evaluate(f, s, 0) is not False for f in edge_facts(g, at, key) if s in set(subterms(f)))

    def skipped(self, base, key, at, lines):
        """an iteration that leaves its line as it was: known to be empty?"""
        g = self.g
        bad = None
        for f in edge_facts(g, at, key) if key is not None else ():
            for s in subterms(f):
                x = sum_of(s)
                if x is None or x.op != 'E' or x.args[0] != self.axis or plain(x.args[1]) != base:
                    continue
                if evaluate(f, s, 0) is False:
                    continue
                if evaluate(f, s, 1e-300) is False:
                    return                      # only when the sum is zero
                if evaluate(f, s, 1e-300) is True:
                    bad = (False, 'has a %s left alone although its sum need not be zero' % self.axis)
        lines['skip'] = bad or lines.get('skip') or (None, 'a line is left as it was')

    def scaled(self, v, w, inner, lines):
        """an inner loop that divides every entry of the line by the sum of the line before the loop"""
        g = self.g
        if w.op != 'upd' or len(w.args[1]) != 1 or w.args[1][0][0] != 'at' or w.args[2] not in ('/=', '='):
            return None
        old, path, how, val = w.args
        if plain(g.N(old)) != v:
            return None
        r, c = g.N(path[0][1]), g.N(path[0][2])
        d = plain(g.N(val))
        if how == '=':
            if d.op != 'op' or d.args[0] != '/' or plain(d.args[1]) != g.N(T('E', 'at', v, r, c)):
                return None
            d = plain(d.args[2])
        s = sum_of(d)
        if s is None:
            return None
        ini = [plain(g.N(x)) for k, x in g.I.phis[v].items() if k[0] not in inner.body]
        if len(ini) != 1:
            return None
        k, m = (r, c) if self.axis == 'row' else (c, r)
        if s == plain(g.N(T('E', self.axis, ini[0], k))):
            dims = self.extent(v, OTHER[self.axis], inner)
            for te in inner.tests():
                if te.get('trips') is not None and any((te["trips"] == lin(x)) for x in dims):
                    lines.setdefault('idx', set()).add(k)
                    return (True, None)
            return (None, 'an inner loop')
        if s == plain(g.N(T('E', OTHER[self.axis], ini[0], m))):
            return (False, 'is normalised over its %ss, not its %ss' % (OTHER[self.axis], self.axis))
        return None

    def updated(self, t, assume):
        g = self.g
        lines = {}
        old = plain(g.N(t.args[0]))
        r0 = self(old, assume)
        if r0[0] is True:
            path, how, val = t.args[1], t.args[2], plain(g.N(t.args[3]))
            if len(path) == 1 and path[0][0] == self.axis:
                r = self.line(t, old, None, lines, None, None)
                return r
            if len(path) == 1 and path[0][0] in ('at', OTHER[self.axis]) and how in ('=', '+=', '-=', '*=') and not self.divides(val):
                return (False, 'is changed again after it was normalised')
            return (None, 'an update of %s' % (path,))
        return (r0[0], r0[1]) if r0[0] is None else (None if self.divides(t.args[3]) else False, r0[1])


def judge(R, g, what, loc, r, fn, key):
    if r[0] is True:
        R.ok('%s: %s' % (fn['qname'], what))
    elif r[0] is False:
        R.violation(fn['qname'], '%s %s' % (what, r[1]), fn['file'], fn['line'], key)
    else:
        R.unsure('%s: %s (%s)' % (fn['qname'], what, r[1]))


def exit_fields(g, name):
    for k, v in sorted(dict(g.root.exit_state).items(), key=lambda x: repr(x[0])):
        if k.op == 'f' and k.args[1] == name:
            yield k, g.N(v)


def is_init(*locs):
    return lambda t: t.op == 'init' and t.args[0] in locs


@rule('C26', 'topics', 'after every model update and every initialization each topic is divided by its sum over the words, all topics are, '
      'and nothing changes them afterwards; an online update mixes the old and the new topics with weights that add up to one')
def topics(C, R):
    for sc in C.scalars:
        fns = C.overrides('em::MStepInterface::m_step', sc)
        fns += C.fns('LDABuilder::initialize_topics_seeded', sc) + C.fns('LDABuilder::initialize_topics_random', sc)
        for f in fns:
            g = C.run(f)
            for k, v in exit_fields(g, 'beta'):
                if v == T('init', k):
                    continue
                judge(R, g, 'the topics', k, Norm(g, 'row', is_init(k))(v), f, 'beta')


@rule('C26', 'classes', 'the class distributions of the generative steps are normalised per topic, and the uniform ones add up to one')
def classes(C, R):
    for sc in C.scalars:
        for f in [x for x in C.overrides('em::MStepInterface::m_step', sc) if 'Multinomial' in x['qname'] or 'Correspondence' in x['qname']] + \
                C.fns('LDABuilder::initialize_eta_uniform', sc):
            g = C.run(f)
            for k, v in exit_fields(g, 'eta'):
                if v == T('init', k):
                    continue
                judge(R, g, 'the class distributions', k, Norm(g, 'row', is_init(k))(v), f, 'eta')


@rule('C26', 'assignments', 'the assignments an expectation step returns add up to one over the topics for every word')
def assignments(C, R):
    for sc in C.scalars:
        for f in C.overrides('em::EStepInterface::doc_e_step', sc):
            g = C.run(f)
            for nm, what in (('phi', 'the assignments'), ('tau', 'the word weights')):
                for k, v in exit_fields(g, nm):
                    if 'new' not in repr(k)[:400] and root(k).op not in ('new', 'obj'):
                        continue
                    n = Norm(g, 'col', is_init(k))
                    n.is_vec = nm == 'tau'
                    judge(R, g, what, k, n(v), f, nm)


def sames(g, a, b):
    return plain(g.N(a)) == plain(g.N(b))


class Gamma(object):
    """gamma = alpha + sum over the words of count * assignments"""
    def __init__(self, g):
        self.g = g

    def is_alpha(self, t):
        t = plain(t)
        return t.op == 'init' and t.args[0].op == 'f' and t.args[0].args[1] == 'alpha'

    def is_words(self, t):
        t = strip_views(plain(t))
        return t.op == 'init' and t.args[0].op == 'mem' and any(s.op == 'call' and s.args[0].endswith('::get_words') for s in subterms(t))

    def __call__(self, t, P, oldP):
        """t: the proportions; P: the assignments they belong to; oldP: those before (of the previous iteration)"""
        g = self.g
        t, P = plain(g.N(t)), plain(g.N(P))
        if t.op == 'phi' and t in g.I.phis:
            l = loop_at(g, t)
            if l is None:
                # the object is only made on some of the ways here
                live = {kk: v for kk, v in g.I.phis[t].items() if g.N(v).op != 'init'}
                if len(live) == 1 and P.op == 'phi' and P in g.I.phis and P.args[:2] == t.args[:2]:
                    (kk, v), = live.items()
                    if kk in g.I.phis[P]:
                        return self.pair(v, g.I.phis[P][kk])
                return (None, 'merged')
            inits = [plain(g.N(v)) for (b, i), v in g.I.phis[t].items() if b not in l.body]
            backs = [plain(g.N(v)) for (b, i), v in g.I.phis[t].items() if b in l.body]
            steps, stack, seen = [], list(backs), set()
            while stack:
                v = plain(g.N(stack.pop()))
                if v in seen or v == t:
                    continue
                seen.add(v)
                if v.op == 'phi' and v in g.I.phis and v.args[1] in l.body and v.args[0] == l.fr.id:
                    stack += list(g.I.phis[v].values())
                else:
                    steps.append(v)
            if not steps or len(inits) != 1:
                return (None, 'loop')
            for s in steps:
                r = self.step(s, t, P, oldP, l)
                if r[0] is not True:
                    return r
            if self.is_alpha(inits[0]):
                return (True, None)
            if inits[0].op in ('S', 'filled') or inits[0].op == 'phi' and not self.is_alpha(inits[0]):
                return (False, 'start from %s and not from the topic prior' % ('zero' if inits[0].op != 'phi' else 'what they were before'))
            return (None, 'start')
        q = poly(t)
        rest, al = {}, 0
        for m, c in q.items():
            if len(m) == 1 and self.is_alpha(next(iter(m))[0]):
                al += c
            else:
                rest[m] = c
        if len(rest) == 1:
            (m, c), = rest.items()
            x = next(iter(m))[0] if len(m) == 1 else None
            if x is not None and x.op == 'op' and x.args[0] == '@' and plain(x.args[1]) == P and self.is_words(x.args[2]):
                if c == 1 and al == 1:
                    return (True, None)
                return (False, 'are %s times the prior plus %s times the weighted assignments' % (al, c))
        return (None, 'is %s' % show(t, 2)[:60])

    def pair(self, v, p):
        g = self.g
        v, p = plain(g.N(v)), plain(g.N(p))
        if v.op == 'phi' and p.op == 'phi' and v.args[:2] == p.args[:2] and loop_at(g, v) is not None and v in g.I.phis:
            l = loop_at(g, v)
            r = (True, None)
            for key, b in g.I.phis[v].items():
                if key[0] in l.body and b is not v and key in g.I.phis[p]:
                    r = self(b, g.I.phis[p][key], p)
                    if r[0] is not True:
                        break
            return r
        q = poly(v)
        al = [m for m in q if len(m) == 1 and self.is_alpha(next(iter(m))[0])]
        rest = {m: c for m, c in q.items() if m not in al}
        if al and p.op == 'S' and p.args[1] == 'Constant' and len(rest) == 1:
            (m, c), = rest.items()
            if q[al[0]] == 1 and c == 1 and any(k == 1 and sum_of(x) is not None and self.is_words(sum_of(x)) for x, k in m):
                return (True, None)       # every word spread evenly
        return self(v, p, None)

    def step(self, s, t, P, oldP, l):
        g = self.g
        q = poly(s)
        one = q.pop(frozenset([(t, 1)]), None)
        if one is None:
            return (None, 'a step')
        if len(q) != 1:
            return (None, 'a step of several terms')
        (m, c), = q.items()
        cols = [x for x, k in m if k == 1 and plain(x).op == 'E' and plain(x).args[0] == 'col']
        if len(cols) != 1:
            return (None, 'a step')
        col = plain(cols[0])
        i = g.N(col.args[2])
        oth = [(x, k) for x, k in m if x is not cols[0]]
        M = plain(g.N(col.args[1]))
        if M != P:
            if oldP is not None and M == oldP:
                return (False, 'are computed from the assignments of the iteration before')
            return (None, 'another matrix')
        if len(oth) == 1 and oth[0][1] == 1 and plain(oth[0][0]).op == 'E' and plain(oth[0][0]).args[0] == 'at' and self.is_words(plain(oth[0][0]).args[1]):
            w = g.N(plain(oth[0][0]).args[2])
            if w != i:
                return (False, 'weigh the assignments of one word with the count of another')
            if one != 1 or c != 1:
                return (False, 'do not add the weighted assignments once')
            return self.all_words(l, i, P)
        if not oth:
            return (False, 'do not weigh the assignments with the word counts')
        return (None, 'weights')

    def all_words(self, l, i, P):
        g = self.g
        n = Norm(g, 'col', lambda t: False)
        dims = n.extent(P, 'col', l)
        for te in l.tests():
            if te.get('trips') is None:
                return (None, 'another exit')
            cv = l.covers(i, te)
            if cv is None:
                continue
            tr = te['trips']
            # the number of words may also be asked of the words themselves
            dims = dims + [te['bound']] if te.get('bound') is not None and te['bound'].op == 'E' and te['bound'].args[0] in ('rows', 'size') and \
                self.is_words(te['bound'].args[1]) else dims
            if any(tr == lin(x) for x in dims) and (cv[0] == 'down' or cv[1] == ({}, 0)):
                return (True, None)
            for x in dims:
                d = lin_sub(tr, lin(x))
                if not d[0] and d[1] < 0:
                    return (False, 'leave out words')
        return (None, 'which words')


@rule('C26', 'proportions', 'the topic proportions returned for a document are the prior plus, over all words, the count times the assignments returned with them')
def proportions(C, R):
    for sc in C.scalars:
        for f in C.overrides('em::EStepInterface::doc_e_step', sc):
            g = C.run(f)
            gm = [(k, v) for k, v in exit_fields(g, 'gamma') if root(k).op in ('new', 'obj') or 'new' in repr(k)[:400]]
            ph = {k.args[0]: v for k, v in exit_fields(g, 'phi')}
            for k, v in gm:
                p = ph.get(k.args[0])
                if p is None:
                    continue
                v, p = plain(v), plain(p)
                G = Gamma(g)
                r = G.pair(v, p)
                if r[0] is None:
                    inc = incremental(g, G, v)
                    if inc is True:
                        R.ok('%s: the proportions follow every change of an assignment' % f['qname'])
                        continue
                    if inc:
                        r = (False, inc)
                judge(R, g, 'the topic proportions', k, r, f, 'gamma')


def incremental(g, G, v):
    """gamma += count * (new assignments - old assignments) at every word: True, what is wrong, or None"""
    seen, work, hit = set(), [v], None
    while work:
        t = plain(g.N(work.pop()))
        if t in seen or len(seen) > 200:
            continue
        seen.add(t)
        if t.op == 'phi' and t in g.I.phis:
            work += list(g.I.phis[t].values())
        elif t.op == 'op' and t.args[0] in ('+', '-'):
            r = change(g, G, t)
            if r is True:
                hit = hit or True
            elif r:
                hit = r
    return hit


def change(g, G, t):
    q = poly(t)
    q = {m: c for m, c in q.items() if not (len(m) == 1 and next(iter(m))[0].op == 'phi' and c == 1)}
    if len(q) != 2:
        return None
    new = [m for m, c in q.items() if c == 1]
    old = [m for m, c in q.items() if c == -1]
    if len(new) != 1 or len(old) != 1:
        return None
    def parts(m):
        w = [x for x, k in m if k == 1 and plain(x).op == 'E' and plain(x).args[0] == 'at' and G.is_words(plain(x).args[1])]
        return w, [plain(x) for x, k in m if x not in w and k == 1]
    nw, nc = parts(new[0])
    ow, oc = parts(old[0])
    if len(nc) != 1 or len(oc) != 1 or nc[0].op != 'E' or nc[0].args[0] != 'col':
        return None
    i = g.N(nc[0].args[2])
    l = loop_at(g, i) if i.op == 'phi' else None
    if l is None:
        return None
    if not nw or not ow:
        return 'follow the change of the assignments without the word counts'
    if any(g.N(plain(x).args[2]) is not i for x in nw + ow):
        return 'weigh the assignments of one word with the count of another'
    vs, stack, met = [], [oc[0]], set()
    while stack:
        x = plain(g.N(stack.pop()))
        if x in met:
            continue
        met.add(x)
        if x.op == 'phi' and x in g.I.phis:
            stack += list(g.I.phis[x].values())
        else:
            vs.append(x)
    for x in vs:
        if x.op != 'E' or x.args[0] != 'col' or g.N(x.args[2]) is not i:
            return 'take out %s, which is not what the word had before' % show(x, 2) if x.op in ('S', 'filled', 'E') else None
        M = plain(g.N(x.args[1]))
        if M.op != 'phi' or M.args[:2] != (l.fr.id, l.head):
            return 'take out assignments that are not those the word had before' if M is plain(g.N(nc[0].args[1])) else None
    if oc[0].op == 'phi' and loop_at(g, oc[0]) is not None:
        return 'take out what another word had before'
    return True
