"""intervals of floating point values, with NaN and strict bounds"""
import math
from common import *

INF = float('inf')


class IV(object):
    """lo, hi; strict bounds; may be NaN; whole: only whole numbers"""
    __slots__ = ('lo', 'hi', 'ls', 'hs', 'nan', 'known')

    def __init__(self, lo=-INF, hi=INF, ls=False, hs=False, nan=True, known=True):
        self.lo, self.hi, self.ls, self.hs, self.nan, self.known = lo, hi, ls, hs, nan, known

    def __repr__(self):
        return '%s%s, %s%s%s%s' % ('([' [not self.ls], self.lo, self.hi, ')]'[not self.hs], ' or NaN' if self.nan else '', '' if self.known else ' ?')


TOP = lambda known=False: IV(known=known)


def edges(g):
    """(u, v, condition, taken) of every branch with the condition as written"""
    out = []
    for n in g.ops('branch'):
        c = n.op.val
        if c is None:
            continue
        flips, plain = written(n)
        for v, f, k in g.succ[n.i]:
            if not isinstance(f, Term):
                continue
            taken = f == c or g.N(f) == g.N(c)
            if flips:
                out.append((n.i, v, neg(c), not taken, plain))
            else:
                out.append((n.i, v, c, taken, plain))
    return out


def written(n):
    """whether the condition stands under an odd number of negations; whether it is a comparison at all and not a stored result"""
    nodes = n.frame.fn['nodes']
    get = lambda i: nodes.get(i) or nodes.get(str(i)) or {}
    x = get(n.op.nid)
    odd = False
    for _ in range(20):
        k = x.get('k')
        if k == 'UnaryOperator' and x.get('op') == '!':
            odd = not odd
            x = get(x['c'][0])
        elif k in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'CXXBoolLiteralExpr') and x.get('c'):
            x = get(x['c'][0])
        else:
            break
    return odd, x.get('k') not in ('DeclRefExpr', 'MemberExpr')


def sound_facts(g, i):
    """comparisons that are known true at i even when an operand is NaN: (op, a, b) as evaluated to true, or ('==', a, b) from a false !="""
    out = []
    for u, v, c, taken, plain in edges(g):
        # does every path to i use this edge?
        r = reach_without(g, u, v)
        if i in r:
            continue
        out.extend(x + (plain,) for x in literals(c, taken))
    return out


def reach_without(g, u, v):
    c = getattr(g, '_rw', None)
    if c is None:
        c = g._rw = {}
    if (u, v) not in c:
        seen = {g.entry}
        st = [g.entry]
        while st:
            a = st.pop()
            for b, f, k in g.succ[a]:
                if (a, b) == (u, v) or b in seen:
                    continue
                seen.add(b)
                st.append(b)
        c[(u, v)] = seen
    return c[(u, v)]


def literals(c, truth):
    if c.op == 'op' and c.args[0] == '!':
        return literals(c.args[1], not truth)
    if c.op == 'op' and c.args[0] == '&&' and truth:
        return [x for a in c.args[1:] for x in literals(a, True)]
    if c.op == 'op' and c.args[0] == '||' and not truth:
        return [x for a in c.args[1:] for x in literals(a, False)]
    if c.op == 'op' and c.args[0] in ('<', '<=', '==', '!=') and len(c.args) == 3:
        return [(c.args[0], c.args[1], c.args[2], truth)]
    if c.op == 'call':
        return [(str(c.args[0]).split('::')[-1], c.args[1] if len(c.args) > 1 else None, None, truth)]
    if c.op == 'res':
        return []
    return []


class Bounds(object):
    def __init__(self, g, i):
        self.g = g
        self.lits = [(o, g.N(a) if isinstance(a, Term) else a, g.N(b) if isinstance(b, Term) else b, t, p) for o, a, b, t, p in sound_facts(g, i)]

    def refine(self, t, r):
        for o, a, b, truth, plain in self.lits:
            if not plain and o in ('<', '<=') and t in (a, b) and r.nan:
                r.known = False
            if o in ('isnan', 'isfinite', 'isinf', 'isnormal') and a == t:
                if o == 'isnan' and not truth:
                    r.nan = False
                if o == 'isfinite' and truth:
                    r.nan = False
                    if r.hi == INF:
                        r.hi, r.hs = INF, True
                    if r.lo == -INF:
                        r.lo, r.ls = -INF, True
                continue
            if b is None:
                continue
            if a == t and b == t:
                if (o == '==' and truth) or (o == '!=' and not truth):
                    r.nan = False
                continue
            for x, y, flip in ((a, b, False), (b, a, True)):
                if x != t or y.op != 'const' or not isinstance(y.args[0], (int, float)):
                    continue
                c = float(y.args[0])
                oo, neg_ = o, not truth
                # a comparison that was true rules NaN out; one that was false does not
                if truth and o in ('<', '<=', '==') or not truth and o == '!=':
                    r.nan = False
                if o == '==' and truth or o == '!=' and not truth:
                    r.lo = max(r.lo, c); r.hi = min(r.hi, c)
                    continue
                if o not in ('<', '<='):
                    continue
                upper = not flip        # t < c
                strict = o == '<'
                if neg_:
                    upper, strict = not upper, not strict
                if upper and (c < r.hi or c == r.hi and strict):
                    r.hi, r.hs = c, strict
                if not upper and (c > r.lo or c == r.lo and strict):
                    r.lo, r.ls = c, strict
        return r

    def of(self, t, assume=None, d=0):
        assume = assume or {}
        t0 = t
        r = self._of(t, assume, d)
        return self.refine(t0, r)

    def _of(self, t, assume, d):
        if d > 20:
            return TOP()
        if t in assume:
            a = assume[t]
            return IV(a.lo, a.hi, a.ls, a.hs, a.nan, a.known)
        if t.op == 'const' and isinstance(t.args[0], (int, float)):
            c = float(t.args[0])
            return IV(c, c, nan=c != c)
        if t.op in ('param', 'init'):
            return TOP(True)
        if t.op == 'phi':
            vals = list(self.g.I.phis.get(t, {}).values())
            init = [v for v in vals if t not in set(subterms(v))]
            step = [v for v in vals if t in set(subterms(v)) and v != t]
            if not init:
                return TOP()
            r = None
            for v in init:
                x = self.of(v, assume, d + 1)
                r = x if r is None else join(r, x)
            if any(s.op == 'phi' and s != t and not set(subterms(s)) >= {t} and s in assume for v in step for s in subterms(v)):
                return TOP()
            for _ in range(3):
                A = dict(assume)
                A[t] = self.refine(t, IV(r.lo, r.hi, r.ls, r.hs, r.nan, r.known)) if False else r
                n = r
                for v in step:
                    n = join(n, self._of(v, A, d + 1) if v.op != 'phi' else TOP())
                if same(n, r):
                    return r
                # widen what grew
                r = IV(r.lo if n.lo == r.lo and n.ls == r.ls else -INF, r.hi if n.hi == r.hi and n.hs == r.hs else INF,
                       r.ls if n.lo == r.lo else False, r.hs if n.hi == r.hi else False, n.nan, n.known)
            return IV(known=r.known)
        if t.op == 'op':
            o = t.args[0]
            xs = [self.of(x, assume, d + 1) for x in t.args[1:]]
            if not all(x.known for x in xs):
                if o in ('min', 'max', 'clamp'):
                    pass
                else:
                    return TOP()
            if o == 'neg':
                x = xs[0]
                return IV(-x.hi, -x.lo, x.hs, x.ls, x.nan)
            if o == 'trunc':
                x = xs[0]
                def tr(v):
                    return v if abs(v) == INF else float(math.trunc(v))
                hi = x.hi
                if x.hs and hi != INF and hi == math.trunc(hi) and hi > 0:
                    hi = hi - 1
                lo = x.lo
                if x.ls and lo != -INF and lo == math.trunc(lo) and lo < 0:
                    lo = lo + 1
                return IV(tr(lo), tr(hi), False, False, x.nan)
            if o in ('abs', 'fabs'):
                x = xs[0]
                lo = 0.0 if x.lo <= 0 <= x.hi else min(abs(x.lo), abs(x.hi))
                return IV(lo, max(abs(x.lo), abs(x.hi)), nan=x.nan)
            if len(xs) == 2:
                x, y = xs
                nan = x.nan or y.nan
                if o == '+':
                    return IV(x.lo + y.lo, x.hi + y.hi, x.ls or y.ls, False, nan or (x.hi == INF and y.lo == -INF))
                if o == '-':
                    return IV(x.lo - y.hi, x.hi - y.lo, False, False, nan or (x.hi == INF and y.hi == INF))
                if o in ('*', '/'):
                    c = None
                    if y.lo == y.hi and abs(y.lo) not in (0, INF):
                        c, z = y.lo, x
                    elif o == '*' and x.lo == x.hi and abs(x.lo) not in (0, INF):
                        c, z = x.lo, y
                    if c is not None:
                        m = 1 / c if o == '/' else c
                        exact = math.frexp(abs(m))[0] == 0.5
                        ls, hs = (z.ls, z.hs) if exact else (False, False)
                        if m > 0:
                            return IV(z.lo * m, z.hi * m, ls and (m >= 1 or z.lo != 0), hs, nan)
                        return IV(z.hi * m, z.lo * m, hs, ls, nan)
                    if x.lo >= 0 and y.lo >= 0 and o == '*':
                        h = x.hi * y.hi if 0 not in (x.hi, y.hi) else 0.0
                        return IV(x.lo * y.lo if x.lo and y.lo else 0.0, h if h == h else INF, nan=nan or x.hi == INF and y.lo == 0 or y.hi == INF and x.lo == 0)
                    return TOP(True)
                if o in ('min', 'max'):
                    f = min if o == 'min' else max
                    if not x.known and not y.known:
                        return TOP()
                    if not (x.known and y.known):
                        k = x if x.known else y
                        return IV(-INF, k.hi, nan=False, known=True) if o == 'min' else IV(k.lo, INF, nan=False, known=True)
                    # std::min(a, b) returns a when the comparison with NaN is false
                    return IV(f(x.lo, y.lo), f(x.hi, y.hi), nan=nan)
            return TOP()
        if t.op == 'ite':
            return join(self.of(t.args[1], assume, d + 1), self.of(t.args[2], assume, d + 1))
        if t.op == 'call':
            n = str(t.args[0]).split('::')[-1]
            if n in ('floor', 'trunc', 'fabs', 'abs') and len(t.args) == 2:
                x = self.of(t.args[1], assume, d + 1)
                if not x.known:
                    return TOP()
                if n == 'floor':
                    fl = lambda v: v if abs(v) == INF else float(math.floor(v))
                    hi = x.hi - 1 if x.hs and x.hi == math.floor(x.hi) and abs(x.hi) != INF else x.hi
                    return IV(fl(x.lo), fl(hi), nan=x.nan)
                return self._of(T('op', 'trunc' if n == 'trunc' else 'abs', t.args[1]), assume, d + 1)
            if n in ('min', 'fmin', 'max', 'fmax') and len(t.args) == 3:
                return self._of(T('op', n[-3:], *t.args[1:]), assume, d + 1)
        if t.op == 'E' and t.args[0] == 'cast':
            return self.of(t.args[1], assume, d + 1)
        return TOP()


def join(a, b):
    lo, ls = min((a.lo, a.ls), (b.lo, b.ls))
    h = max(a.hi, b.hi)
    hs = all(x.hs for x in (a, b) if x.hi == h)
    return IV(lo, h, ls, hs, a.nan or b.nan, a.known and b.known)


def same(a, b):
    return (a.lo, a.hi, a.ls, a.hs, a.nan, a.known) == (b.lo, b.hi, b.ls, b.hs, b.nan, b.known)
