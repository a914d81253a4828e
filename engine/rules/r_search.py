"""C21: line searches and gradient descent"""
from common import *
from rules.r_params import poly

OPT = NS + 'optimization::'


def objective(C):
    return tuple(sorted({f['qname'] for f in C.F.functions.values() if f['qname'].startswith(OPT) and
                         short(f['qname']) in ('value', 'gradient')}))


def subst(g, t, m, depth=0):
    if not isinstance(t, Term):
        return tuple(subst(g, a, m, depth) for a in t) if isinstance(t, tuple) else t
    if t in m:
        return m[t]
    if depth > 40 or not any(x in m for x in subterms(t)):
        return t
    return T(t.op, *[subst(g, a, m, depth + 1) if isinstance(a, (Term, tuple)) else a for a in t.args])


def truth(t):
    """truth of a condition made of constants, None if unknown"""
    if t.op == 'const':
        return bool(t.args[0]) if isinstance(t.args[0], (bool, int, float)) else None
    if t.op == 'op' and t.args[0] == '!':
        r = truth(t.args[1])
        return None if r is None else not r
    if t.op == 'op' and len(t.args) == 3 and all(isinstance(a, Term) and a.op == 'const' for a in t.args[1:]):
        a, b = t.args[1].args[0], t.args[2].args[0]
        try:
            return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}.get(t.args[0])
        except TypeError:
            return None
    return None


def cases(g, ts, facts, depth=0):
    """the ways the terms ts can come about at a point where the facts hold: loop carried values are replaced by what they are on each way into the loop"""
    yield ts, facts
    if depth >= 2:
        return
    ph = {x for t in ts for x in subterms(t) if x.op == 'phi' and x in g.I.phis and x.args[0] == 0}
    blocks = {x.args[:2] for x in ph}
    for b in sorted(blocks, key=str):
        here = [p for p in g.I.phis if p.args[:2] == b]
        keys = sorted({k for p in here for k in g.I.phis[p]}, key=str)
        for k in keys:
            m = {p: g.N(g.I.phis[p][k]) for p in here if k in g.I.phis[p]}
            nt = [g.N(subst(g, t, m)) for t in ts]
            nf = [g.N(subst(g, f, m)) for f in facts]
            if any(truth(f) is False for f in nf):
                continue
            yield nt, nf


def P(t):
    return poly(t, expand=lambda x: x)


def scale(c, d):
    """c / d for polynomials when d is one monomial, else None"""
    if len(d) != 1:
        return None
    (k, v), = d.items()
    out = {}
    for m, w in c.items():
        e = dict(m)
        for a, q in k:
            e[a] = e.get(a, 0) - q
        out[frozenset((a, q) for a, q in e.items() if q)] = w / v
    return out


def sub(a, b, s=-1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0:
            del r[k]
    return r


def is_value(t):
    return t.op == 'call' and isinstance(t.args[0], str) and t.args[0].startswith(OPT) and short(t.args[0]) == 'value'


def le_zero(f):
    """polynomial p with p <= 0 (or p < 0) equivalent to the comparison f"""
    neg = False
    while f.op == 'op' and f.args[0] == '!':
        f, neg = f.args[1], not neg
    if f.op != 'op' or len(f.args) != 3 or f.args[0] not in ('<', '<=', '>', '>='):
        return None
    a, b = P(f.args[1]), P(f.args[2])
    flip = f.args[0] in ('>', '>=')
    if neg:
        flip = not flip
    return sub(b, a) if flip else sub(a, b)


def step_of(final, x0, d):
    """the polynomial c with final = x0 - c d, None if it has another form, and whether the direction is involved"""
    diff = sub(P(final), P(x0))
    c = {}
    for m, v in diff.items():
        e = dict(m)
        if e.get(d) != 1 or x0 in e:
            return None, diff
        del e[d]
        k = frozenset(e.items())
        c[k] = c.get(k, 0) - v
    return c, diff


@rule('C21', 'search', 'every line search moves against the direction it is given, returns the value of the objective at exactly the point it leaves the '
      'parameters at, and a backtracking one only returns once the sufficient decrease condition holds for that point and step')
def r_search(C, R):
    fs = [f for f in C.overrides('optimization::LineSearch::search') if f.get('blocks')]
    if not fs:
        R.unsure('no line search')
    for f in fs:
        g = C.run(f, opaque=objective(C))
        ps = f['params']
        if len(ps) != 4 or g.root.ret is None:
            R.unsure('%s has another interface' % f['qname'])
            continue
        x0 = T('param', f['key'], ps[1]['name'])
        loc = g.root.env.get(ps[1]['id'])
        d = T('init', mem(T('param', f['key'], ps[3]['name'])))
        gr = T('init', mem(T('param', f['key'], ps[2]['name'])))
        ret = g.root.ret
        if ret.op in ('tmp', 'var'):
            ret = g.I.read(g.root.exit_state, ret)
        fin = g.I.read(g.root.exit_state, loc)
        evals = [n for n in g.ops('call') if is_value(n.op.res or x0)]
        back = len(evals) > 1 or any(g.enclosing_loops(n.i) for n in evals)
        where = f['qname'].replace(OPT, '')
        rets = [n for n in g.ops('ret') if n.frame is g.root]
        at = rets[-1] if rets else None
        facts = [g.N(x) for x in g.facts_at(at.i)] if at is not None else []
        if fin == x0 and not any(x.op == 'phi' for x in subterms(fin)):
            R.at(at, 'the parameters are never moved', key='still', fn=f['qname'])
            continue
        moved = returned = decreased = None
        bad = []
        cs = list(cases(g, [g.N(ret), g.N(fin)], facts))
        for n_, ((v, x), fc) in enumerate(cs):
            c, diff = step_of(x, x0, d)
            if c is None:
                if n_ and not diff:
                    pass
                elif any(a == d for m in diff for a, q in m) or any(y.op == 'phi' for m in diff for a, q in m for y in subterms(a)):
                    R.unsure('%s: how the parameters move is not understood: %s' % (where, show(x, 5))) if not n_ else None
                    continue
                else:
                    R.at(at, 'the parameters are moved by %s and not along the direction' % show(x, 5), key='direction', fn=f['qname'])
                    continue
            if c:
                if all(w > 0 for w in c.values()):
                    moved = True
                elif all(w < 0 for w in c.values()):
                    R.at(at, 'the parameters move along the direction and not against it: %s' % show(x, 5), key='sign', fn=f['qname'])
                    continue
                else:
                    R.unsure('%s: sign of the step %s' % (where, show(x, 5)))
            # what is returned
            if is_value(v) and P(v.args[-1]) == P(x):
                returned = True
                if n_ == 0:
                    bad = []
            elif n_ == 0 and any(y.op == 'phi' for y in subterms(v)):
                pass                                    # decided by the cases below
            elif is_value(v):
                if n_ and returned and cs[0][0][0] == v:
                    continue
                bad.append('returns the value at %s but leaves the parameters at %s' % (show(v.args[-1], 5), show(x, 5)))
            elif any(y.op == 'phi' for y in subterms(v)):
                R.unsure('%s: what is returned is not understood: %s' % (where, show(v, 4)))
            else:
                bad.append('returns %s, which is not the value at the point the parameters are left at' % show(v, 4))
            if n_ == 0 and returned:
                # the same terms for every history
                if back:
                    decreased = suff(R, g, f, at, where, v, x, x0, c, d, gr, fc)
                break
            if n_ and back and is_value(v) and P(v.args[-1]) == P(x) and c:
                suff(R, g, f, at, where, v, x, x0, c, d, gr, fc)
        for b in bad[:1]:
            R.at(at, b, key='returned', fn=f['qname'])
        if returned and not bad:
            R.ok('%s: returns the value at the final point' % where)
        if moved:
            R.ok('%s: moves against the direction' % where)


def suff(R, g, f, at, where, v, x, x0, c, d, gr, facts):
    vs = frozenset([(v, 1)])
    rel = [(h, p) for h in facts for p in [le_zero(h)] if p is not None and vs in p]
    if not rel:
        # several ways out, each with its own test
        es = {}
        for u in range(len(g.succ)):
            for w, h, k in g.succ[u]:
                if isinstance(h, Term):
                    h = g.N(h)
                    p = le_zero(h)
                    if p is not None and p.get(vs, 0) > 0:
                        es[(u, w)] = (h, p)
        ev = [n.i for n in g.ops('call') if n.op.res is not None and g.N(n.op.res) == v]
        if es and ev and at.i not in g.reach([w for e in ev for w, h, k in g.succ[e] if k != 'x'], exc=False, edge_ok=lambda u, w, h, k: (u, w) not in es):
            rel = list(es.values())
    if not rel:
        # a flag that was not understood
        if any(y.op == 'phi' for h in facts for y in subterms(h) if h.op != 'op') and not c:
            R.unsure('%s: condition for stopping' % where)
            return None
        R.at(at, 'the search ends although nothing was established about the value at the point it moved to', key='decrease', fn=f['qname'])
        return False
    why = None
    for h, p in rel:
        if p[vs] < 0:
            why = why or 'ends when the value is still too large: %s' % show(h, 6)
            continue
        q = {k: w / p[vs] for k, w in p.items() if k != vs}
        v0 = [k for k in q if any(is_value(a) for a, e in k)]
        z = [k for k in v0 if len(k) == 1 and q[k] == -1 and all(is_value(a) and P(a.args[-1]) == P(x0) and e == 1 for a, e in k)]
        if len(v0) != 1 or not z:
            why = why or 'the value is not compared with the value at the starting point: %s' % show(h, 6)
            continue
        rest = {k: w for k, w in q.items() if k != z[0]}
        if not rest:
            why = why or 'the decrease that is required does not depend on the gradient: %s' % show(h, 6)
            continue
        if any(w < 0 for w in rest.values()):
            why = why or 'an increase of the value is accepted: %s' % show(h, 6)
            continue
        t = scale(rest, c)
        if t is None:
            R.unsure('%s: sufficient decrease %s' % (where, show(h, 5)))
            return None
        # the step must be a factor of the decrease: what remains may not undo a part of the step that changes
        if any(e < 0 and any(y.op == 'phi' for y in subterms(a)) for k in t for a, e in k):
            why = why or 'the decrease that is required is not in proportion to the step that is taken: %s' % show(h, 6)
            continue
        if not all(any(gr in set(subterms(a)) and d in set(subterms(a)) for a, e in k) for k in t):
            why = why or 'the decrease that is required is not that of the gradient along the direction: %s' % show(h, 6)
            continue
        R.ok('%s: sufficient decrease at the final point' % where)
        return True
    R.at(at, why, key='decrease', fn=f['qname'])
    return False


@rule('C21', 'descent', 'gradient descent evaluates the gradient at the current parameters before each step, searches along it, and reports the value at the current '
      'parameters')
def r_descent(C, R):
    fs = [f for f in C.F.functions.values() if f['qname'] == OPT + 'GradientDescent::minimize' and f.get('blocks')]
    if not fs:
        R.unsure('no gradient descent')
    for f in sorted(fs, key=lambda f: f['key']):
        g = C.run(f, opaque=objective(C))
        ps = f['params']
        x0 = T('param', f['key'], ps[1]['name'])
        loc = g.root.env.get(ps[1]['id'])
        se = [n for n in g.ops('call') if short(n.op.name or '') == 'search' and (n.op.name or '').startswith(OPT)]
        if not se:
            R.unsure('no line search in %s' % f['qname'])
            continue
        for n in se:
            if n.op.locs[1] != loc:
                R.at(n, 'the line search moves %s and not the parameters that were given' % show(n.op.locs[1], 3), key='which', fn=f['qname'])
                continue
            cur = g.N(n.op.args[1])
            for j, what in ((2, 'gradient'), (3, 'direction')):
                a = g.N(n.op.args[j])
                neg = False
                e = a
                if e.op == 'op' and e.args[0] == 'neg':
                    e, neg = e.args[1], True
                if e.op == 'eff':
                    src = [m for m in g.ops('call') if (m.op.frame.id if m.op.frame else None, m.op.nid) == (e.args[0], e.args[1])]
                    src = [m for m in src if short(m.op.name) == 'gradient']
                    if not src:
                        R.unsure('%s: %s' % (f['qname'], show(a, 3)))
                        continue
                    pt = g.N(src[0].op.args[0])
                    if neg:
                        R.at(n, 'the %s given to the line search has the wrong sign' % what, key='sign|' + what, fn=f['qname'])
                    elif P(pt) == P(cur):
                        R.ok('%s at the current parameters' % what)
                    else:
                        R.at(n, 'the %s was evaluated at %s while the parameters are %s' % (what, show(pt, 3), show(cur, 3)), key='stale|' + what, fn=f['qname'])
                elif e.op == 'phi':
                    r = gradient_of(g, n, e, loc, cur, set())
                    if r is True:
                        R.ok('%s at the current parameters' % what)
                    elif r is None:
                        R.unsure(show(e, 3))
                    else:
                        R.at(n, r % what, key='stale|' + what, fn=f['qname'])
                elif e.op in ('S', 'E0', 'alloc', 'uninit', 'filled'):
                    R.at(n, 'the %s given to the line search is %s' % (what, show(e, 3)), key='stale|' + what, fn=f['qname'])
                else:
                    R.unsure('%s: %s given to the line search: %s' % (f['qname'], what, show(a, 4)))
            # the callback
            cb = [m for m in g.ops('call') if 'function' in (m.op.name or '') and short(m.op.name) == 'operator()' and len(m.op.args) >= 1]
            if not cb:
                R.unsure('no callback in %s' % f['qname'])
            for m in cb:
                reported(R, g, f, m, n, loc, x0, cur)


def gradient_of(g, n, e, loc, cur, seen):
    """is the merge e the gradient at cur: True, a message, or None if unknown"""
    if e in seen:
        return True
    seen.add(e)
    head = any(l is not None and e.args[0] == l.fr.id and e.args[1] == l.head for l in g.enclosing_loops(n.i))
    out = True
    for k, v in g.I.phis.get(e, {}).items():
        x = g.I.phis.get(T('phi', e.args[0], e.args[1], loc), {}).get(k) if head else \
            g.I.phis.get(T('phi', e.args[0], e.args[1], loc), {}).get(k, cur)
        v = g.N(v)
        if v.op == 'phi' and x is not None:
            carried = v in seen and v is not e
            r = gradient_of(g, n, v, loc, g.N(x), seen)
            if r is True and head and v is not e and P(g.N(x)) != P(cur):
                r = 'the %s of the previous parameters is given to the line search' if carried else None
        elif v.op == 'eff' and x is not None:
            src = [m for m in g.ops('call') if m.op.frame is not None and (m.op.frame.id, m.op.nid) == (v.args[0], v.args[1])]
            if not src or short(src[0].op.name) != 'gradient':
                r = None
            elif P(g.N(src[0].op.args[0])) != P(g.N(x)):
                r = 'the %s of the previous parameters is given to the line search'
            else:
                r = True
        elif v.op in ('S', 'E0', 'alloc', 'M', 'filled', 'uninit'):
            r = 'the first %s given to the line search is ' + show(v, 3).replace('%', '%%')
        else:
            r = None
        if r is None:
            return None
        if r is not True and (out is True or 'previous' in r):
            out = r
    return out if g.I.phis.get(e) else None


def value_at(g, v, x, n):
    """v is the value of the objective at x: True, False or None"""
    if is_value(v):
        return P(g.N(v.args[-1])) == P(x)
    if v.op == 'res':
        o = g.I.resinfo.get(v)
        if o is not None and short(o.name or '') == 'search':
            return x.op == 'eff' and x.args[:3] == (v.args[0], v.args[1], 1)
    if v.op in ('const', 'uninit'):
        return False
    return None


def reported(R, g, f, m, n, loc, x0, cur):
    v = g.N(m.op.args[0])
    bad = None
    if v.op == 'phi':
        xp = T('phi', v.args[0], v.args[1], loc)
        if xp not in g.I.phis:
            R.unsure('%s: what is reported: %s' % (f['qname'], show(v, 3)))
            return
        for k, w in g.I.phis.get(v, {}).items():
            x = g.N(g.I.phis[xp].get(k, x0))
            r = value_at(g, g.N(w), x, n)
            if r is None and g.N(w).op == 'phi' and g.N(w) is not v and T('phi', w.args[0], w.args[1], loc) not in g.I.phis:
                rs = [False if g.N(u) is v and P(x) != P(g.N(xp)) else value_at(g, g.N(u), x, n) for u in g.I.phis.get(g.N(w), {}).values()]
                r = False if False in rs and None not in rs else None if None in rs or not rs else True
            if r is None:
                R.unsure('%s: what is reported: %s' % (f['qname'], show(w, 4)))
                return
            if not r:
                bad = g.N(w)
    else:
        loops = g.enclosing_loops(n.i)
        inl = any(l is not None and any(q is not None and q.head == l.head and q.fr is l.fr for q in g.enclosing_loops(m.i)) for l in loops)
        for x in ([cur, T('eff', n.op.frame.id, n.op.nid, 1, cur)] if inl else [x0, cur]):
            r = value_at(g, v, x, n)
            if r is None:
                R.unsure('%s: what is reported: %s' % (f['qname'], show(v, 4)))
                return
            if r:
                break
        else:
            bad = v
    if bad is not None:
        R.at(m, 'the callback is given %s, which is not the value at the current parameters' % show(bad, 4), key='reported', fn=f['qname'])
    else:
        R.ok('value reported to the callback')
