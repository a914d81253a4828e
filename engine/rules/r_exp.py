"""C19: functions that look values up in a constant table"""
import math
from common import *
from rules.r_corpus import all_functions, own
from rules.r_params import poly
from rules.interval import Bounds, INF
from rules.r_numeric import callees


def shapes(C):
    """like tables, each subscript in the smallest function that computes it from its argument"""
    if hasattr(C, '_shapes'):
        return C._shapes
    tables(C)
    out = []
    for k in sorted({x[2].frame.fn['key'] for x in tables(C)}):
        g = C.run(C.F.functions[k])
        own_ = [(C.F.functions[k], g, n, name, idx) for n, name, idx in subscripts(C, g, k)]
        if own_ and all(any(s.op == 'phi' for s in subterms(x[4])) for x in own_):
            out += own_
        else:
            out += [x for x in tables(C) if x[2].frame.fn['key'] == k]
    C._shapes = out
    return out


def tables(C):
    """(function, graph, node, table name, index) of every subscript of a constant table of numbers"""
    if hasattr(C, '_tables'):
        return C._tables
    out = []
    callers = {}
    for k, f in C.F.functions.items():
        if own(f) and f.get('blocks'):
            for c in callees(f):
                if c != k:
                    callers.setdefault(c, set()).add(k)
    for k, f in sorted(C.F.functions.items()):
        if not own(f) or not f.get('blocks'):
            continue
        if not any('g' in n and len(C.F.globals.get(n['g'], {}).get('vals') or ()) >= 16 for n in f['nodes'].values() if isinstance(n, dict)):
            continue
        out += contexts(C, k, k, callers, 0)
    C._tables = out
    return out


def subscripts(C, g, home):
    for n in g.ops('index', 'view'):
        if n.frame.fn['key'] != home:
            continue
        for t in [n.op.loc, n.op.obj] + list(n.op.locs or ()):
            if isinstance(t, Term):
                t = t.args[0] if t.op == 'v' else t
            if isinstance(t, Term) and t.op == 'glob' and len(C.F.globals.get(t.args[0], {}).get('vals') or ()) >= 16:
                yield n, t.args[0], g.N(n.op.args[0])
                break


def contexts(C, k, home, callers, depth):
    """the subscript judged in the function it stands in or, when its range depends on the callers, in each of them"""
    f = C.F.functions[k]
    g = C.run(f)
    res = [(f, g, n, name, idx) for n, name, idx in subscripts(C, g, home)]
    bad = False
    for f_, g_, n, name, idx in res:
        b = Bounds(g, n.i).of(idx)
        if not b.known or b.nan or b.lo < 0 or b.hi > len(C.F.globals[name]['vals']) - 1:
            bad = True
    if bad and depth < 4 and callers.get(k):
        up = [x for c in sorted(callers[k]) for x in contexts(C, c, home, callers, depth + 1)]
        if up:
            return up
    return res


def values(C, name):
    try:
        return [float(v) for v in C.F.globals[name]['vals']]
    except (TypeError, ValueError):
        return None


@rule('C19', 'table subscripts', 'for every argument, NaN and infinities included, the subscript of a constant table lies inside the table')
def r_range(C, R):
    ts = tables(C)
    if not ts:
        R.ok('no function looks a value up in a constant table')
        return
    for f, g, n, name, idx in ts:
        N = len(C.F.globals[name]['vals'])
        b = Bounds(g, n.i).of(idx)
        if not b.known:
            R.unsure('%s: the subscript %s of %s is not understood' % (f['qname'], show(idx, 4), name))
        elif b.nan:
            R.at(n, 'the subscript %s of %s is computed from a value that may be NaN' % (show(idx, 4), name.split('::')[-1]), key='nan', fn=f['qname'])
        elif b.lo < 0 or b.hi > N - 1:
            R.at(n, 'the subscript %s ranges over %r but %s has %d entries' % (show(idx, 4), b, name.split('::')[-1], N), key='range', fn=f['qname'])
        else:
            R.ok('%s: subscript in %r' % (f['key'], b))


@rule('C19', 'table content', 'the table holds the exponential sampled evenly over the unit interval, one sample per cell the subscript selects')
def r_content(C, R):
    names = sorted({x[3] for x in tables(C)})
    if not names:
        R.ok('no table')
        return
    for name in names:
        gl = C.F.globals[name]
        v = values(C, name)
        if v is None:
            R.unsure('%s: entries are not literals' % name)
            continue
        if not gl.get('const'):
            R.violation(name, 'the table can be modified', gl['file'], gl['line'], key='const')
        N = len(v)
        import re
        m = re.search(r'array<[^,]+,\s*(\d+)', gl['t']) or re.search(r'\[(\d+)\]', gl['t'])
        if m and int(m.group(1)) != N:
            R.violation(name, 'the table has %s entries but only %d are given' % (m.group(1), N), gl['file'], gl['line'], key='size')
        bad = [i for i in range(N) if not v[i] > 0 or not (i / N - 1e-9 <= math.log(v[i]) <= (i + 1) / N + 1e-9)]
        if bad:
            R.violation(name, 'entry %d is %r, not the exponential of a point in [%d/%d, %d/%d]' % (bad[0], v[bad[0]], bad[0], N, bad[0] + 1, N),
                        gl['file'], gl['line'], key='entry')
            continue
        lg = [math.log(x) for x in v]
        step = (lg[-1] - lg[0]) / (N - 1)
        bad = [i for i in range(N) if abs(lg[i] - lg[0] - i * step) > 1e-7]
        if bad:
            R.violation(name, 'entry %d (%r) is off the even sampling of the exponential' % (bad[0], v[bad[0]]), gl['file'], gl['line'], key='even')
        else:
            R.ok('%s: %d entries' % (name, N), N)


def scale_of(t, x):
    """c when t is x multiplied by the constant c"""
    p = poly(t)
    if len(p) != 1:
        return None
    (k, v), = p.items()
    return v if k == frozenset([(x, 1)]) else None


@rule('C19', 'cells', 'the subscript is the argument, scaled by the number of entries')
def r_cells(C, R):
    for f, g, n, name, idx in shapes(C):
        N = len(C.F.globals[name]['vals'])
        t = idx
        clamped = False
        while t.op == 'op' and t.args[0] in ('trunc', 'min', 'max') or t.op == 'call' and str(t.args[0]).split('::')[-1] in ('floor', 'trunc', 'min', 'max') \
                or t.op == 'E' and t.args[0] == 'cast':
            xs = [a for a in t.args[1:] if isinstance(a, Term) and a.op != 'const']
            if len(xs) != 1:
                break
            t = xs[0]
        p = poly(t)
        var = [k for k in p if k]
        if len(var) != 1 or len(list(var[0])) != 1 or list(var[0])[0][1] != 1:
            R.unsure('%s: subscript %s is not linear' % (f['qname'], show(idx, 4)))
            continue
        c, off = p[var[0]], p.get(frozenset(), 0)
        if not (N - 1 <= c <= N) or not 0 <= off < 1:
            R.at(n, 'the subscript is %s x + %s for a table of %d entries over the unit interval' % (c, off, N), key='scale', fn=f['qname'])
        else:
            R.ok('%s: scaled by %s' % (f['key'], c))


def param_x(f):
    ps = [p for p in f['params'] if p['t'] in ('float', 'double', 'const float', 'const double', 'const float &', 'const double &')]
    return T('param', f['key'], ps[0]['name']) if len(ps) == 1 else None


@rule('C19', 'range reduction', 'the argument is halved until it is in the unit interval, from a finite value, and the result is squared once for each halving')
def r_halving(C, R):
    for f, g, n, name, idx in shapes(C):
        xs = [s for s in subterms(idx) if s.op == 'phi']
        if len(xs) != 1:
            R.unsure('%s: no range reduction found' % f['qname'])
            continue
        x = xs[0]
        vals = list(g.I.phis.get(x, {}).values())
        init = [v for v in vals if x not in set(subterms(v))]
        step = [v for v in vals if x in set(subterms(v)) and v != x]
        if len(init) != 1 or len(step) != 1:
            R.unsure('%s: range reduction' % f['qname'])
            continue
        loop = [l for fr in g.I.frame_list for l in g.loops(fr) if x in l.phis()]
        if len(loop) != 1:
            R.unsure('%s: range reduction loop' % f['qname'])
            continue
        loop = loop[0]
        c = scale_of(g.N(step[0]), x)
        if c is None:
            R.unsure('%s: step of the range reduction' % f['qname'])
            continue
        if c != 0.5:
            R.at(n, 'each step multiplies the argument by %s, squaring undoes only a halving' % c, key='half', fn=f['qname'])
            continue
        R.ok('%s: halving' % f['key'])
        # finite
        first = [m for m in g.ops('branch') if m.frame is loop.fr and m.i in {e for e in loop_nodes(g, loop)}]
        b = Bounds(g, n.i).of(g.N(init[0]))
        if not b.known:
            R.unsure('%s: start of the range reduction' % f['qname'])
        elif b.hi == INF and not b.hs:
            R.at(n, 'an infinite argument is halved forever', key='infinite', fn=f['qname'])
        else:
            R.ok('%s: the argument is finite where it is halved' % f['key'])
        # counter
        inds = loop.inductions()
        cnts = [(p, i, s) for p, (i, s) in inds.items() if s == 1]
        # squaring
        sq = []
        for fr in g.I.frame_list:
            for l in g.loops(fr):
                if l is loop or (l.fr is loop.fr and l.head == loop.head):
                    continue
                for p, d in l.phis().items():
                    vs = list(d.values())
                    st = [g.N(v) for v in vs if p in set(subterms(v)) and v != p]
                    if len(st) == 1 and len(poly(st[0])) == 1 and set(poly(st[0])) <= {frozenset([(p, e)]) for e in (1, 2, 3, 4)}:
                        i0 = [g.N(v) for v in vs if p not in set(subterms(v))]
                        if len(i0) == 1 and any(s.op == 'glob' and s.args[0] == name for s in subterms(i0[0])):
                            sq.append((l, p, i0[0], poly(st[0])))
        if len(sq) != 1 or not cnts:
            other = result_kind(g, f)
            R.unsure('%s: no squaring loop recognised' % f['qname'])
            continue
        l, p, i0, how = sq[0]
        if how != {frozenset([(p, 2)]): 1}:
            R.at(n, 'a halving of the argument is not undone by a squaring of the result', key='square', fn=f['qname'])
            continue
        tests = [t for t in l.tests() if t.get('trips') is not None]
        if len(l.tests()) != 1 or not tests:
            R.unsure('%s: number of squarings' % f['qname'])
            continue
        a, k = tests[0]['trips']
        hit = [q for q, i, s in cnts if set(a) == {q} and a[q] == 1]
        if not hit:
            R.unsure('%s: number of squarings' % f['qname'])
            continue
        i = [i for q, i, s in cnts if q == hit[0]][0]
        if i.op != 'const':
            R.unsure('%s: count of halvings' % f['qname'])
            continue
        if i.args[0] + k != 0:
            R.at(n, 'the result is squared %+d times relative to the halvings' % (i.args[0] + k), key='count', fn=f['qname'])
        else:
            R.ok('%s: as many squarings as halvings' % f['key'])
        # what comes out
        rets = ret_values(g, f, n) if l.fr is g.root else []
        for m, v in rets:
            if g.N(v) != p:
                R.at(m, 'the value of the table path is %s, not the squared entry' % show(v, 3), key='result', fn=f['qname'])
            else:
                R.ok('%s: the squared entry is returned' % f['key'])


def loop_nodes(g, l):
    return [n.i for n in g.nodes if getattr(n, 'frame', None) is l.fr and getattr(n, 'block', None) in l.body]


def result_kind(g, f):
    return None


def ret_values(g, f, n):
    """values returned after the table was read"""
    out = []
    after = g.reach([n.i], exc=False)
    for m in g.ops('ret'):
        if m.frame is g.root and m.i in after and m.op.val is not None:
            out.append((m, m.op.val))
    return out


@rule('C19', 'other arguments', 'a negative argument gives the reciprocal of the positive result, one too large for the table the exponential itself, and the recursion ends')
def r_other(C, R):
    done = set()
    for f, g, n, name, idx in shapes(C):
        if f['key'] in done:
            continue
        done.add(f['key'])
        x = param_x(f)
        if x is None:
            R.unsure('%s: argument' % f['qname'])
            continue
        after = g.reach([n.i], exc=False)
        for m in g.ops('ret'):
            if m.frame is not g.root or m.op.val is None or m.i in after:
                continue
            v = g.N(m.op.val)
            b = Bounds(g, m.i)
            if v.op == 'call' and str(v.args[0]).split('::')[-1] in ('exp', 'expf'):
                c = scale_of(v.args[1], x)
                if c is None:
                    R.unsure('%s: %s' % (f['qname'], show(v, 3)))
                elif c != 1:
                    R.at(m, 'the exponential of %s is returned for the argument %s' % (show(v.args[1], 3), x.args[1]), key='exp', fn=f['qname'])
                else:
                    R.ok('%s: exponential' % f['key'])
                continue
            rs = [s for s in subterms(v) if s.op == 'res']
            if len(rs) == 1:
                call = [k for k in g.ops('call') if k.op.res == rs[0] or k.op.nid == rs[0].args[1] and k.frame.id == rs[0].args[0]]
                if not call or not call[0].op.args:
                    R.unsure('%s: %s' % (f['qname'], show(v, 3)))
                    continue
                a = g.N(call[0].op.args[0])
                c = scale_of(a, x)
                if c is None:
                    R.unsure('%s: recursion on %s' % (f['qname'], show(a, 3)))
                    continue
                # e(x) = v(e(c x)):  c = -1 needs 1/r, c = 1/2 needs r*r
                p = poly(v)
                want = {frozenset([(rs[0], int(round(1 / c)))]): 1} if c in (-1, 0.5, 0.25) else None
                if want is None:
                    R.at(m, 'the result for %s times the argument is used' % c, key='recursion', fn=f['qname'])
                elif p != want:
                    R.at(m, '%s is returned although e^x is the result for %s x to the power %d' % (show(v, 3), c, round(1 / c)), key='recursion', fn=f['qname'])
                else:
                    R.ok('%s: recursion on %s x' % (f['key'], c))
                # ends: the argument of the recursion does not satisfy the condition of the recursion
                if c == -1:
                    bb = Bounds(g, call[0].i).of(x)
                    arg = Bounds(g, call[0].i).of(a)
                    if arg.lo < bb.hi or (arg.lo == bb.hi and not arg.ls and not bb.hs) :
                        R.at(call[0], 'the recursion is entered for arguments in %r and calls itself with %r' % (bb, arg), key='ends', fn=f['qname'])
                    elif bb.nan:
                        R.at(call[0], 'the recursion never ends for NaN', key='ends', fn=f['qname'])
                    else:
                        R.ok('%s: recursion ends' % f['key'])
                continue
            if v == x or v.op == 'const':
                bb = b.of(x)
                if v.op == 'const' and bb.known and not bb.nan and bb.lo == bb.hi and abs(math.exp(bb.lo) - v.args[0]) < 1e-12:
                    R.ok('%s: constant' % f['key'])
                elif v.op == 'const' and isinstance(v.args[0], (int, float)) and v.args[0] == 0 and bb.hi <= -800 and not bb.nan:
                    R.ok('%s: underflow' % f['key'])
                else:
                    R.unsure('%s: %s' % (f['qname'], show(v, 3)))
                continue
            R.unsure('%s: %s' % (f['qname'], show(v, 3)))
