"""C28: nothing read before it is given a value."""
import re
from common import *
from rules.r_corpus import is_ctor, app_ctx, own
from rules.r_search import subst, truth
from rules.r_norm import plain, loop_at, edge_facts

ACCESS = ('rows', 'cols', 'size', 'data', '()', '[]', 'coeff', 'coeffRef', 'row', 'col', 'block', 'segment', 'head', 'tail', 'array', 'matrix',
          'transpose', 'cast', 'leftCols', 'rightCols', 'topRows', 'bottomRows', 'middleCols', 'middleRows')
BUILTIN = re.compile(r'^(const )?(unsigned )?(bool|char|short|int|long|long long|float|double|size_t|std::size_t|unsigned|unsigned char|signed char|__int128)( int)?$')


def scalar_type(t):
    t = t.strip()
    return bool(BUILTIN.match(t)) or t.endswith('*') or t in ('unsigned long', 'unsigned int', 'long unsigned int')


def repo_functions(C, sc):
    for f in C.F.functions.values():
        if f['file'].startswith('/usr') or not f.get('blocks', True):
            continue
        if not C.scalar_ok(f, sc):
            continue
        yield f


def written(g, name):
    """the values the member has when the constructor is done; None when it is never written"""
    vs = [v for k, v in dict(g.root.exit_state).items() if k.op == 'f' and k.args[1] == name and root(k).op == 'mem' and root(k).args[0].op == 'this']
    return vs or None


def base_names(C, cls):
    out, work = [], [rec_of(cls)]
    while work:
        c = work.pop()
        if c in out:
            continue
        out.append(c)
        r = C.F.records.get(c)
        if r:
            work += [rec_of(b if isinstance(b, str) else b.get('t') or b.get('name') or '') for b in r.get('bases', ())]
    return out


def left_empty(C, m, sc):
    """no constructor of the class gives the matrix member a size"""
    if m.op != 'f' or len(m.args) < 3:
        return False
    cls = m.args[2]
    seen = False
    for f in C.F.functions.values():
        if not f.get('ctor') or not (f['qname'] or '').startswith(cls + '::') or not C.scalar_ok(f, sc):
            continue
        try:
            g = C.run(f)
        except AnalysisBroken:
            return False
        seen = True
        for v in written(g, m.args[1]) or ():
            v = g.N(v)
            if not (v.op == 'E0' or (v.op == 'alloc' and len(v.args) < 2)):
                return False
    return seen


class Dirty(object):
    """does the value depend on something that was never given one"""
    def __init__(self, g, unset=None):
        self.g = g
        self.memo = {}
        self.unset = unset      # member -> no constructor gives it a size

    def fresh(self, t, seen=frozenset()):
        """the content of the matrix t is still what the allocation left"""
        g = self.g
        t = plain(g.N(t))
        if t.op in ('alloc', 'uninit'):
            return t
        if t.op == 'phi' and t in g.I.phis and t not in seen:
            l = loop_at(g, t)
            if l is None:
                return None
            ini = [v for k, v in g.I.phis[t].items() if k[0] not in l.body]
            for v in ini:
                r = self.fresh(v, seen | {t})
                if r is None:
                    return None
            if any(self.assigns(v, t, set()) for k, v in g.I.phis[t].items() if k[0] in l.body):
                return None
            return r if ini else None
        return None

    def assigns(self, v, stop, seen):
        g = self.g
        v = plain(g.N(v))
        if v is stop or v in seen:
            return False
        seen.add(v)
        if v.op == 'upd':
            return v.args[2] == '=' or self.assigns(v.args[0], stop, seen)
        if v.op == 'phi' and v in g.I.phis:
            return any(self.assigns(x, stop, seen) for x in g.I.phis[v].values())
        return v.op not in ('alloc', 'uninit')

    def __call__(self, t):
        if not isinstance(t, Term):
            return None
        g = self.g
        t = g.N(t)
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self.go(t)
        self.memo[t] = r
        return r

    def go(self, t):
        g = self.g
        if t.op == 'uninit':
            return (t, [])
        if t.op == 'alloc':
            return (t, [])
        if t.op == 'E':
            if t.args[0] in ('rows', 'cols', 'size', 'data'):
                return None
            return self.some(t.args[1:])
        if t.op == 'op':
            return self.some(t.args[1:])
        if t.op == 'ite':
            return self(t.args[0])
        if t.op == 'call':
            return self.some(t.args[1:])
        if t.op == 'upd':
            old, path, how, val = t.args
            r = self(val)
            if r:
                return r
            if how not in ('=',):
                f = self.fresh(old)
                if f is not None:
                    return (f, [])
            o = plain(g.N(old))
            if how == '=' and o.op == 'phi' and any(plain(g.N(v)).op == 'M' and plain(g.N(v)).args[0] == 'resize' for v in g.I.phis.get(o, {}).values()):
                return None                 # part of it is given a value: whether all of it is, is not decided here
            return None if o.op in ('alloc', 'uninit') else self(o)
        if t.op == 'phi' and t in g.I.phis:
            l = loop_at(g, t)
            for k, v in g.I.phis[t].items():
                v = g.N(v)
                if v is t:
                    continue
                if l is not None and k[0] not in l.body and (v.op == 'alloc' or (v.op == 'M' and v.args[0] == 'resize')):
                    if v.op == 'alloc' and len(v.args) > 1 and self.wholly(t, l):
                        return (v, [(t, k)])    # the loop may be left before it has computed the matrix
                    continue                # filled by the loop: whether all of it is, is not decided here
                w = plain(v)
                if w.op == 'M' and w.args[0] == 'resize' and self.empty(w.args[1], edge_facts(g, t, k)):
                    return (w, [(t, k)])
                r = self(v)
                if r:
                    return (r[0], r[1] + [(t, k)])
            if l is not None:
                ini = [g.N(v) for k, v in g.I.phis[t].items() if k[0] not in l.body]
                if ini and all(v.op == 'uninit' for v in ini):
                    return (ini[0], [(t, None)])
                if ini and all(plain(v).op == 'alloc' and len(plain(v).args) > 1 for v in ini) and self.accumulates(t, l):
                    return (plain(ini[0]), [])
            return None
        return None

    def wholly(self, t, l):
        """the loop l either leaves the matrix t alone or replaces it as a whole, and may do so zero times"""
        g = self.g
        if any(x.get('trips') is not None and not x['trips'][0] and x['trips'][1] > 0 for x in l.tests()):
            return False
        work, seen, whole = [v for k, v in g.I.phis[t].items() if k[0] in l.body], set(), 0
        while work:
            v = plain(g.N(work.pop()))
            if v is t or v in seen:
                continue
            seen.add(v)
            if v.op == 'phi' and v in g.I.phis:
                work += g.I.phis[v].values()
                continue
            if v.op in ('upd', 'cupd', 'eff', 'alloc', 'uninit', 'filled'):
                return False
            whole += 1
        return whole > 0

    def accumulates(self, t, l):
        """whatever the loop l leaves in the matrix t it computes, as a whole, from what was there"""
        g = self.g
        acc, work, seen = 0, [v for k, v in g.I.phis[t].items() if k[0] in l.body], set()
        while work:
            v = plain(g.N(work.pop()))
            if v is t or v in seen:
                continue
            seen.add(v)
            if v.op == 'phi' and v in g.I.phis and v.args[0] == t.args[0] and v.args[2:] == t.args[2:] and loop_at(g, v) is None:
                work += g.I.phis[v].values()
                continue
            if v.op == 'op' and any(isinstance(a, Term) and plain(g.N(a)) is t for a in v.args[1:]):
                acc += 1
                continue
            return False
        return acc > 0

    def empty(self, t, facts):
        """nothing was stored in the matrix yet"""
        g = self.g
        t = plain(g.N(t))
        if t.op == 'E0' or (t.op == 'alloc' and len(t.args) < 2):
            return True
        for f in facts:
            f = g.N(f)
            if f.op == 'op' and f.args[0] == '==' and const(0) in f.args[1:]:
                o = [x for x in f.args[1:] if x is not const(0)]
                if len(o) == 1 and o[0].op == 'E' and o[0].args[0] in ('rows', 'cols', 'size') and plain(o[0].args[1]) is t:
                    return True
                # another member is still empty: the object has just been made, and its constructor left this one empty too
                if len(o) == 1 and o[0].op == 'E' and o[0].args[0] in ('rows', 'cols', 'size') and self.unset is not None:
                    m = plain(o[0].args[1])
                    if m.op == t.op == 'init' and m.args[0].op == t.args[0].op == 'f' and m.args[0].args[0] is t.args[0].args[0] and \
                            self.unset(t.args[0]) and self.unset(m.args[0]):
                        return True
        return False

    def first(self, t, l):
        """a value of the loop l that uses, as a whole, a matrix which has no content when the loop starts"""
        g = self.g
        for s in subterms(t):
            if (s.op == 'E' and s.args[0] not in ACCESS) or s.op == 'op':
                for a in s.args[1:]:
                    a = plain(g.N(a)) if isinstance(a, Term) else None
                    if a is not None and a.op == 'phi' and a in g.I.phis and same_loop(loop_at(g, a), l):
                        ini = [(k, plain(g.N(v))) for k, v in g.I.phis[a].items() if k[0] not in l.body]
                        if ini and all(v.op == 'alloc' and len(v.args) > 1 for k, v in ini):
                            return (ini[0][1], [(a, l)])
        return None

    def some(self, ts):
        for x in ts:
            r = self(x)
            if r:
                return r
        return None


def sinks(g):
    """(what, term, node) whose value matters"""
    for n in g.nodes:
        if n.kind != 'op':
            continue
        o = n.op
        if o.kind == 'branch':
            for t in list(o.args or ()) + [o.val]:
                if isinstance(t, Term):
                    yield 'a branch', t, n
        elif o.kind in ('call', 'ecall', 'spawn') and o.child is None:
            for t in list(o.args or ()):
                if isinstance(t, Term) and not is_loc(t) and t.op not in ('addr',):
                    yield 'an argument of %s' % (o.name or '?').split('::')[-1], t, n
        elif o.kind == 'write' and isinstance(o.val, Term) and o.loc is not None and o.loc.op == 'f' and root(o.loc).op == 'mem' and \
                root(o.loc).args[0].op in ('new', 'obj') and 'Event' in show(root(o.loc)):
            yield 'the %s of an event' % o.loc.args[1].strip('_'), o.val, n


@rule('C28', 'locals', 'no branch, argument, result or stored value depends on a local variable, or a matrix buffer, that has not been given a value on some way there')
def locals_(C, R):
    n = 0
    for sc in C.scalars:
        for f in repo_functions(C, sc):
            try:
                g = C.run(f)
            except AnalysisBroken:
                continue
            D = Dirty(g, lambda m: left_empty(C, m, sc))
            live = set(g.live(False))
            found = []
            for what, t, nd in sinks(g):
                if nd.i not in live:
                    continue
                n += 1
                r = D(t)
                if not r or guarded(g, r[1], nd):
                    for l in g.enclosing_loops(nd.i):
                        if l is None:
                            break
                        r = D.first(g.N(t), l) or r
                if r:
                    found.append((what, r, nd))
            if g.root.ret is not None and isinstance(g.root.ret, Term):
                v = g.root.ret
                v = g.I.read(g.root.exit_state, v) if is_loc(v) else v
                r = D(v)
                n += 1
                if r:
                    found.append(('the result', r, None))
            refs = set(out_refs(g, f))
            for k, v in dict(g.root.exit_state).items():
                rt = root(k)
                if (rt.op == 'mem' and rt.args[0].op in ('this', 'param')) or k in refs:
                    n += 1
                    # a buffer that only has its size yet may be kept: what matters is who reads it
                    r = next((r for r in (D(x) for x in parts(g, v)) if r), None) if bare(g, v) else D(v)
                    if r:
                        found.append(('what is stored in %s' % (k.args[1] if k.op == 'f' else 'memory of the caller'), r, None))
            for what, (u, way), nd in found:
                name = u.args[2] if u.op == 'uninit' and len(u.args) > 2 else 'a matrix'
                if guarded(g, way, nd):
                    R.unsure('%s: %s depends on %s, guarded' % (f['qname'], what, name))
                    continue
                msg = '%s depends on %s, which has not been given a value' % (what, name)
                if nd is not None:
                    R.at(nd.op, msg, key='uninit|%s' % name, fn=nd.frame.fn['qname'])
                else:
                    R.violation(f['qname'], msg, f['file'], f['line'], key='uninit|%s' % name)
    R.ok('values that decide a branch, are passed on, returned or stored', n)


def parts(g, v, seen=None):
    """the alternatives of a stored matrix other than a buffer whose content nobody has computed"""
    seen = set() if seen is None else seen
    v = plain(g.N(v))
    if v in seen:
        return
    seen.add(v)
    if v.op == 'phi' and v in g.I.phis:
        for x in g.I.phis[v].values():
            for y in parts(g, x, seen):
                yield y
    elif not (v.op == 'M' and v.args[0] == 'resize') and not (v.op == 'alloc' and len(v.args) > 1):
        yield v


def bare(g, v):
    """one of the alternatives of the stored value is a member that was given a size only"""
    work, seen = [v], set()
    while work:
        v = plain(g.N(work.pop()))
        if v in seen:
            continue
        seen.add(v)
        if v.op == 'M' and v.args[0] == 'resize':
            return True
        if v.op == 'phi':
            work += g.I.phis.get(v, {}).values()
    return False


def same_loop(a, b):
    return a is not None and (a is b or (a.fr is b.fr and a.head == b.head))


def guarded(g, way, nd):
    """where it is used something is known about a value joined at the same place: the unset way may be excluded"""
    if not way:
        return False
    fs = g.facts_at(nd.i) if nd is not None else ()
    l = way[0][1]
    if l is not None and not isinstance(l, tuple):
        # the first time round: what holds there with the values the loop starts with
        m = {}
        for p, d in g.I.phis.items():
            if p.args[:2] == way[0][0].args[:2]:
                vs = {g.N(v) for k, v in d.items() if k[0] not in l.body}
                if len(vs) == 1:
                    m[p] = vs.pop()
        for f in fs:
            f = subst(g, g.N(f), m)
            if truth(g.N(f)) is False or any(x.op in ('phi', 'uninit') for x in subterms(f)):
                return True
            if any(x.op == 'alloc' for x in subterms(f)) and nd.op.kind != 'branch':
                return True
        return False
    blocks = {t.args[:2] for t, k in way}
    for f in fs:
        for s in subterms(f):
            if s.op == 'phi' and s.args[:2] in blocks:
                return True
    # the same condition decides both
    for t, k in way:
        if k is None:
            continue
        for e in edge_facts(g, t, k):
            if neg(e) in fs:
                return True
    return False


def out_refs(g, f):
    """the parameters through which the caller's matrix is written"""
    names = {q['name'] for q in f.get('params') or () if 'Eigen::Ref<' in q.get('ct', q.get('t', '')) and not q.get('t', '').startswith('const')}
    for k in dict(g.root.exit_state):
        if k.op == 'var' and k.args[0] == g.root.id and k.args[-1] in names:
            yield k


def depends(g, v, p, seen):
    """the value v is computed from the content p had"""
    v = g.N(v)
    if v is p:
        return True
    if v in seen:
        return False
    seen.add(v)
    if v.op == 'phi':
        return any(depends(g, x, p, seen) for x in g.I.phis.get(v, {}).values())
    if v.op == 'E' and v.args[0] in ('rows', 'cols', 'size', 'data'):
        return False
    if v.op == 'filled':
        return depends(g, v.args[0], p, seen)
    if v.op == 'upd' and v.args[2] == '=':
        return depends(g, v.args[3], p, seen)         # whether the parts cover it all is not decided here
    return any(depends(g, x, p, seen) for x in v.args if isinstance(x, Term))


@rule('C28', 'gradient', 'the gradient a problem computes does not depend on what was in the matrix it is written to')
@rule('C21', 'gradient', 'the gradient a problem computes does not depend on what was in the matrix it is written to')
def gradients(C, R):
    n = 0
    for sc in C.scalars:
        for f in repo_functions(C, sc):
            if f['qname'].split('::')[-1] != 'gradient' or not f['qname'].startswith(NS + 'optimization::'):
                continue
            g = C.run(f)
            for k in out_refs(g, f):
                n += 1
                if depends(g, dict(g.root.exit_state)[k], T('param', f['key'], k.args[-1]), set()):
                    R.violation(f['qname'], 'adds the gradient to what %s already contains' % k.args[-1], f['file'], f['line'], key='gradient')
                else:
                    R.ok('%s' % f['qname'].replace(NS, ''))
    if not n:
        R.unsure('no problem computes a gradient')


@rule('C28', 'members', 'every constructor gives every built-in member a value that another method reads before it writes it')
def members(C, R):
    for sc in C.scalars:
        ctors, methods, free = {}, {}, {}
        for f in repo_functions(C, sc):
            for q in f.get('params') or ():
                c = rec_of(strip_type(q.get('t', '')))
                if c in C.F.records and '&' in q.get('t', '') and not q.get('t', '').startswith('const'):
                    free.setdefault(c, []).append(f)
            cls = rec_of(Interp.ckey(f))
            if cls not in C.F.records:
                continue
            (ctors if is_ctor(f) else methods).setdefault(cls, []).append(f)
        for cls, cs in sorted(ctors.items()):
            fields = [m for m in C.F.records[cls].get('fields', ()) if scalar_type(m['t']) and not m.get('init')]
            for m in fields:
                if m.get('static'):
                    continue
                bad = None
                for f in cs:
                    if f.get('implicit') or f.get('defaulted'):
                        continue
                    pars = f.get('params') or []
                    if len(pars) == 1 and rec_of(strip_type(pars[0].get('t', ''))) == cls:
                        continue            # copy or move
                    g = C.run(f)
                    vs = written(g, m['name'])
                    if vs is None or any(v.op in ('init', 'uninit') for v in vs):
                        bad = f
                        break
                if bad is None:
                    R.ok('%s::%s' % (cls.replace(NS, ''), m['name']))
                    continue
                # does a method use what it finds there?
                readers, writers = [], []
                for f in methods.get(cls, ()):
                    if f['qname'].split('::')[-1].startswith('~'):
                        continue
                    g = C.run(f)
                    hit = reads(g, m['name'])
                    if hit:
                        readers.append((f, hit))
                    elif written(g, m['name']):
                        writers.append(f)
                if not readers:
                    R.ok('%s::%s is not read before it is written' % (cls.replace(NS, ''), m['name']))
                    continue
                for f in free.get(cls, ()):
                    if any(k.op == 'f' and k.args[1] == m['name'] and root(k).op == 'mem' and root(k).args[0].op == 'param'
                           for k in dict(C.run(f).root.exit_state)):
                        writers.append(f)
                pure = [f for f, h in readers if writes_too(C, f, m['name'])]
                if pure or not writers:
                    R.violation(bad['qname'], 'leaves the member %s without a value, which %s then uses' % (m['name'], readers[0][0]['qname'].split('::')[-1]),
                                bad['file'], bad['line'], key='member|' + m['name'])
                else:
                    R.unsure('%s::%s is set by %s' % (cls, m['name'], writers[0]['qname'].split('::')[-1]))


def writes_too(C, f, name):
    return written(C.run(f), name) is not None


def reads(g, name):
    for nd in g.nodes:
        if nd.kind != 'op':
            continue
        o = nd.op
        for t in [o.val, o.res] + list(o.args or ()):
            if isinstance(t, Term):
                for s in subterms(t):
                    if s.op == 'init' and s.args[0].op == 'f' and s.args[0].args[1] == name and root(s.args[0]).op == 'mem' and root(s.args[0]).args[0].op == 'this':
                        return nd
    for k, v in dict(g.root.exit_state).items():
        if k.op == 'f' and k.args[1] == name:
            continue
        for s in subterms(v):
            if s.op == 'init' and s.args[0].op == 'f' and s.args[0].args[1] == name and root(s.args[0]).op == 'mem' and root(s.args[0]).args[0].op == 'this':
                return k
    return None
