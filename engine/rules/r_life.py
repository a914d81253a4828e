"""C27: references, iterators and lazy expressions do not outlive what they refer to."""
from common import *
from rules.r_init import repo_functions

ERASE = ('erase', 'clear', 'pop_front', 'pop_back', 'remove', 'remove_if', 'assign', 'resize', 'swap', 'splice', 'unique', 'pop')
GROW = ('push_back', 'emplace_back', 'insert', 'reserve', 'emplace')
REENTER = ('on_event', 'std::function::operator()')


def last(n):
    return (n or '').split('::')[-1]


def is_vector(n):
    return 'vector' in (n or '') or 'deque' in (n or '')


def local_of(l, fr):
    """the location is (part of) a variable or temporary of the frame"""
    r = root(l)
    return r if r.op in ('var', 'tmp') and r.args and r.args[0] == fr.id else None


def nodes_of(f):
    st = [f.get('nodes')]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st += list(x.values())
        elif isinstance(x, list):
            st += x


@rule('C27', 'iterators', 'an iterator is not advanced, dereferenced or passed on after its element was erased, or while a callback can change '
      'the container it runs over')
def iterators(C, R):
    for sc in C.scalars:
        check_iterators(C, R, sc)


def changers(C, sc):
    """containers that are members: which functions take elements off them (or reallocate them)"""
    out = {}
    for f in repo_functions(C, sc):
        g = C.run(f)
        for n in g.nodes:
            o = n.op if n.kind == 'op' else None
            if o is None or o.kind != 'call' or not isinstance(o.obj, Term) or n.frame is not g.root:
                continue
            l = o.obj
            if l.op == 'f' and root(l).op == 'mem' and root(l).args[0].op == 'this':
                if last(o.name) in ERASE or (last(o.name) in GROW and is_vector(o.name)):
                    out.setdefault(l.args[1], []).append(f)
    return out


def check_iterators(C, R, sc, only=None):
    ch = changers(C, sc)
    for f in repo_functions(C, sc):
        g = C.run(f)
        live = set(g.live(False))
        uses = []
        for n in g.nodes:
            o = n.op if n.kind == 'op' else None
            if o is None or n.i not in live:
                continue
            if o.kind == 'iter' and o.loc is not None and isinstance(o.val, Term) and o.val.op == 'iter':
                uses.append((n, o.loc, o.val))
        for n, v, it in uses:
            R.ok('%s: an iterator moves' % f['qname'].replace(NS, ''))
            cont = it.args[0]
            stop = [m.i for m in g.nodes if m.kind == 'op' and m.op.kind in ('write', 'bindref') and m.op.loc is v]
            for m in g.nodes:
                o = m.op if m.kind == 'op' else None
                if o is None or m.i not in live or m is n or o.kind not in ('call', 'maycall'):
                    continue
                if o.obj is cont and only is None:
                    gone = last(o.name) in ERASE and any(a is it or (isinstance(a, Term) and a.op == 'iter' and a.args[1] is it.args[1]) for a in o.args or ())
                    gone = gone or (last(o.name) in ERASE and last(o.name) not in ('erase', 'splice') and not o.args) or (last(o.name) in GROW and is_vector(o.name))
                    past = [p.i for p, w, x in uses if w is v and x.args[1] is it.args[1] and p.i != m.i]
                    if gone and last(o.name) == 'erase' and g.dominated(m.i, past):
                        continue            # moved on before the element was taken off
                    if gone and n.i in g.reach(succs(g, m.i), stop, False):
                        R.at(n.op, 'the iterator is used after %s has invalidated it' % last(o.name), key='iterator|invalid', fn=n.frame.fn['qname'])
                        break
                # a callback may do it
                if any(last(o.name) == last(r) or (o.name or '').endswith(r) for r in REENTER) and o.child is None:
                    if cont.op == 'f' and root(cont).op == 'mem' and root(cont).args[0].op == 'this' and cont.args[1] in ch:
                        other = [x for x in ch[cont.args[1]] if x is not f and x.get('access') != 2]
                        if other and n.i in g.reach(succs(g, m.i), stop, False):
                            R.at(n.op, 'the callback called in the loop may call %s, which changes the list the loop runs over' % last(other[0]['qname']),
                                 key='iterator|reentrant', fn=n.frame.fn['qname'])
                            break


def succs(g, i):
    return [e[0] for e in g.succ[i]]


@rule('C05', 'reentrant', 'listeners are called while running over a list that they cannot change by adding or removing listeners')
def reentrant(C, R):
    for sc in C.scalars:
        check_iterators(C, R, sc, only='callbacks')


@rule('C27', 'escape', 'no reference or pointer to a local, a by-value argument or a temporary is returned, stored in an object that outlives it, or '
      'captured by a callback that does')
def escape(C, R):
    for sc in C.scalars:
        for f in repo_functions(C, sc):
            g = C.run(f)
            fr = g.root
            if fr.exit_state is None:
                continue
            n = 0
            if isinstance(fr.ret, Term) and (f.get('rk') in ('r', 'cr', 'p') or str(f.get('ret', '')).endswith(('&', '*'))):
                n += 1
                for s in subterms(fr.ret):
                    l = s if is_loc(s) else s.args[0] if s.op == 'addr' else None
                    if l is not None and is_loc(l) and (s is fr.ret or s.op == 'addr') and local_of(l, fr) is not None and not refvar(f, l):
                        R.violation(f['qname'], 'returns a reference to %s, which ends with the call' % name_of(l), f['file'], f['line'], key='return')
                        break
            vals = [(k, v) for k, v in dict(fr.exit_state).items() if local_of(k, fr) is None]
            if isinstance(fr.ret, Term):
                vals.append((None, fr.ret))
            for k, v in vals:
                if k is not None and root(k).op in ('var', 'tmp'):
                    continue                # of a call that has ended
                if k is None and is_loc(v):
                    continue
                n += 1
                for s in subterms(v):
                    if s.op == 'addr' and local_of(s.args[0], fr) is not None and holds(k, v, s):
                        R.violation(f['qname'], '%s keeps a reference to %s after the call' % ('the result' if k is None else what(k), name_of(s.args[0])),
                                    f['file'], f['line'], key='escape|' + name_of(s.args[0]))
                        break
            # handed to something that keeps it
            for nd in g.nodes:
                o = nd.op if nd.kind == 'op' else None
                if o is None or o.kind != 'call' or last(o.name) not in ('add_listener', 'push_back', 'emplace_back', 'insert', 'dispatch'):
                    continue
                if isinstance(o.obj, Term) and is_loc(o.obj) and root(o.obj).op in ('var', 'tmp'):
                    continue
                for a in o.args or ():
                    if not isinstance(a, Term):
                        continue
                    n += 1
                    for s in subterms(a):
                        if s.op == 'lam':
                            bad = [c for c in s.args[2] if c[1] == 'r' and c[2].op == 'addr' and root(c[2].args[0]).op in ('var', 'tmp')]
                            if bad:
                                R.at(o, 'the registered callback refers to %s, which ends with the call' % name_of(bad[0][2].args[0]),
                                     key='capture|' + name_of(bad[0][2].args[0]), fn=nd.frame.fn['qname'])
                                break
            # an object of this function that keeps a temporary beyond its statement
            ops = [x.op for x in g.nodes if x.kind == 'op' and x.op.kind in ('write', 'bindref', 'iter') and isinstance(x.op.val, Term)]
            frs = {x.frame.id: x.frame for x in g.nodes if x.frame is not None}
            env = [(i, l) for i, q in frs.items() for l in q.env.values() if isinstance(l, Term)]
            named = {(i, l.args[0]) for i, l in env if l.op == 'mem'} | {(root(x.loc).args[0], x.val) for x in ops if x.loc is not None and root(x.loc).op == 'var'}
            extended = {l for i, l in env if l.op == 'tmp' and l.args[0] == i}
            for x in ops:
                if x.kind != 'write' or x.loc is None or x.loc.op != 'f' or x.val.op != 'addr' or x.val.args[0].op != 'tmp':
                    continue
                l, r = x.val.args[0], root(x.loc)
                keeps = r.args[0] == l.args[0] if r.op == 'var' else (r.op == 'mem' and (l.args[0], r.args[0]) in named)
                if keeps and l not in extended and isref(C, x.loc):
                    R.at(x, '%s keeps referring to a temporary that ends with the statement' % x.loc.args[1], key='temporary|%s' % x.loc.args[1], fn=f['qname'])
            R.ok('%s: values that leave the call' % f['qname'].replace(NS, ''), n)


def isref(C, l):
    rec = C.F.records.get(rec_of(l.args[2])) if l.args[2] else None
    return rec is None or any(x['name'] == l.args[1] and x.get('rk') in ('r', 'cr', 'p') for x in rec['fields'])


def holds(k, v, s):
    """the value is or contains the reference itself (not a call that was given it)"""
    if v is s:
        return True
    if v.op in ('lam', 'tuple', 'list', 'new'):
        return s in set(subterms(v))
    if v.op == 'cupd':
        return any(isinstance(a, Term) and holds(k, a, s) for a in v.args[2:])
    return False


def refvar(f, l):
    """the variable is itself a reference"""
    r = root(l)
    for x in nodes_of(f):
        if x.get('id') is not None and 'rk' in x and x['id'] == r.args[1] and x['rk'] in ('r', 'cr'):
            return True
    return False


def name_of(l):
    r = root(l)
    return 'a temporary' if r.op == 'tmp' else str(r.args[-1])


def what(k):
    return 'the member %s' % k.args[1] if k.op == 'f' else 'memory of the caller'


@rule('C27', 'lazy', 'a matrix expression kept in a variable refers only to matrices that outlive the variable')
def lazy(C, R):
    seen = set()
    for f in C.F.functions.values():
        if f['file'].startswith('/usr'):
            continue
        for n in nodes_of(f):
            if n.get('lazy') and 'name' in n:
                R.ok('%s: expression %s' % (f['qname'].replace(NS, ''), n['name']))
                if n.get('dangle') and (f['qname'], n['name']) not in seen:
                    seen.add((f['qname'], n['name']))
                    R.violation(f['qname'], 'the expression %s refers to a temporary matrix that has ended' % n['name'], f['file'], f['line'], key='lazy|' + n['name'])


@rule('C27', 'callbacks', 'an object that registers a callback referring to itself takes it off every dispatcher again when it is destroyed')
def callbacks(C, R):
    for sc in C.scalars:
        regs, dtors = {}, {}
        for f in repo_functions(C, sc):
            cls = Interp.ckey(f)
            if f['qname'].split('(')[0].split('::')[-1].startswith('~'):
                dtors[cls] = f
                continue
            g = C.run(f)
            for nd in g.nodes:
                o = nd.op if nd.kind == 'op' else None
                if o is None or o.kind != 'call' or o.child is not None or last(o.name) != 'add_listener':
                    continue
                lams = [s for a in o.args or () if isinstance(a, Term) for s in deep(g, a) if s.op == 'lam']
                if any(s.args[1] is not None and 'this' in {x.op for x in subterms(s.args[1])} for s in lams if isinstance(s.args[1], Term)) and not own_dispatcher(o.obj):
                    regs.setdefault(cls, []).append((f, nd))
        for cls, rs in sorted(regs.items()):
            f, nd = rs[0]
            objs = {str(show(x[1].op.obj)) for x in rs}
            d = dtors.get(cls)
            if d is None:
                R.at(nd.op, 'a callback that refers to the object is registered and never taken off: the class has no destructor that does', key='unregister', fn=f['qname'])
                continue
            g = C.run(d)
            off = [x for x in g.nodes if x.kind == 'op' and x.op.kind == 'call' and x.op.child is None and last(x.op.name) == 'remove_listener']
            if any(l is not None for x in off for l in g.enclosing_loops(x.i)):
                R.unsure('callbacks are taken off in a loop of %s' % d['qname'])
                continue
            rem = {str(show(x.op.obj)) for x in g.nodes if x.kind == 'op' and x.op.kind == 'call' and x.op.child is None and last(x.op.name) == 'remove_listener'}
            if len(rem) < len(objs):
                R.violation(d['qname'], 'takes the callback off %d of the %d dispatchers it is registered with' % (len(rem), len(objs)), d['file'], d['line'], key='unregister')
            else:
                R.ok('%s: callbacks are taken off' % cls.replace(NS, ''), len(rem))


def own_dispatcher(o):
    return False


def deep(g, a):
    """the value and what the objects it points to hold"""
    for s in subterms(a):
        yield s
        if s.op in ('obj', 'new', 'addr'):
            for st in (g.root.exit_state or {},):
                for k, v in dict(st).items():
                    if isinstance(v, Term) and root(k).op == 'mem' and root(k).args[0] is s:
                        for x in subterms(v):
                            yield x
