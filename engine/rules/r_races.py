"""C01: lock sets over everything several threads can reach."""
from common import *
from rules.pool import *
from rules.r_threads import thread_safe_methods, field_type

READERS = ('begin', 'end', 'cbegin', 'cend', 'front', 'back', 'at', 'operator[]', 'size', 'empty', 'find', 'count', 'get',
           'operator->', 'operator*', 'rows', 'cols', 'data', 'sum', 'operator()', 'joinable', 'get_id', 'operator bool')
SYNC = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::condition_variable', 'std::atomic',
        'std::timed_mutex', 'std::shared_timed_mutex', 'std::condition_variable_any', 'std::once_flag', 'std::atomic_flag')


def is_sync(t):
    t = strip_type(t or '')
    return t.startswith(SYNC)


def shared(g, l):
    """the location (normalised) if other threads can reach it, else None"""
    l = g.N(l)
    if not is_loc(l):
        return None
    r = root(l)
    if r.op == 'glob':
        return l
    if r.op != 'mem':
        return None
    p = r.args[0]
    while True:
        if p.op in ('this', 'param'):
            return l
        if p.op == 'addr':
            return shared(g, p.args[0])
        if p.op == 'init':
            b = root(p.args[0])
            if b.op == 'glob':
                return l
            if b.op == 'mem':
                p = b.args[0]
                continue
            return None
        if p.op == 'call' and len(p.args) > 1 and isinstance(p.args[1], Term):
            o = objid(p.args[1])
            if is_loc(o):
                b = root(o)
                if b.op == 'mem':
                    p = b.args[0]
                    continue
            return None
        return None


def accesses(g):
    """(node, location, 'r'|'w', what)"""
    out = []
    live = g.live(True)
    for n in g.nodes:
        if n.kind != 'op' or n.i not in live:
            continue
        o = n.op
        if o.kind in ('read', 'index', 'view') and o.loc is not None and is_loc(o.loc):
            out.append((n, o.loc, 'r', 'read'))
        elif o.kind == 'write' and o.loc is not None:
            out.append((n, o.loc, 'w', 'written'))
        elif o.kind == 'static':
            continue
        elif o.kind in ('call', 'ecall') and o.child is None:
            nm = o.name or ''
            nd = o.node or {}
            if o.obj is not None and isinstance(o.obj, Term) and is_loc(o.obj):
                const_m = nd.get('mc') or (short(nm) in READERS and nm.startswith(('std::', 'Eigen::')) and
                                           not nm.startswith(('std::mersenne', 'std::linear', 'std::random',
                                                              'std::bernoulli', 'std::uniform')) and
                                           'engine' not in nm)
                if o.kind == 'ecall':
                    const_m = True
                if not nm.startswith(NS):
                    out.append((n, o.obj, 'r' if const_m else 'w', short(nm)))
                elif not const_m and short(nm) not in ('dispatch', 'doc_e_step'):
                    out.append((n, o.obj, 'w', short(nm)))
            pk = nd.get('pk') or []
            for i, l in enumerate(o.locs or ()):
                if l is not None and isinstance(l, Term) and is_loc(l) and i < len(pk) and pk[i] == 'r' and \
                        o.kind == 'call':
                    out.append((n, l, 'a', short(nm)))
    return out


def ltype(C, l):
    """declared type of the memory at l where known"""
    while l.op == 'v':
        l = l.args[0]
    if l.op == 'f':
        return field_type(C, l)
    return ''


def synced_class(C, t):
    """every method of the class only touches its changing state under a lock of its own"""
    t = strip_type(t)
    cache = C.__dict__.setdefault('_sync', {})
    if t in cache:
        return cache[t]
    cache[t] = None
    ms = [f for f in C.F.functions.values() if Interp.ckey(f).replace(' ', '') == t.replace(' ', '') and not f.get('ctor') and not f.get('dtor') and
          not f.get('static')]
    if not ms:
        return None
    bad = class_races(C, ms)
    cache[t] = not bad
    return cache[t]


def class_races(C, methods):
    """fields that change after construction and are not always accessed under one common lock:
    list of (node, field, description)"""
    acc = {}
    for f in methods:
        g = C.run(f)
        L = Locks(g)
        for n, l, m, what in accesses(g):
            s = shared(g, l)
            if s is None:
                continue
            if is_sync(ltype(C, s)) or 'mutex' in str(ltype(C, s)):
                continue
            r = root(s)
            if r.op == 'mem' and r.args[0].op == 'param':
                continue
            i = Pool.ident(store_loc(s))
            if m == 'a':
                m = 'r' if synced_class(C, ltype(C, s)) else 'w'
            acc.setdefault(i, []).append((n, m, frozenset(Pool.ident(x) for x in L.must(n.i)), f))
    bad = []
    for i, xs in acc.items():
        if not any(m == 'w' for n, m, ls, f in xs):
            continue
        common = None
        for n, m, ls, f in xs:
            common = ls if common is None else common & ls
        if not common:
            # blame the access with the fewest locks
            n, m, ls, f = min(xs, key=lambda x: (len(x[2]), x[1] != 'w'))
            bad.append((n, i, len(xs)))
    return bad


def field_name(i):
    try:
        if isinstance(i, tuple) and i and i[0] == '*':
            return '*' + field_name(i[1])
        return i[0][1]
    except Exception:
        return str(i)[:60]


@rule('C01', 'pool', 'whatever a worker and the calling thread both access while workers run, and one of them changes, is '
      'always accessed under one common lock')
def c01_pool(C, R):
    for P in pools(C):
        g = P.g
        con = concurrent(P)
        LM = Locks(g)
        main = {}
        for n, l, m, what in accesses(g):
            if n.i not in con:
                continue
            s = shared(g, l)
            if s is None or is_sync(ltype(C, s)):
                continue
            main.setdefault(Pool.ident(store_loc(s)), []).append(
                (n, 'w' if m in 'aw' else 'r', frozenset(Pool.ident(x) for x in LM.must(n.i)), P.name))
        for W in P.workers:
            wg = W.g
            LW = Locks(wg)
            wk = {}
            for n, l, m, what in accesses(wg):
                s = shared(wg, l)
                if s is None or is_sync(ltype(C, s)):
                    continue
                wk.setdefault(Pool.ident(store_loc(s)), []).append(
                    (n, 'w' if m in 'aw' else 'r', frozenset(Pool.ident(x) for x in LW.must(n.i)), fname(W.fn)))
            for i, xs in sorted(wk.items(), key=str):
                ys = main.get(i, [])
                al = xs + ys
                if not any(m == 'w' for n, m, ls, w in al):
                    R.ok('%s: %s only read' % (P.name, field_name(i)))
                    continue
                common = None
                for n, m, ls, w in al:
                    common = ls if common is None else common & ls
                if common:
                    R.ok('%s: %s always accessed under %s (%d accesses)' % (P.name, field_name(i), ', '.join(
                        field_name(c) for c in common), len(al)))
                    continue
                # the least protected access, workers' writes with themselves included
                cnt = {}
                for n, m, ls, w in al:
                    for c in ls:
                        cnt[c] = cnt.get(c, 0) + 1
                best = max(cnt, key=lambda c: cnt[c]) if cnt else None
                for n, m, ls, w in al:
                    if best is None or best not in ls:
                        R.at(n, '%s is %s by %s without the lock that protects it from the %s' % (
                            field_name(i), 'changed' if m == 'w' else 'read', w,
                            'workers' if (n, m, ls, w) in ys else 'other threads'), key='race %s' % field_name(i))
                        break


def virtual_calls(g, live=None):
    for n in g.nodes:
        if n.kind == 'op' and n.op.kind == 'call' and n.op.child is None and (n.op.name or '').startswith(NS) and \
                (live is None or n.i in live):
            yield n, n.op.name[len(NS):]


def own_accesses(C, f):
    """members of its own object a method reads / changes, with the locks held"""
    g = C.run(f)
    L = Locks(g)
    out = {}
    for n, l, m, what in accesses(g):
        s = shared(g, l)
        if s is None or is_sync(ltype(C, s)) or root(s).op != 'mem' or root(s).args[0].op != 'this':
            continue
        if m == 'a' and synced_class(C, ltype(C, s) or ''):
            continue
        top = s
        while top.args[0].op in ('f', 'v'):
            top = top.args[0]
        out.setdefault(top.args[1] if top.op == 'f' else str(top), []).append((n, 'w' if m in 'aw' else 'r', frozenset(Pool.ident(x) for x in L.must(n.i))))
    return out


@rule('C01', 'same-object', 'a method the calling thread runs on the corpus or the expectation step while workers use it does not change what '
      'the methods run by the workers access')
def c01_same(C, R):
    done = set()
    for P in pools(C):
        con = concurrent(P)
        mine = {}
        for n, q in virtual_calls(P.g, con):
            mine.setdefault(q, n)
        theirs = {q for W in P.workers for n, q in virtual_calls(W.g)}
        for q, n in sorted(mine.items()):
            for t in sorted(theirs):
                if q.rsplit('::', 1)[0] != t.rsplit('::', 1)[0]:
                    continue
                for f in C.overrides(q):
                    for h in C.overrides(t):
                        if Interp.ckey(f) != Interp.ckey(h):
                            continue
                        a, b = own_accesses(C, f), own_accesses(C, h)
                        bad = [x for x in a if x in b and any(m == 'w' for _, m, _ in a[x] + b[x]) and
                               not frozenset.intersection(*[ls for _, _, ls in a[x] + b[x]])]
                        if bad and (n.op.where, q) not in done:
                            done.add((n.op.where, q))
                            R.at(n, '%s of %s is accessed by %s while workers run %s on the same object' % (
                                bad[0], Interp.ckey(f).replace(NS, ''), short(q), short(t)), key='race %s' % bad[0])
                        elif not bad:
                            R.ok('%s: %s and %s can overlap' % (Interp.ckey(f).replace(NS, ''), short(q), short(t)))


def worker_side(C, R, f, g):
    """code that several workers run at once on the same objects"""
    L = Locks(g)
    n0 = 0
    for n, l, m, what in accesses(g):
        s = shared(g, l)
        if s is None:
            continue
        t = ltype(C, s)
        if is_sync(t):
            continue
        if m == 'r':
            n0 += 1
            continue
        if root(s).op == 'glob' and n.frame.fn.get('qname') and 'thread_local' in str(root(s)):
            continue
        lk = L.must(n.i)
        if m == 'a':
            if 'std::basic_ostream' in t or root(s).op == 'glob' and 'std::c' in str(root(s)):
                continue
            sc = synced_class(C, t) if t else None
            if sc:
                R.ok('%s: passes the internally synchronised %s' % (fkey(f), strip_type(t)))
                continue
            if lk:
                continue
            if not t or sc is None and t.startswith(NS):
                R.unsure('%s: passes %s to %s' % (fkey(f), show(s, 4), what))
                continue
            R.at(n, '%s of type %s is shared by all workers and used by %s without a lock' % (
                field_name(Pool.ident(store_loc(s))), strip_type(t), what), key='shared argument', fn=f['qname'])
            continue
        if lk:
            R.ok('%s: %s written under a lock' % (fkey(f), show(s, 3)))
            continue
        R.at(n, '%s is %s while other workers run the same code on the same object' % (
            'the global ' + str(root(s).args[0]) if root(s).op == 'glob' else show(s, 4),
            'changed' if m == 'w' else 'used'), key='unlocked write', fn=f['qname'])
    R.ok('%s: %d shared reads, no unprotected write' % (fkey(f), n0))


@rule('C01', 'worker-code', 'per-document inference and corpus look-up, which all workers run concurrently on the same '
      'objects, change no shared memory without a lock')
def c01_steps(C, R):
    for sc in C.scalars:
        for f in C.overrides('em::EStepInterface::doc_e_step', sc):
            worker_side(C, R, f, C.run(f))
    for f in C.F.functions.values():
        c = f.get('cls') or ''
        if c.startswith(NS + 'corpus::') and f.get('const') and not f.get('fa'):
            worker_side(C, R, f, C.run(f))


@rule('C01', 'model', 'the per-document part of the maximization, which runs while workers read the model, does not '
      'change the model')
def c01_model(C, R):
    for sc in C.scalars:
        for f in C.overrides('em::MStepInterface::doc_m_step', sc):
            g = C.run(f)
            live = g.live(True)
            bad = False
            for n, l, m, what in accesses(g):
                if m == 'r':
                    continue
                s = g.N(l)
                if not is_loc(s):
                    continue
                r = root(store_loc(s))
                path = []
                x = s
                while x.op in ('f', 'v'):
                    if x.op == 'f':
                        path.append(x.args[1])
                    x = x.args[0]
                if r.op == 'mem' and r.args[0].op == 'param' and path and path[-1] in ('alpha', 'beta', 'eta'):
                    bad = True
                    R.at(n, 'the model parameter %s is changed while the workers of the same pass read it' % path[-1],
                         key='model %s' % path[-1], fn=f['qname'])
            if not bad:
                R.ok('%s leaves the model alone' % fkey(f))


@rule('C01', 'classes', 'the classes shared between threads access each changing member under one common lock in all of '
      'their methods')
def c01_classes(C, R):
    groups = {}
    for f in thread_safe_methods(C):
        c = Interp.ckey(f)
        groups.setdefault(c, []).append(f)
    roots = [c for c in groups if 'ThreadSafe' in c or 'SameThread' in c]
    if not any('ThreadSafeEventDispatcher' in c for c in roots) or not any('ThreadSafePRNG' in c for c in roots):
        raise AnalysisBroken('thread safe classes not found')
    disp = [f for c in roots if 'Dispatcher' in c for f in groups[c]]
    sets = [('dispatchers', disp)] + [(c, groups[c]) for c in roots if 'Dispatcher' not in c]
    for name, ms in sets:
        bad = class_races(C, ms)
        for n, i, k in bad:
            R.at(n, 'member %s is accessed without the lock its other accesses hold' % field_name(i),
                 key='member %s' % field_name(i))
        if not bad:
            R.ok('%s: members consistently locked in %d methods' % (name, len(ms)))
