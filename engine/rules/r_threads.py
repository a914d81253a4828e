"""C01-C06: workers, queues, events."""
from common import *
from rules.pool import *
from graph import lock_arg


# ---------------------------------------------------------------------------
# C02


@rule('C02', 'fill-queue', 'in partial_fit and transform the container the workers pop from receives exactly one '
      '(corpus, index) entry for every index in [0, corpus size), before any worker is started')
def c02_fill(C, R):
    for P in pools(C):
        g = P.g
        qs = P.queue_in()
        if qs is None:
            R.unsure('%s: no work queue recognised' % P.name)
            continue
        q, cpos, ipos = qs
        pushes = [n for n in P.main_pushes(q)]
        if not pushes:
            other = [n for n in g.nodes if n.kind == 'op' and n.op.kind in ('call', 'write') and
                     P.touches(n.op, q)]
            if other:
                R.unsure('%s: work queue filled in an unrecognised way' % P.name)
            else:
                R.violation(P.name, 'no document is ever queued for the workers', P.fn['file'], P.fn['line'])
            continue
        if len(pushes) > 1:
            inl = [x for x in pushes if any(l is not None for l in g.enclosing_loops(x.i))]
            alone = [x for x in pushes if x not in inl]
            more = [x for x in alone if any(l is not None and x.i in g.after(y.i, (), False) for y in inl for l in g.enclosing_loops(y.i)[:1])]
            late = [x for x in pushes if any(x.i in g.after(s.i, (), False) for s in P.spawns)]
            if inl and (more or late):
                R.at((more or late)[0], 'a document is queued again besides the loop over all of them', key='queued again')
                continue
            R.unsure('%s: several sites fill the work queue' % P.name)
            continue
        n = pushes[0]
        loops = g.enclosing_loops(n.i)
        if not loops or loops[0] is None:
            R.at(n, 'the work queue is filled outside of a loop over the documents')
            continue
        l = loops[0]
        v = g.N(n.op.val)
        if v.op != 'tuple' or len(v.args) <= max(cpos, ipos):
            R.unsure('%s: queued value not recognised: %s' % (P.name, show(v)))
            continue
        corpus, idx = v.args[cpos], v.args[ipos]
        check_all_indices(R, P, g, l, n, idx, P.size_of_corpus(corpus), 'queued')
        if len(loops) > 1 and any(x is not None and x.fr is l.fr for x in loops[1:]):
            R.at(n, 'documents are queued in a nested loop, more than once')
        # filled before workers start
        for s in P.spawns:
            if n.i in g.after(s.i, exc=False):
                R.unsure('%s: queue filled after workers may have started' % P.name)


def check_all_indices(R, P, g, l, n, idx, size, what):
    """node n in loop l is executed exactly once for every idx in [0,size)"""
    tests = [t for t in l.tests()]
    cts = [t for t in tests if t['trips'] is not None]
    if not cts:
        R.unsure('%s: loop at %s is not recognised as a counted loop' % (P.name, rel(l.where)))
        return
    if len(tests) > 1:
        extra = [t for t in tests if t is not cts[0]]
        R.at(n, 'the loop over the documents can be left early (%s)' % ', '.join(
            show(g.N(t['fact']), 4) if isinstance(t['fact'], Term) else 'break' for t in extra), key='early exit ' + what)
        return
    t = cts[0]
    trips = canon_lin(t['trips'])
    if size is None:
        R.unsure('%s: corpus size unknown' % P.name)
        return
    want = canon_lin(lin(size))
    if trips != want:
        if set(trips[0]) == set(want[0]):
            R.at(n, 'documents %s in a loop of %s iterations instead of %s' % (what, show_lin(trips), show_lin(want)),
                 key='trips ' + what)
        else:
            R.unsure('%s: %s loop runs %s times, corpus has %s documents' % (P.name, what, show_lin(trips),
                                                                            show_lin(want)))
        return
    if not l.top_tested(t, n.i):
        R.unsure('%s: bottom tested loop' % P.name)
        return
    cnt = per_iteration(g, l, [n.i], t)
    if cnt - {1}:
        R.at(n, 'a document can be %s %s times in one iteration' % (what, ' or '.join(
            'zero' if c == 0 else 'several' if c == 2 else 'one' for c in sorted(cnt))), key='count ' + what)
        return
    if idx is not None:
        cv = l.covers(idx, t)
        if cv is None:
            inv = not any(s.op == 'phi' and s.args[0] == l.fr.id and s.args[1] in l.body for s in subterms(g.N(idx)))
            if inv and not any(s.op in ('res', 'eff') for s in subterms(g.N(idx))):
                R.at(n, 'the same document index %s is %s on every iteration' % (show(g.N(idx), 4), what),
                     key='index ' + what)
            else:
                R.unsure('%s: index %s not linear in the loop' % (P.name, show(g.N(idx), 4)))
            return
        d, first = cv
        first = canon_lin(first)
        wantf = ({}, 0) if d == 'up' else (want[0], want[1] - 1)
        if first != wantf:
            R.at(n, 'documents %s starting at index %s instead of %s' % (what, show_lin(first), show_lin(wantf)),
                 key='first ' + what)
            return
    R.ok('%s: %s once for every document at %s' % (P.name, what, n.op.where))


@rule('C02', 'worker', 'a worker processes exactly the entry it removed from the queue, publishes exactly one result '
      'per entry together with that entry\'s index, and stops only when the queue is empty')
def c02_worker(C, R):
    for P in pools(C):
        for W in P.workers:
            g = W.g
            ds = W.doc_calls
            if not ds:
                R.violation(fname(W.fn), 'the worker never calls doc_e_step', W.fn['file'], W.fn['line'])
                continue
            qs = P.queue_in()
            qo = P.queue_out()
            if qs is None:
                for d in ds:
                    ix = W.altered_index(g.N(d.op.args[0]))
                    if ix is not None:
                        R.at(d, 'the document processed is not the one whose number was queued but %s' % show(ix, 4),
                             key='altered index')
                R.unsure('%s: work queue not recognised' % fname(W.fn))
                continue
            q, cpos, ipos = qs
            for d in ds:
                doc = g.N(d.op.args[0])
                src = W.doc_source(doc)
                if src is None:
                    R.unsure('%s: document argument not recognised: %s' % (fname(W.fn), show(doc)))
                    continue
                elem, ci, ii, qval, pos = src
                if ci[0] is not ii[0]:
                    R.at(d, 'corpus and index of the processed document come from different queue entries')
                    continue
                # the pop that removes this very element
                pops = [n for n in g.nodes if n.kind == 'op' and
                        is_container_call(n.op, ('pop_front', 'pop_back', 'erase')) and P.same(n.op.obj, q)]
                if not pops:
                    R.at(d, 'the entry is never removed from the work queue')
                    continue
                good = []
                for p in pops:
                    old = g.N(p.op.res.args[0]) if p.op.res is not None and p.op.res.op == 'cupd' else None
                    sh = short(p.op.name)
                    isfront = pos == const(0)
                    if sh == 'pop_front' and not isfront or sh == 'pop_back' and isfront:
                        R.at(p, 'the entry removed from the work queue is not the one that is processed',
                             key='pop other end')
                    elif old is not None and old is not qval:
                        R.at(p, 'the work queue changes between reading an entry and removing it', key='pop stale')
                    else:
                        good.append(p)
                if not good:
                    continue
                loops = g.enclosing_loops(d.i)
                if not loops or loops[0] is None:
                    R.unsure('%s: doc_e_step is not in a loop' % fname(W.fn))
                    continue
                l = loops[-1] if loops[-1] is not None else loops[0]
                head = W.head_node(l)
                region = None
                for p in good:
                    # after the pop: exactly one doc_e_step before the next pop / exit
                    for marks, what in (([x.i for x in ds], 'passed to doc_e_step'),
                                        ([x.i for x in W.result_pushes], 'published as a result')):
                        if not marks:
                            R.violation(fname(W.fn), 'no result is ever published', W.fn['file'], W.fn['line'])
                            continue
                        cnt = set()
                        cnt |= g.path_counts(marks, p.i, head)
                        cnt |= g.path_counts(marks, p.i, g.exit) if g.exit in g.after(p.i, [head], False) else set()
                        if cnt and cnt != {1}:
                            R.at(p, 'an entry removed from the queue is %s %s' % (what, ' or '.join(
                                {0: 'zero', 1: 'one', 2: 'several'}[c] for c in sorted(cnt)) + ' times'),
                                key='count ' + what)
                        else:
                            R.ok('%s: removed entry %s exactly once' % (fname(W.fn), what))
                cnt = g.path_counts([p.i for p in pops], head, d.i)
                if cnt - {1}:
                    R.at(d, 'a document is processed without (or after several) removals from the queue')
                for rp in W.result_pushes:
                    v = g.N(rp.op.val)
                    if v.op != 'tuple':
                        R.unsure('%s: result %s' % (fname(W.fn), show(v)))
                        continue
                    has = [i for i, a in enumerate(v.args) if any(g.N(x.op.res) is a for x in ds)]
                    ix = [i for i, a in enumerate(v.args) if a is ii[1]]
                    if not has:
                        R.at(rp, 'the published result is not the one doc_e_step returned for the entry: %s' %
                             show(v, 5), key='result value')
                    elif not ix:
                        R.at(rp, 'the published index is not the index of the processed document: %s' % show(v, 5),
                             key='result index')
                    else:
                        R.ok('%s: result carries its own index' % fname(W.fn))
                # read and removal belong to one critical section
                LW = Locks(g)
                for x in [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'index' and
                          P.same(store_loc(n.op.loc), q)]:
                    ri = [r for r, ms in LW.rel.items() if set(ms) & set(LW.must(x.i))]
                    mid = g.after(x.i, [p.i for p in good], False)
                    if any(r in mid and any(p.i in g.after(r, [head], False) for p in good) for r in ri):
                        R.at(x, 'the lock is released between reading a queue entry and removing it, so two workers can '
                             'take the same one', key='not atomic')
                    else:
                        R.ok('%s: entry read and removed in one critical section' % fname(W.fn))
                # emptiness guard at the read
                rd = [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'index' and P.same(store_loc(n.op.loc), q)]
                for n in rd:
                    fs = g.facts_at(n.i)
                    if not (fs & nonempty_facts(qval)):
                        if any(P.mentions(f, qval) for f in fs):
                            R.unsure('%s: emptiness test not recognised' % fname(W.fn))
                        else:
                            R.at(n, 'an entry is taken from the work queue without checking that there is one',
                                 key='unguarded front')
                    else:
                        R.ok('%s: read guarded by emptiness test' % fname(W.fn))
            # leaving
            for u, v, f in W.leaving():
                fs = set(g.facts_at(u)) | set()
                s2 = set(g.facts().get(u, ()))
                g.expand(f, s2)
                fs = {g.N(x) for x in s2}
                vals = W.queue_values(q)
                if any(fs & empty_facts(x) for x in vals):
                    R.ok('%s: leaves on an empty queue' % fname(W.fn))
                elif any(P.foreign(x, q) for x in fs):
                    R.unsure('%s: leaves under a condition that is not understood' % fname(W.fn))
                else:
                    R.violation(fname(W.fn), 'a worker stops although the work queue may still hold documents',
                                W.fn['file'], g.nodes[u].op.line if g.nodes[u].op else W.fn['line'],
                                key='leaves early')


@rule('C02', 'drain', 'the calling thread consumes exactly one published result per document and uses every result '
      'together with the document (or column) its index names; the corpus is not reordered in between')
def c02_drain(C, R):
    for P in pools(C):
        g = P.g
        qo = P.queue_out()
        if qo is None:
            R.unsure('%s: result queue not recognised' % P.name)
            continue
        q, rpos, ipos = qo
        pops = P.main_pops(q)
        if not pops:
            rd = [x for x in P.uses() if P.elem_any(x[2]) is not None]
            mod = [n for n in g.nodes if n.kind == 'op' and n.i in P.live_nodes() and
                   (n.op.kind in ('call', 'write')) and P.touches(n.op, q)]
            ls = [l for x in rd for l in g.enclosing_loops(x[0].i) if l is not None]
            inloop = [n for n in mod if any(l in g.enclosing_loops(n.i) for l in ls) and not (
                n.op.kind == 'call' and short(n.op.name) in ('front', 'back', 'begin', 'end', 'empty', 'size'))]
            if rd and not inloop:
                R.at(rd[0][0], 'a result is used but never removed from the result queue', key='result not removed')
                continue
            R.unsure('%s: results are consumed in an unrecognised way' % P.name)
            continue
        if len(pops) > 1:
            R.unsure('%s: several sites consume results' % P.name)
            continue
        p = pops[0]
        loops = [l for l in g.enclosing_loops(p.i)]
        if not loops or loops[0] is None:
            R.at(p, 'results are consumed outside of a loop over the documents')
            continue
        l = loops[0]
        corpus = P.queued_corpus()
        check_all_indices(R, P, g, l, p, None, P.size_of_corpus(corpus) if corpus is not None else None, 'consumed')
        old = g.N(p.op.res.args[0]) if p.op.res is not None and p.op.res.op == 'cupd' else None
        # uses
        uses = P.uses()
        if not uses:
            R.unsure('%s: uses of the results not recognised' % P.name)
        for (n, kind, res, idx, corp) in uses:
            es = P.elem_of(res, rpos)
            ei = P.elem_of(idx, ipos)
            if es is None or ei is None:
                # wrong component used?
                if es is not None and any(x is not idx and P.elem_of(x, ipos) is not None for x in lin(idx)[0]):
                    R.at(n, 'the result is credited to index %s, which is computed from the one published with it' % show(idx, 4),
                         key='index of result')
                    continue
                if P.elem_any(res) is not None and P.elem_any(idx) is None:
                    if not any(s.op in ('res', 'eff', 'unknown', 'fld') for s in subterms(idx)):
                        R.at(n, 'the result is credited to index %s which is not the one published with it' %
                             show(idx, 4), key='index of result')
                        continue
                R.unsure('%s: result/index provenance unclear: %s / %s' % (P.name, show(res, 4), show(idx, 4)))
                continue
            if es is not ei:
                R.at(n, 'the result and the index it is credited to come from different queue entries',
                     key='different entries')
                continue
            if not P.popped_same(es, p, old):
                R.at(n, 'the result used is not the one removed from the result queue', key='pop other end')
                continue
            if corp is not None and corpus is not None and objid(corp) is not objid(corpus) and \
                    P.ptr(corp) is not P.ptr(corpus):
                R.at(n, 'the result is used with a document of a corpus other than the one queued', key='other corpus')
                continue
            if corp is not None:
                sh = P.shuffles_between(n)
                if sh:
                    R.at(sh[0], 'the corpus is reordered between queueing a document and using its result',
                         key='shuffle')
                    continue
            elif kind == 'col' and P.any_shuffle():
                R.at(P.any_shuffle()[0], 'the corpus is reordered although results are returned by position',
                     key='shuffle')
                continue
            cnt = per_iteration(g, l, [x[0].i for x in uses if x[1] == kind], None, p.i)
            if cnt and cnt - {1}:
                R.at(n, 'a consumed result is used %s times' % ' or '.join(
                    {0: 'zero', 1: 'one', 2: 'several'}[c] for c in sorted(cnt)), key='use count')
                continue
            R.ok('%s: result used with its own document at %s' % (P.name, n.op.where))


@rule('C02', 'wrappers', 'the matrix overloads hand the caller\'s own data to the pass, every pass of fit uses it')
def c02_wrappers(C, R):
    for sc in C.scalars:
        for f in C.fns('LDA::partial_fit', sc) + C.fns('LDA::fit', sc):
            if any('Corpus' in (p['t'] or '') for p in f['params']):
                continue
            g = C.run(f, opaque=(NS + 'LDA::partial_fit',) if f['qname'].endswith('::fit') else ())
            mats = [p for p in f['params']]
            cons = [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and n.op.child is not None and
                    n.op.child.fn.get('ctor') and 'Corpus' in n.op.name and n.op.args]
            if not cons:
                R.unsure('%s: no corpus constructed' % fkey(f))
                continue
            for n in cons:
                if short(n.op.name) not in ('EigenCorpus', 'EigenClassificationCorpus'):
                    continue
                need = {}
                for p in mats:
                    need[p['name']] = T('init', T('mem', T('param', f['key'], p['name'])))
                args = [g.N(a) for a in n.op.args[:len(mats)]]
                bad = [a for a, p in zip(args, mats) if a is not need[p['name']]]
                if bad:
                    if all(a.op == 'init' or not (subterms(a) & set(need.values())) for a in bad):
                        R.at(n, 'the corpus is built from %s instead of the caller\'s data' % show(bad[0], 4),
                             key='corpus data')
                    else:
                        R.unsure('%s: corpus built from %s' % (fkey(f), show(bad[0], 4)))
                else:
                    R.ok('%s: corpus built from the caller\'s data' % fkey(f))


# ---------------------------------------------------------------------------
# C03


@rule('C03', 'joined', 'every path from starting a worker to the end of the call, by return or by an exception, '
      'passes a loop that joins all of the workers')
def c03(C, R):
    for P in pools(C):
        g = P.g
        if not P.spawns:
            R.unsure('%s starts no thread' % P.name)
            continue
        gates = join_gates(P, R)
        for s in P.spawns:
            r = g.after(s.i, gates)
            if g.exit in r:
                R.at(s, 'a worker started here is not joined on every path to the return of %s' % P.name,
                     key='%s return' % P.name)
            else:
                R.ok('%s: joined before returning' % P.name)
            src = []
            if g.exc in r:
                for u in r:
                    n = g.nodes[u]
                    if n.kind == 'op' and (n.op.kind == 'throw' or pool_throws(n.op)):
                        # does this one escape without a gate?
                        xs = [v for v, f, k in g.succ[u] if k == 'x' and v not in gates]
                        if g.exc in xs or g.exc in g.reach(xs, gates):
                            src.append(n)
            if src:
                n = min(src, key=lambda x: x.op.line)
                R.at(n, 'workers are not joined when %s throws while they run (in %s)' % (short(n.op.name) or 'throw',
                                                                                       P.name),
                     key='%s exception' % P.name)
            elif g.exc in r:
                R.unsure('%s: exceptional exit not understood' % P.name)
            else:
                R.ok('%s: joined when an exception leaves the call' % P.name)


@rule('C03', 'no-detach', 'no thread is detached and no thread is started outside of a training pass or transform')
def c03_detach(C, R):
    n = 0
    for f in C.F.functions.values():
        for nd in f['nodes'].values():
            n += 1
            if nd.get('n') in ('std::thread::detach', 'std::jthread::detach', 'pthread_detach'):
                R.violation(f['qname'], 'a thread is detached', f['file'], nd['l'], key='detach')
    R.ok('%d expressions scanned for detached threads' % n)


# ---------------------------------------------------------------------------
# C04


@rule('C04', 'wait', 'the calling thread waits for results only under the lock that protects them and re-checks that '
      'there is one')
def c04_wait(C, R):
    for P in pools(C):
        g = P.g
        L = Locks(g)
        qo = P.queue_out()
        if qo is None:
            R.unsure('%s: result queue not recognised' % P.name)
            continue
        q = qo[0]
        prot = None
        for W in P.workers:
            LW = Locks(W.g)
            for n in W.result_pushes:
                m = {P.ident(x) for x in LW.must(n.i)}
                prot = m if prot is None else prot & m
        for n in P.main_pops(q) + [x for x in g.nodes if x.kind == 'op' and x.op.kind == 'index' and
                                   x.i in P.live_nodes() and P.same(store_loc(x.op.loc), q)]:
            m = {P.ident(x) for x in L.must(n.i)}
            if n.i in concurrent(P) and prot is not None and not (m & prot):
                R.at(n, 'the result queue is accessed without the lock under which workers publish results',
                     key='queue lock')
            # non-emptiness
            fs = g.facts_at(n.i)
            if n.op.kind == 'index':
                qv = None
                cand = [s for f in fs for s in subterms(f) if s.op == 'E' and s.args[0] == 'size' and
                        P.same(objid(s.args[1]), q)]
                ok = any(fs & nonempty_facts(s.args[1]) for s in cand)
                if not ok:
                    ok = waited(P, g, n, q)
                if ok is None:
                    R.unsure('%s: wait predicate not understood' % P.name)
                elif not ok:
                    R.at(n, 'a result is taken without having waited for the result queue to be non-empty',
                         key='unchecked result')
                else:
                    R.ok('%s: result taken only after waiting for one' % P.name)
        for n in g.nodes:
            if n.kind == 'op' and n.op.kind == 'call' and n.i in P.live_nodes() and \
                    (n.op.name or '').startswith('std::condition_variable') and short(n.op.name) in (
                        'wait', 'wait_for', 'wait_until'):
                m = {P.ident(x) for x in L.must(n.i)}
                lk = n.op.args[0] if n.op.args else None
                if prot is not None and not (m & prot):
                    R.at(n, 'waits for a result without holding the lock workers publish under', key='wait lock')
                else:
                    R.ok('%s: waits under the publishing lock' % P.name)


def waited(P, g, n, q):
    """the node is only reached after a wait whose predicate says the queue is not empty"""
    ws = []
    unknown = False
    for w in g.nodes:
        if w.kind == 'op' and w.op.kind == 'call' and (w.op.name or '').startswith('std::condition_variable') and \
                short(w.op.name) == 'wait' and len(w.op.args) == 2:
            # the predicate was analysed as a callback
            pr = None
            for m in g.nodes:
                if m.kind == 'op' and m.op.kind == 'maycall' and m.frame is w.frame and isinstance(m.op.nid, tuple) and \
                        m.op.nid[0] == w.op.nid and m.op.child is not None:
                    pr = m.op.child.ret
            if pr is None:
                unknown = True
                continue
            pr = g.N(pr)
            fs = set()
            g.expand(pr, fs)
            szs = [s for s in subterms(pr) if s.op == 'E' and s.args[0] == 'size' and P.same(objid(s.args[1]), q)]
            if any(fs & nonempty_facts(s.args[1]) for s in szs):
                ws.append(w.i)
            elif any(s.op in ('phi', 'ite', 'res') for s in subterms(pr)) and not szs:
                unknown = True
    if ws and g.dominated(n.i, ws):
        # and the queue is not changed in between
        for m in g.nodes:
            if m.kind == 'op' and m.op.kind == 'call' and m.op.obj is not None and isinstance(m.op.obj, Term) and \
                    is_loc(m.op.obj) and P.same(m.op.obj, q) and short(m.op.name) in (
                        'pop_front', 'pop_back', 'clear', 'erase'):
                if n.i in g.after(m.i, ws, False):
                    return False
        return True
    return None if unknown else False


@rule('C04', 'notify', 'every published result is followed by waking the waiter, on the same condition variable')
def c04_notify(C, R):
    for P in pools(C):
        g = P.g
        cvs = {P.ident(n.op.obj) for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and
               (n.op.name or '').startswith('std::condition_variable') and short(n.op.name).startswith('wait') and
               n.op.obj is not None and is_loc(n.op.obj) and n.i in P.live_nodes()}
        if not cvs:
            R.unsure('%s: no condition variable' % P.name)
            continue
        for W in P.workers:
            w = W.g
            nots = [n.i for n in w.nodes if n.kind == 'op' and n.op.kind == 'call' and
                    short(n.op.name) in ('notify_one', 'notify_all') and n.op.obj is not None and
                    is_loc(n.op.obj) and P.ident(n.op.obj) in cvs]
            for p in W.result_pushes:
                ls = [l for l in w.enclosing_loops(p.i) if l is not None]
                ends = [w.exit] + ([head_node(w, ls[-1])] if ls else [])
                r = w.after(p.i, nots, False)
                if any(e in r for e in ends):
                    R.at(p, 'a result can be published without waking the waiting thread afterwards', key='notify')
                else:
                    R.ok('%s: notify after publishing' % fname(W.fn))


@rule('C04', 'lock-order', 'no mutex is acquired while held, no two mutexes are acquired in both orders, and every '
      'lock is released on every path')
def c04_order(C, R):
    edges = {}
    graphs = []
    for P in pools(C):
        graphs.append((P.name, P.g))
        for W in P.workers:
            graphs.append((fname(W.fn), W.g))
    for f in thread_safe_methods(C):
        graphs.append((fname(f), C.run(f)))
    for sc in C.scalars:
        for f in C.overrides('em::EStepInterface::doc_e_step', sc):
            graphs.append((fname(f), C.run(f)))
    for name, g in graphs:
        L = Locks(g)
        for n, ms in L.acq.items():
            node = g.nodes[n]
            if n not in L._may:
                continue
            held = L.may(n)
            for m in ms:
                mi = Pool.ident(m)
                if m in held and 'recursive' not in str(node.op.extra or ''):
                    R.at(node, 'a mutex is acquired while it may already be held', key='self deadlock')
                else:
                    R.ok('%s: acquires %s' % (name, mi))
                for h in held:
                    if Pool.ident(h) != mi:
                        edges.setdefault((Pool.ident(h), mi), node)
            if n not in L.multi and len(ms) > 1:
                pass
        for n, ms in L.rel.items():
            if n in L._may and g.nodes[n].op.kind == 'call':
                if any(m not in L.may(n) for m in ms):
                    R.at(g.nodes[n], 'a mutex is released that is not held', key='release')
        left = L.may(g.exit) if g.exit in L._may else frozenset()
        if left:
            acq = [g.nodes[n] for n, ms in L.acq.items() if set(ms) & left]
            R.at(acq[0], 'a lock is still held when %s returns' % name, key='not released')
        # notify/wait while holding another lock
        for n in g.nodes:
            if n.kind == 'op' and n.op.kind == 'call' and (n.op.name or '').startswith('std::condition_variable') and \
                    short(n.op.name).startswith('wait') and n.i in L._may:
                own = set()
                for a in n.op.args[:1]:
                    a = L.lockobj(a)
                    if a is not None:
                        own = {g.N(m) for m in a.args[3]}
                if L.may(n.i) - own:
                    R.at(n, 'waits for a result while holding another lock', key='wait holding')
    # cycles
    adj = {}
    for (a, b), n in edges.items():
        adj.setdefault(a, set()).add(b)

    def reach(a, b, seen):
        if a == b:
            return True
        for c in adj.get(a, ()):
            if c not in seen:
                seen.add(c)
                if reach(c, b, seen):
                    return True
        return False
    for (a, b), n in edges.items():
        if reach(b, a, {b}):
            R.at(n, 'locks %s and %s are acquired in both orders' % (a, b), key='inversion')


def thread_safe_methods(C):
    """every method with a body of the dispatcher classes and of the shared generator"""
    out = []
    for f in C.F.functions.values():
        c = f.get('cls') or ''
        if c.startswith(NS + 'events::') and 'Dispatcher' in c or c == NS + 'math_utils::ThreadSafePRNG':
            if f.get('ctor') or f.get('dtor') or f.get('lambda'):
                continue
            if f.get('fa'):
                continue
            out.append(f)
    if not out:
        raise AnalysisBroken('no dispatcher methods found')
    return out


@rule('C04', 'workers', 'a model always has at least one worker and a pass starts all of them')
def c04_workers(C, R):
    for P in pools(C):
        g = P.g
        for s in P.spawns:
            ls = g.enclosing_loops(s.i)
            if not ls or ls[0] is None:
                R.ok('%s: a worker is always started' % P.name)
                continue
            l = ls[0]
            cts = [t for t in l.tests() if t['trips'] is not None]
            if len(cts) != 1 or len(l.tests()) != 1:
                R.unsure('%s: spawn loop' % P.name)
                continue
            tr = cts[0]['trips']
            if len(tr[0]) == 1 and tr[1] < 0:
                R.at(s, 'fewer workers are started than the model has', key='spawn count')
            elif per_iteration(g, l, [s.i], cts[0]) - {1}:
                R.unsure('%s: spawn is conditional' % P.name)
            else:
                R.ok('%s: starts %s workers' % (P.name, show_lin(tr)))
    for sc in C.scalars:
        for f in C.F.functions.values():
            if not f.get('ctor') or f.get('cls') != NS + 'LDA' or not C.scalar_ok(f, sc):
                continue
            g = C.run(f)
            for n in g.nodes:
                if n.kind == 'op' and n.op.kind == 'write' and n.op.how == 'init' and n.op.loc.op == 'f' and \
                        n.op.loc.args[2] == NS + 'LDA' and n.op.node is not None and \
                        field_type(C, n.op.loc).startswith('std::vector<std::thread'):
                    v = g.N(n.op.val)
                    if v.op != 'sized':
                        v2 = g.root.exit_state.get(n.op.loc) if g.root.exit_state else None
                        if v2 is not None and v2.op == 'cupd' and v2.args[1] == 'resize':
                            v = T('sized', g.N(v2.args[2]))
                    if v.op != 'sized':
                        if v.op in ('init', 'phi'):
                            R.ok('%s: takes over existing workers' % fname(f))
                        else:
                            R.unsure('%s: workers initialised as %s' % (fname(f), show(v)))
                        continue
                    k = atleast1(v.args[0], g, n)
                    if k is True:
                        R.ok('%s: at least one worker' % fname(f))
                    elif k is False:
                        R.at(n, 'a model can be created with zero workers (%s); a pass would wait forever' %
                             show(v.args[0], 4), key='zero workers')
                    else:
                        R.unsure('%s: number of workers %s' % (fname(f), show(v.args[0])))


def atleast1(t, g, n):
    if t.op == 'const':
        return t.args[0] >= 1
    if t.op == 'op' and t.args[0] == 'max':
        if any(a.op == 'const' and isinstance(a.args[0], int) and a.args[0] >= 1 for a in t.args[1:]):
            return True
        return None
    if t.op == 'E' and t.args[0] == 'size':
        return True
    if t.op == 'ite':
        c, a, b = t.args
        ok = []
        for x, cond in ((a, c), (b, neg(c))):
            r = atleast1(x, g, n)
            if r is not True:
                fs = set()
                g.expand(cond, fs)
                z = const(0)
                if fs & {op2('!=', x, z), op2('<', z, x), op2('<=', const(1), x), op2('<', const(1), x), x}:
                    r = True
            ok.append(r)
        if all(k is True for k in ok):
            return True
        return False if False in ok and None not in ok else None
    if t.op == 'param':
        fs = g.facts_at(n.i)
        z = const(0)
        if fs & {op2('!=', t, z), op2('<', z, t), op2('<=', const(1), t)}:
            return True
        return False
    if t.op == 'op' and t.args[0] in ('/', '-', '%', '>>') and t.args[2].op == 'const' and atleast1(t.args[1], g, n) is not None:
        return False if t.args[2].args[0] >= (1 if t.args[0] != '/' else 2) else None
    if t.op == 'op' and t.args[0] == '+' and t.args[2].op == 'const' and t.args[2].args[0] >= 1:
        return True
    return None


def field_type(C, loc):
    rec = C.F.records.get(loc.args[2])
    for f in (rec or {}).get('fields', ()):
        if f['name'] == loc.args[1]:
            return f['t'] or ''
    return ''


# ---------------------------------------------------------------------------
# C06


def deps(g, t, limit=20000):
    """all terms t depends on, through phis and results of calls"""
    seen = set()
    st = [t]
    while st and len(seen) < limit:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
        if x.op == 'phi':
            st.extend(g.I.phis.get(x, {}).values())
        elif x.op == 'res':
            o = g.I.resinfo.get(x)
            if o is not None:
                st.extend(o.args or ())
                if isinstance(o.obj, Term):
                    st.append(o.obj)
    return seen


def dispatches(g, cls):
    """nodes that hand an event of class cls to a dispatcher"""
    out = []
    for n in g.nodes:
        if n.kind == 'op' and n.op.kind == 'call' and n.op.child is None and (n.op.name or '').endswith('::dispatch') \
                and n.op.args:
            a = g.N(n.op.args[0])
            if a.op == 'obj' and rec_of(a.args[2]) == NS + 'events::' + cls:
                out.append(n)
        elif n.kind == 'op' and n.op.kind == 'call' and n.op.child is not None and n.op.args and \
                (n.op.name or '').endswith('Dispatcher::dispatch') and n.op.child.fn.get('cls', '').startswith(
                    NS + 'events::') and not n.op.child.fn.get('fa'):
            a = g.N(n.op.args[0]) if n.op.args[0] is not None else None
            par = n.frame
            inner = False
            while par is not None:
                if par.fn['qname'].endswith('Dispatcher::dispatch') and not par.fn.get('fa'):
                    inner = True
                par = par.parent
            if not inner and a is not None and a.op == 'obj' and rec_of(a.args[2]) == NS + 'events::' + cls:
                out.append(n)
    return out


def ctor_args(g, cls):
    out = {}
    for n in g.nodes:
        if n.kind == 'op' and n.op.kind == 'call' and n.op.child is not None and n.op.child.fn.get('ctor') and \
                n.op.child.fn.get('cls') == NS + cls and n.op.obj is not None:
            out[n.op.obj] = n
    return out


def is_nan(t):
    return t.op == 'const' and t.args[0] == 'nan' or t.op == 'call' and 'NaN' in str(t.args[0]) or \
        t.op == 'call' and str(t.args[0]) in ('nan', 'nanf', '__builtin_nanf', '__builtin_nan', 'std::nan')


@rule('C06', 'expectation-event', 'on every path through a doc_e_step exactly one ExpectationProgressEvent is '
      'dispatched (or the document is handed to exactly one other expectation step); its value is NaN or is computed '
      'from the document')
def c06_exp(C, R):
    for sc in C.scalars:
        ov = C.overrides('em::EStepInterface::doc_e_step', sc)
        if not ov:
            raise AnalysisBroken('no doc_e_step overrides')
        for f in ov:
            g = C.run(f)
            ds = dispatches(g, 'ExpectationProgressEvent')
            dele = [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and n.op.child is None and
                    (n.op.name or '').endswith('::doc_e_step')]
            cnt = g.path_counts([n.i for n in ds + dele])
            if cnt == {1}:
                R.ok('%s: one event on every path' % fname(f))
            elif cnt:
                R.violation(f['qname'], 'a document raises %s expectation events on some path' % ' or '.join(
                    {0: 'no', 1: 'one', 2: 'several'}[c] for c in sorted(cnt)), f['file'], f['line'], key='count')
            ca = ctor_args(g, 'events::ExpectationProgressEvent')
            for n in ds:
                o = g.N(n.op.args[0])
                c = ca.get(o)
                if c is None or not c.op.args:
                    R.unsure('%s: event payload' % fname(f))
                    continue
                v = g.N(c.op.args[0])
                vals = ite_leaves(v)
                for v in vals:
                    if is_nan(v):
                        R.ok('%s: event carries NaN' % fname(f))
                        continue
                    dp = deps(g, v)
                    words = any(s.op == 'call' and str(s.args[0]).endswith('Document::get_words') or
                                s.op == 'res' and str(s.args[2]).endswith('Document::get_words') for s in dp)
                    if not words:
                        R.at(n, 'the expectation event carries %s, which is neither the likelihood of the document nor '
                             'a not-a-number marker' % show(v, 4), key='payload')
                    else:
                        R.ok('%s: event carries a value of the document' % fname(f))


def ite_leaves(v):
    if v.op == 'ite':
        return ite_leaves(v.args[1]) + ite_leaves(v.args[2])
    return [v]


@rule('C06', 'likelihood-args', 'the likelihood reported for a document is computed from the variational parameters '
      'that are returned for it')
def c06_like(C, R):
    for sc in C.scalars:
        for f in C.overrides('em::EStepInterface::doc_e_step', sc):
            g = C.run(f)
            ret = g.root.ret
            if ret is None:
                continue
            ret = g.N(ret)
            if ret.op != 'obj':
                R.ok('%s: delegates' % fname(f))
                continue
            st = g.root.exit_state
            fin = {}
            for k, v in st.items():
                if k.op == 'f' and k.args[0] is mem(ret):
                    fin[k.args[1]] = g.N(v)
            ca = ctor_args(g, 'events::ExpectationProgressEvent')
            lk = [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and n.op.child is not None and
                  'e_step_utils::compute_' in (n.op.name or '') and n.op.name.endswith('likelihood')]
            used = False
            for n in lk:
                # outermost only
                if 'e_step_utils' in n.frame.fn['qname']:
                    continue
                used = True
                ps = [p['name'] for p in n.op.child.fn['params']]
                for p, a in zip(ps, n.op.args):
                    if p in fin and a is not None:
                        if g.N(a) is not fin[p]:
                            R.at(n, 'the reported likelihood is computed from a %s other than the one returned' % p,
                                 key='likelihood ' + p)
                        else:
                            R.ok('%s: likelihood of the returned %s' % (fname(f), p))
            if not used:
                R.ok('%s: no likelihood helper' % fname(f))


@rule('C06', 'epoch', 'a training pass calls e_step and m_step exactly once each, after all documents are accumulated '
      'and the workers joined, and then dispatches exactly one EpochProgressEvent with the model; transform does none '
      'of this')
def c06_epoch(C, R):
    for P in pools(C):
        g = P.g

        def calls(sfx):
            return [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and n.op.child is None and
                    (n.op.name or '').endswith(sfx) and n.i in P.live_nodes()]
        es, ms, dms = calls('EStepInterface::e_step'), calls('MStepInterface::m_step'), calls('::doc_m_step')
        ev = [n for n in dispatches(g, 'EpochProgressEvent') if n.i in P.live_nodes()]
        if P.fn['qname'].endswith('transform'):
            for lst, what in ((es, 'e_step'), (ms, 'm_step'), (dms, 'doc_m_step'), (ev, 'epoch event')):
                if lst:
                    R.at(lst[0], 'transform performs %s' % what, key='transform ' + what)
                else:
                    R.ok('transform performs no %s' % what)
            continue
        for lst, what in ((es, 'e_step'), (ms, 'm_step'), (ev, 'an epoch event')):
            cnt = g.path_counts([n.i for n in lst])
            if cnt != {1}:
                R.violation(P.fn['qname'], 'a pass performs %s %s times' % (what, ' or '.join(
                    {0: 'zero', 1: 'one', 2: 'several'}[c] for c in sorted(cnt)) or 'zero'), P.fn['file'],
                    P.fn['line'], key='count ' + what)
            else:
                R.ok('partial_fit performs %s exactly once' % what)
        gates = join_gates(P)
        conc = concurrent(P)
        for n in es + ms + ev:
            if n.i in conc:
                R.at(n, '%s is performed while workers may still be running' % (short(n.op.name)),
                     key='concurrent ' + short(n.op.name))
            else:
                R.ok('%s after the workers have stopped' % short(n.op.name))
            for d in dms:
                if d.i in g.after(n.i, exc=False):
                    R.at(n, '%s is performed before every document has been accumulated' % short(n.op.name),
                         key='before ' + short(n.op.name))
        for n in ev:
            if ms and not g.dominated(n.i, [m.i for m in ms]):
                R.at(n, 'the epoch event is raised before the model is updated', key='epoch order')
            elif any(m.i in g.after(n.i, exc=False) for m in ms):
                R.at(n, 'the model is updated after the epoch event', key='epoch order')
            else:
                R.ok('epoch event after m_step')
            if es and not g.dominated(n.i, [m.i for m in es]):
                R.at(n, 'the epoch event is raised before the expectation step has finished the pass',
                     key='epoch order e')
            ca = ctor_args(g, 'events::EpochProgressEvent').get(g.N(n.op.args[0]))
            if ca is not None and ca.op.args and ms and ms[0].op.args:
                if g.N(ca.op.args[0]) is not g.N(ms[0].op.args[0]):
                    R.at(n, 'the epoch event carries something other than the model that was updated',
                         key='epoch payload')
                else:
                    R.ok('epoch event carries the updated model')
        for n in ms + dms:
            a = g.N(n.op.args[-1])
            if a.op == 'init' and a.args[0].op == 'f' and a.args[0].args[2] == NS + 'LDA':
                R.ok('the model is passed to %s' % short(n.op.name))
            else:
                R.unsure('model argument of %s' % short(n.op.name))


@rule('C06', 'wrapped', 'a step built from other steps passes the corpus-wide part on to each of them exactly once')
def c06_wrapped(C, R):
    for sc in C.scalars:
        for base, what in (('em::EStepInterface', 'e_step'), ('em::MStepInterface', 'm_step')):
            for d in C.overrides(base + '::doc_' + what, sc):
                gd = C.run(d)
                part = {}
                for n in gd.nodes:
                    if n.kind == 'op' and n.op.kind == 'call' and n.op.child is None and (n.op.name or '') == NS + base + '::doc_' + what and isinstance(n.op.obj, Term):
                        o = gd.N(n.op.obj)
                        for s in subterms(o):
                            if s.op == 'init' and s.args[0].op == 'f' and root(s.args[0]).op == 'mem' and root(s.args[0]).args[0].op == 'this':
                                part[s.args[0].args[1]] = n
                if not part:
                    continue
                cls = Interp.ckey(d)
                es = [f for f in C.overrides(base + '::' + what, sc) if Interp.ckey(f) == cls]
                if not es:
                    R.unsure('%s: no %s of its own' % (fkey(d), what))
                    continue
                g = C.run(es[0])
                marks, odd = {}, False
                for n in g.nodes:
                    if n.kind == 'op' and n.op.kind == 'call' and n.op.child is None and (n.op.name or '') == NS + base + '::' + what and isinstance(n.op.obj, Term):
                        hit = [s.args[0].args[1] for s in subterms(g.N(n.op.obj)) if s.op == 'init' and s.args[0].op == 'f' and s.args[0].args[1] in part]
                        if len(set(hit)) == 1 and not any(l is not None for l in g.enclosing_loops(n.i)):
                            marks.setdefault(hit[0], []).append(n)
                        else:
                            odd = True
                for m in sorted(part):
                    c = g.path_counts([n.i for n in marks[m]], g.entry, g.exit) if m in marks else {0}
                    if odd:
                        R.unsure('%s: %s passed on in an unrecognised way' % (fkey(es[0]), what))
                    elif c != {1}:
                        R.violation(es[0]['qname'], '%s of %s is run %s times per pass' % (what, m, '/'.join(map(str, sorted(c)))), es[0]['file'], es[0]['line'],
                                    key='wrapped %s' % m)
                    else:
                        R.ok('%s: %s of %s once' % (fkey(es[0]), what, m))
