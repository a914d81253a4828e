"""C05: delivery of events."""
from common import *
from rules.pool import *
from rules.r_threads import atleast1, deps

TS = 'events::ThreadSafeEventDispatcher'
ST = 'events::SameThreadEventDispatcher'
DESTRUCTIVE = ('pop_front', 'pop_back', 'clear', 'erase', 'remove', 'remove_if', 'unique', 'reverse', 'sort', 'resize')
ONE = {0: 'zero', 1: 'one', 2: 'several'}


def times(cnt):
    return ' or '.join(ONE[c] for c in sorted(cnt))


def param0(f):
    return T('param', f['key'], f['params'][0]['name'])


def pv(g, f, i=0):
    """value terms that are the i-th parameter of f"""
    p = T('param', f['key'], f['params'][i]['name'])
    return {p, T('init', T('mem', p)), g.N(p)}


def is_param(g, f, t, i=0):
    t = g.N(t) if isinstance(t, Term) else t
    return t in pv(g, f, i)


def pushes_of(g, f, names=PUSH):
    out = []
    for n in g.nodes:
        if n.kind == 'op' and is_container_call(n.op, names):
            vals = [v for v in ([n.op.val] if n.op.val is not None else []) + list(n.op.args) if isinstance(v, Term)]
            if any(is_param(g, f, v) for v in vals):
                out.append(n)
    return out


def full_loop(g, l, cont_size, idx, n):
    """None if the loop visits every element of a container of that size once in order, else what is wrong;
    'unsure' if it is not understood"""
    tests = l.tests()
    cts = [t for t in tests if t['trips'] is not None]
    if not cts:
        return 'unsure'
    if len(tests) > 1:
        return 'can be left before the end'
    t = cts[0]
    want = lin(g.N(cont_size))
    tr = t['trips']
    tr = (dict((g.N(k), v) for k, v in tr[0].items()), tr[1])
    if tr != want:
        if set(tr[0]) == set(want[0]):
            return 'makes %s steps instead of %s' % (show_lin(tr), show_lin(want))
        return 'unsure'
    cv = l.covers(idx, t)
    if cv is None:
        return 'unsure'
    if cv[0] != 'up':
        return 'runs from the back to the front'
    if cv[1] != ({}, 0):
        return 'starts at element %s' % show_lin(cv[1])
    cnt = per_iteration(g, l, [n.i], t)
    if cnt - {1}:
        return 'calls it %s times for an element' % times(cnt)
    return None


def on_events(g):
    live = g.live(True)
    return [n for n in g.nodes if n.kind == 'op' and n.op.kind in ('call', 'maycall') and n.op.child is None and
            (n.op.name or '').endswith('EventListenerInterface::on_event') and n.i in live]


def depends_on_param(g, f, ps):
    """some condition for reaching the nodes looks at the function's argument"""
    pp = pv(g, f)
    for p in ps:
        for t in g.facts_at(p.i):
            t = g.N(t)
            if any(s in pp for s in subterms(t)):
                return True
            if any(s.op in ('phi', 'res') for s in subterms(t)):
                return True     # a flag computed by a loop or call
    return False


def at_begin(g, n):
    a = g.N(n.op.args[0]) if n.op.args and isinstance(n.op.args[0], Term) else None
    return a is not None and a.op == 'iter' and a.args[-1] == const(0) and 'set' not in (n.op.name or '').split('::')[1]


def elem(t):
    """t = container.at(i)"""
    if t.op == 'mem':
        t = t.args[0]
    if t.op == 'E' and t.args[0] == 'at' and len(t.args) == 3:
        return t.args[1], t.args[2]
    return None


@rule('C05', 'enqueue', 'dispatching appends the event exactly once to the back of the queue on every path; adding a '
      'listener appends it once; removing one records it once')
def c05_enqueue(C, R):
    for f in C.fns(TS + '::dispatch', pred=lambda f: not f.get('fa')):
        g = C.run(f)
        ps = pushes_of(g, f)
        if not ps:
            if on_events(g) or any(n.kind == 'op' and n.op.kind == 'call' and n.op.child is None and any(
                    is_param(g, f, a) for a in n.op.args if isinstance(a, Term)) for n in g.nodes):
                R.unsure('%s: event stored in an unrecognised way' % fname(f))
            else:
                R.violation(f['qname'], 'a dispatched event is not queued', f['file'], f['line'], key='not queued')
            continue
        cnt = g.path_counts([p.i for p in ps], g.entry, g.exit)
        if cnt != {1}:
            R.at(ps[0], 'a dispatched event is queued %s times' % times(cnt), key='queued count')
        elif any(short(p.op.name) in ('push_front', 'emplace_front') or short(p.op.name) in ('insert', 'emplace') and at_begin(
                g, p) for p in ps):
            R.at(ps[0], 'a dispatched event is queued before the ones already waiting', key='queued front')
        else:
            R.ok('%s: queued once' % fname(f))
        q = set(Pool.ident(p.op.obj) for p in ps)
        for n in g.nodes:
            if n.kind == 'op' and is_container_call(n.op, DESTRUCTIVE) and Pool.ident(n.op.obj) in q:
                R.at(n, 'dispatching an event discards or reorders the ones already waiting (%s)' % short(n.op.name),
                     key='queue %s' % short(n.op.name))
    for f in C.fns(TS + '::add_listener', pred=lambda f: not f.get('fa')):
        g = C.run(f)
        ps = pushes_of(g, f)
        if not ps:
            R.unsure('%s: listener stored in an unrecognised way' % fname(f))
            continue
        cnt = g.path_counts([p.i for p in ps], g.entry, g.exit)
        if cnt != {1}:
            # leaving out a listener that is already there is a matter of taste
            if cnt <= {0, 1} and depends_on_param(g, f, ps):
                R.unsure('%s: listener stored conditionally' % fname(f))
            else:
                R.at(ps[0], 'a listener is stored %s times' % times(cnt), key='listener count')
        else:
            R.ok('%s: stored once' % fname(f))
    for f in C.fns(TS + '::remove_listener', pred=lambda f: not f.get('fa')):
        g = C.run(f)
        ps = pushes_of(g, f)
        era = [n for n in g.nodes if n.kind == 'op' and is_container_call(n.op, ('erase', 'remove', 'remove_if'))]
        if not ps and not era:
            R.violation(f['qname'], 'removing a listener has no effect', f['file'], f['line'], key='remove noop')
            continue
        if ps and 0 in g.path_counts([p.i for p in ps], g.entry, g.exit) and not depends_on_param(g, f, ps):
            R.at(ps[0], 'the removal of a listener is not recorded on every path', key='remove count')
        else:
            R.ok('%s: recorded' % fname(f))
    # overload helpers of the interface forward exactly once
    for f in C.F.functions.values():
        if f['qname'] == NS + 'events::EventDispatcherInterface::dispatch' and f.get('fa') is not None and f.get('inst'):
            pass


def event_member(C):
    """location path of the queue filled by dispatch"""
    f = C.fn1(TS + '::dispatch', pred=lambda f: not f.get('fa'))
    g = C.run(f)
    for p in pushes_of(g, f):
        return Pool.ident(p.op.obj), g, f
    return None, g, f


def listener_member(C):
    for f in C.fns(TS + '::add_listener', pred=lambda f: not f.get('fa')):
        g = C.run(f)
        for p in pushes_of(g, f):
            return Pool.ident(p.op.obj)
    return None


def deleted_member(C):
    for f in C.fns(TS + '::remove_listener', pred=lambda f: not f.get('fa')):
        g = C.run(f)
        for p in pushes_of(g, f):
            return Pool.ident(p.op.obj)
    return None


def value_of_member(g, v, m):
    """v is (a modification of) the value of member m"""
    seen, todo = set(), [v]
    while todo:
        t = g.N(todo.pop())
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'init' and Pool.ident(t.args[0]) == m:
            return True
        if t.op == 'phi':
            if is_loc(t.args[2]) and Pool.ident(t.args[2]) == m:
                return True
            todo.extend(g.I.phis.get(t, {}).values())
        elif t.op in ('eff',):
            todo.append(t.args[3])
        elif t.op in ('upd', 'cupd'):
            todo.append(t.args[0])
    return False


@rule('C05', 'deliver', 'delivery takes the whole queue in one critical section, empties it, and hands every event in '
      'order to every listener of the current list exactly once, with no lock held')
def c05_deliver(C, R):
    em, _, _ = event_member(C)
    lm = listener_member(C)
    if em is None or lm is None:
        R.unsure('queue or listener list not recognised')
        return
    for f in C.fns(TS + '::process_events'):
        g = C.run(f)
        L = Locks(g)
        oe = on_events(g)
        if not oe:
            lam = [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and n.op.child is None and
                   (n.op.name or '').startswith('std::') and short(n.op.name) == 'for_each']
            if lam:
                R.unsure('%s: delivery not recognised' % fname(f))
            else:
                R.violation(f['qname'], 'queued events are never delivered', f['file'], f['line'], key='no delivery')
            continue
        for n in oe:
            held = L.may(n.i)
            if held:
                R.at(n, 'listeners are called while holding %s' % ', '.join(str(Pool.ident(h)) for h in held),
                     key='lock held')
                continue
            R.ok('%s: no lock held while calling listeners' % fname(f))
            ev = elem(g.N(n.op.args[0]))
            ls = elem(g.N(n.op.obj))
            if ev is None or ls is None:
                R.unsure('%s: event/listener provenance not recognised' % fname(f))
                continue
            if not value_of_member(g, ev[0], em) or not value_of_member(g, ls[0], lm):
                R.unsure('%s: delivered %s to %s' % (fname(f), show(ev[0], 3), show(ls[0], 3)))
                continue
            loops = [l for l in g.enclosing_loops(n.i) if l is not None]
            if len(loops) < 2:
                R.at(n, 'an event is not delivered to every listener (no loop over both)', key='one loop')
                continue
            inner, outer = loops[0], loops[1]
            ind = inner.inductions()
            inner_is_listener = any(p in ind for p in subterms(g.N(ls[1])))
            pairs = ((inner, ls, 'listeners'), (outer, ev, 'events')) if inner_is_listener else \
                ((inner, ev, 'events'), (outer, ls, 'listeners'))
            for l, e, what in pairs:
                if l is inner:
                    w = full_loop(g, l, g.I.size_of(e[0]), e[1], n)
                else:
                    hn = head_node(g, inner)
                    w = full_loop(g, l, g.I.size_of(e[0]), e[1], g.nodes[hn]) if hn is not None else 'unsure'
                    if w and w.startswith('calls it'):
                        # the inner loop head is visited several times per outer iteration by construction
                        out = [x for x in g.nodes if x.kind == 'block' and x.frame is l.fr and x.block == l.head]
                        skip = False
                        t = [t for t in l.tests() if t['trips'] is not None][0]
                        c = per_iteration(g, l, [hn], t)
                        w = 'can skip all of them for an element' if 0 in c else None
                if w == 'unsure':
                    R.unsure('%s: loop over the %s not recognised' % (fname(f), what))
                elif w:
                    R.at(n, 'the loop over the %s %s' % (what, w), key='loop %s' % what)
                else:
                    R.ok('%s: loop covers all %s' % (fname(f), what))
            # live iteration
            for e, what in ((ls, 'listener list'), (ev, 'event queue')):
                it = [x for x in g.nodes if x.kind == 'op' and x.op.kind in ('index', 'read') and x.op.loc is not None and
                      is_loc(x.op.loc) and x.op.loc.op == 'v' and
                      Pool.ident(store_loc(x.op.loc)) in (em, lm) and any(
                          l in g.enclosing_loops(x.i) for l in (inner, outer)) and
                      root(store_loc(x.op.loc)).op == 'mem']
                if it:
                    R.at(n, 'delivery iterates over the live %s, which listeners may change' % what, key='live list')
                    break
        taken = set()
        for n in g.nodes:
            if n.kind == 'op' and n.op.kind == 'write' and n.op.val is not None and n.op.loc is not None and \
                    n.op.loc.op in ('var', 'tmp') and n.op.val.op in ('init', 'phi') and value_of_member(g, n.op.val, em):
                taken.add(n.op.loc)
        for n in g.nodes:
            if n.kind == 'op' and is_container_call(n.op, DESTRUCTIVE) and n.op.obj in taken and any(
                    x.i in g.after(n.i, (), False) for x in oe) and not any(
                    n.i in g.after(x.i, (), False) for x in oe):
                R.at(n, 'queued events are discarded or reordered before they are delivered (%s)' % short(n.op.name),
                     key='snapshot %s' % short(n.op.name))
        # the queue is taken and emptied in one critical section, on every path to the delivery
        snap, clr = [], []
        live = g.live(True)
        for n in g.nodes:
            if n.kind != 'op' or n.i not in live:
                continue
            o = n.op
            if o.kind == 'write' and o.val is not None and value_of_member(g, o.val, em) and o.loc is not None and \
                    root(o.loc).op in ('var', 'tmp') and o.loc.op in ('var', 'tmp') and o.val.op in ('init', 'phi') or \
                    o.kind == 'call' and short(o.name) in ('swap', 'splice') and em in [
                        Pool.ident(x) for x in [o.obj] + list(o.locs or ()) if isinstance(x, Term) and is_loc(x)]:
                snap.append(n)
            if o.kind == 'call' and o.obj is not None and isinstance(o.obj, Term) and is_loc(o.obj) and \
                    Pool.ident(o.obj) == em and o.obj.op == 'f' and short(o.name) in ('clear', 'erase', 'pop_front'):
                clr.append(n)
            if o.kind == 'call' and short(o.name) in ('swap', 'splice') and n in snap:
                clr.append(n)
            if o.kind == 'write' and o.loc is not None and is_loc(o.loc) and Pool.ident(o.loc) == em and \
                    o.loc.op == 'f':
                clr.append(n)
        if not snap:
            R.unsure('%s: queue snapshot not recognised' % fname(f))
            continue
        if not clr:
            mv = [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'write' and Pool.ident(n.op.loc) == em]
            moved = any(n.kind == 'op' and n.op.kind == 'call' and short(n.op.name) == 'move' for n in g.nodes)
            st = g.I and None
            if moved or mv:
                R.unsure('%s: queue emptied in an unrecognised way' % fname(f))
            else:
                R.at(snap[0], 'delivered events stay in the queue and are delivered again', key='not cleared')
            continue
        for s in snap:
            r = g.after(s.i, [c.i for c in clr], False)
            if s not in clr and (g.exit in r or any(x.i in r for x in oe)):
                R.at(s, 'on some path delivered events stay in the queue and are delivered again', key='not cleared')
                continue
            held = L.must(s.i)
            rel_ = [x for x, ms in L.rel.items() if set(ms) & set(held)]
            mid = g.after(s.i, [c.i for c in clr], False)
            if s not in clr and any(x in mid for x in rel_):
                R.at(s, 'the queue is copied and emptied in different critical sections, events queued in between are lost',
                     key='not atomic')
                continue
            R.ok('%s: queue taken and emptied in one critical section' % fname(f))
        for c in clr:
            if c in snap:
                continue
            if not g.dominated(c.i, [s.i for s in snap]):
                R.at(c, 'queued events can be discarded without being delivered', key='discarded')
        # clears after the snapshot only once
        for c in clr:
            if any(x.i in live and c.i in g.after(x.i, (), False) for x in oe):
                R.at(c, 'the queue is emptied after delivering, events dispatched by listeners are lost', key='late clear')


@rule('C05', 'removal', 'a removed listener is taken off the list before the list is used for delivery and the record of '
      'removals is emptied')
def c05_removal(C, R):
    lm, dm = listener_member(C), deleted_member(C)
    if lm is None:
        R.unsure('listener list not recognised')
        return
    if dm is None:
        R.unsure('listeners are removed at once')
        return
    for f in C.fns(TS + '::process_events'):
        g = C.run(f)
        live = g.live(True)
        era = [n for n in g.nodes if n.kind == 'op' and n.i in live and is_container_call(
            n.op, ('erase', 'remove', 'remove_if')) and Pool.ident(n.op.obj) == lm]
        if not era:
            other = [n for n in g.nodes if n.kind == 'op' and n.op.kind in ('call', 'write') and n.op.child is None and
                     (n.op.loc is not None and is_loc(n.op.loc) and Pool.ident(n.op.loc) == lm or any(
                         isinstance(x, Term) and is_loc(x) and Pool.ident(x) == lm for x in (n.op.locs or ())))]
            if other:
                R.unsure('%s: removal not recognised' % fname(f))
            else:
                R.violation(f['qname'], 'removed listeners are never taken off the list', f['file'], f['line'],
                            key='never removed')
            continue
        for n in era:
            if short(n.op.name) != 'erase':
                R.ok('%s: removed by value' % fname(f))
                continue
            fs = g.facts_at(n.i)
            rel_ = [t for t in fs if any(s.op == 'init' and Pool.ident(s.args[0]) == dm for s in subterms(t))]
            found = [t for t in rel_ if t.op == 'op' and t.args[0] == '!=' and 'find' in show(t) or
                     t.op == 'op' and 'count' in show(t) and t.args[0] in ('!=', '<', '<=') or t.op == 'call']
            notf = [t for t in rel_ if t.op == 'op' and t.args[0] == '==' and 'find' in show(t)]
            if notf and not found:
                R.at(n, 'listeners that were not removed are taken off the list', key='wrong ones removed')
            elif found:
                # of the very element erased
                it = g.N(n.op.args[0])
                ok = True
                if it.op == 'iter':
                    el = [s for t in found for s in subterms(t) if s.op == 'E' and s.args[0] == 'at' and
                          value_of_member(g, s.args[1], lm)]
                    if el and all(s.args[2] is not it.args[1] for s in el):
                        ok = False
                if ok:
                    R.ok('%s: exactly the recorded listeners are taken off' % fname(f))
                else:
                    R.at(n, 'the listener taken off the list is not the one that was looked up', key='other removed')
            elif not rel_ and not any(t.op == 'call' for t in fs):
                if any(s.op in ('res', 'phi') for t in fs for s in subterms(t)):
                    R.unsure('%s: condition of the removal not recognised' % fname(f))
                else:
                    R.at(n, 'listeners are taken off the list without having been removed', key='unconditional')
            else:
                R.unsure('%s: condition of the removal not recognised' % fname(f))
            ls = [l for l in g.enclosing_loops(n.i) if l is not None]
            if not ls and len(n.op.args) < 2 and any(
                    s.op == 'phi' for s in subterms(g.N(n.op.args[0]))) and any(g.loops(n.frame)):
                R.at(n, 'at most one of the removed listeners is taken off the list', key='removes one')
            if ls and len(ls[0].tests()) > 1:
                R.at(n, 'the removal loop can be left before all removed listeners have been found', key='removal exit')
        # the list used for delivery is taken after the removals
        oe = on_events(g)
        for n in g.nodes:
            if n.kind == 'op' and n.op.kind == 'write' and n.i in live and n.op.val is not None and \
                    n.op.loc.op in ('var', 'tmp') and n.op.val.op in ('init', 'phi') and \
                    value_of_member(g, n.op.val, lm) and any(x.i in g.after(n.i) for x in oe):
                if any(e.i in g.after(n.i, (), False) for e in era):
                    R.at(n, 'the listeners an event goes to are copied before removed listeners are taken off the list',
                         key='copied early')
                else:
                    R.ok('%s: listener list copied after the removals' % fname(f))
        clr = [n for n in g.nodes if n.kind == 'op' and n.i in live and n.op.kind in ('call', 'write') and (
            n.op.obj is not None and isinstance(n.op.obj, Term) and is_loc(n.op.obj) and Pool.ident(n.op.obj) == dm and
            short(n.op.name) in ('clear', 'swap', 'erase') or n.op.kind == 'write' and n.op.loc is not None and
            is_loc(n.op.loc) and Pool.ident(n.op.loc) == dm or any(isinstance(x, Term) and is_loc(x) and Pool.ident(
                x) == dm for x in (n.op.locs or ())) and short(n.op.name) in ('swap', 'move'))]
        if not clr:
            R.at(era[0], 'the record of removed listeners is never emptied, so they can never be registered again',
                 key='record kept')
        elif g.exit in g.reach([g.entry], [c.i for c in clr], False):
            # paths on which the record is known to be empty may leave it alone
            away = [v for u in g.succ for v, fact, k in g.succ[u] if isinstance(fact, Term) and any(
                isinstance(x, Term) and is_loc(x) and Pool.ident(x) == dm for x in subterms(g.N(fact)))] if isinstance(
                    g.succ, dict) else [v for u in range(len(g.succ)) for v, fact, k in g.succ[u] if isinstance(fact, Term) and any(
                        isinstance(x, Term) and is_loc(x) and Pool.ident(x) == dm for x in subterms(g.N(fact)))]
            if g.exit in g.reach([g.entry], [c.i for c in clr] + away, False) and any(
                    g.exit in g.reach([e.i], [c.i for c in clr], False) for e in era):
                R.at(clr[0], 'the record of removed listeners can survive the removal, so one that is registered again is '
                     'taken off by mistake', key='record survives')
            else:
                R.unsure('%s: the record of removals is not emptied on every path' % fname(f))
        else:
            # emptied before it was used?
            if any(e.i in g.after(c.i, (), False) and short(c.op.name) == 'clear' for c in clr for e in era):
                R.at(clr[0], 'the record of removed listeners is emptied before it is used', key='emptied early')
            else:
                R.ok('%s: record of removals emptied' % fname(f))


@rule('C05', 'owner', 'the dispatcher of a model delivers only on the thread that created it, after having queued the event, '
      'and always does so when dispatching on that thread')
def c05_owner(C, R):
    fs = C.fns(ST + '::dispatch', pred=lambda f: not f.get('fa'))
    if not fs:
        raise AnalysisBroken('SameThreadEventDispatcher::dispatch not found')
    idfields = set()
    for f in fs:
        g = C.run(f)
        oe = on_events(g)
        q = pushes_of(g, f)
        cnt = g.path_counts([p.i for p in q], g.entry, g.exit) if q else {0}
        if cnt != {1}:
            fwd = [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and n.op.child is None and any(
                is_param(g, f, a) for a in n.op.args if isinstance(a, Term))]
            if fwd and not q:
                R.unsure('%s: event queued in an unrecognised way' % fname(f))
            else:
                R.violation(f['qname'], 'a dispatched event is queued %s times' % times(cnt), f['file'], f['line'],
                            key='queued count')
        if not oe:
            R.violation(f['qname'], 'events dispatched on the owning thread are not delivered', f['file'], f['line'],
                        key='never delivered')
            continue
        for n in oe:
            fa = g.facts_at(n.i)
            ids = [t for t in fa if 'get_id' in show(t, 12)]
            eq = [t for t in ids if t.op == 'op' and t.args[0] == '==' or t.op == 'call' and 'operator==' in str(t.args[0])]
            ne = [t for t in ids if t.op == 'op' and t.args[0] == '!=' or t.op == 'op' and t.args[0] == '!']
            if ne and not eq:
                R.at(n, 'events are delivered on threads other than the owning one', key='wrong thread')
            elif not eq:
                loose = [t for t in ids if t.op == 'op' and t.args[0] == '||' and any('get_id' not in show(x, 12) for x in t.args[1:])]
                if loose and len(loose) == len(ids):
                    R.at(n, 'events are also delivered on other threads, when %s' % show(loose[0], 4), key='wrong thread')
                elif ids:
                    R.unsure('%s: thread test not recognised' % fname(f))
                else:
                    R.at(n, 'listeners are called on whatever thread dispatches', key='any thread')
            else:
                for t in eq:
                    for s in subterms(t):
                        if s.op == 'init' and s.args[0].op == 'f':
                            idfields.add(Pool.ident(s.args[0]))
                if not idfields:
                    R.unsure('%s: owner thread not recognised' % fname(f))
                else:
                    R.ok('%s: delivered only on the owning thread' % fname(f))
                # delivered whenever on that thread

                def edge(u, v, ft, k):
                    if isinstance(ft, Term):
                        t = g.N(ft)
                        if 'get_id' in show(t, 12):
                            return t in eq
                        # nothing to deliver or nobody to deliver to
                        for s in subterms(t):
                            if s.op == 'E' and s.args[0] == 'size' and t in empty_facts(s.args[1]):
                                return False
                    return k != 'x'
                heads = [l for l in g.enclosing_loops(n.i) if l is not None]
                hs = [head_node(g, l) for l in heads[-1:]]
                if hs and hs[0] is not None:
                    r = g.reach([g.entry], hs, False, edge)
                    if g.exit in r:
                        R.at(n, 'an event dispatched on the owning thread is not always delivered', key='not delivered')
                    else:
                        R.ok('%s: always delivered on the owning thread' % fname(f))
                    for p in q:
                        if p.i in g.after(hs[0], (), False):
                            R.at(p, 'the event is queued after the queue has been delivered', key='queued late')
    # the owner is recorded by the constructor and never changes
    for i in idfields:
        n0 = 0
        for f in C.F.functions.values():
            if f.get('cls') != NS + ST or f.get('lambda'):
                continue
            g = C.run(f)
            for n in g.nodes:
                if n.kind == 'op' and n.op.kind == 'write' and n.op.loc is not None and is_loc(n.op.loc) and \
                        Pool.ident(n.op.loc) == i:
                    n0 += 1
                    if not f.get('ctor'):
                        R.at(n, 'the owning thread is changed after construction', key='owner changed')
                    elif 'get_id' not in show(g.N(n.op.val), 6):
                        R.at(n, 'the constructing thread is not recorded as the owner: %s' % show(g.N(n.op.val), 4),
                             key='owner value')
                    else:
                        R.ok('%s records the constructing thread' % fname(f))
        if n0 == 0:
            R.violation(NS + ST, 'the owning thread is never recorded', key='owner missing')


@rule('C05', 'model', 'the dispatcher a model gives to its steps is one that never delivers on a worker, and the calling '
      'thread delivers what the workers raised after taking the last result')
def c05_model(C, R):
    for sc in C.scalars:
        for f in C.fns('LDA::LDA', sc, pred=lambda f: f.get('ctor') and len(f['params']) > 1):
            g = C.run(f)
            news = set()
            for n in g.nodes:
                if n.kind == 'op' and n.op.kind == 'write' and n.op.loc is not None and n.op.loc.op == 'f' and \
                        n.op.val is not None:
                    v = g.N(n.op.val)
                    if v.op == 'obj' and 'Dispatcher' in str(v.args[2]):
                        news.add(rec_of(v.args[2]))
            if not news:
                R.unsure('%s: dispatcher not recognised' % fkey(f))
                continue
            for c in news:
                ds = [d for d in C.F.functions.values() if d['qname'] == c + '::dispatch' and not d.get('fa')]
                if not ds and c != NS + TS:
                    R.unsure('%s: no dispatch in %s' % (fkey(f), c))
                    continue
                bad = False
                for d in ds:
                    dg = C.run(d)
                    for n in on_events(dg):
                        if not any('get_id' in show(t, 12) for t in dg.facts_at(n.i)):
                            bad = True
                            R.violation(f['qname'], 'the model uses %s, which calls listeners on the worker threads' %
                                        c.replace(NS, ''), f['file'], f['line'], key='dispatcher class')
                            break
                if not bad:
                    R.ok('%s: uses %s' % (fkey(f), c.replace(NS, '')))
    for P in pools(C):
        g = P.g
        qo = P.queue_out()
        if qo is None:
            R.unsure('%s: result queue not recognised' % P.name)
            continue
        pops = P.main_pops(qo[0])
        proc = [n.i for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and (
            (n.op.name or '').endswith(('Dispatcher::process_events', 'Interface::dispatch', 'Dispatcher::dispatch')))]
        for p in pops:
            if g.exit in g.after(p.i, proc, False):
                R.at(p, 'events raised by the workers are not delivered before %s returns' % P.name,
                     key='%s undelivered' % P.name)
            else:
                R.ok('%s: worker events delivered after the last result' % P.name)


@rule('C06', 'forward', 'a step that wraps other steps passes each of their events on exactly once')
@rule('C05', 'forward', 'a step that wraps other steps passes each of their events on exactly once and takes its '
      'forwarder off when it is destroyed')
def c05_forward(C, R):
    found = False
    for f in C.F.functions.values():
        if not f.get('lambda') or len(f['params']) != 1 or 'events::Event>' not in (f['params'][0]['t'] or ''):
            continue
        if '/src/ldaplusplus/' not in f['file'] and '/include/ldaplusplus/' not in f['file']:
            continue
        g = C.run(f)
        ds = [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and (n.op.name or '').endswith('::dispatch') and
              n.op.args and isinstance(n.op.args[0], Term) and is_param(g, f, n.op.args[0])]
        if not ds:
            continue
        found = True
        cnt = g.path_counts([d.i for d in ds if not any(
            x is not d and x.frame is not d.frame and d.frame.parent is x.frame for x in ds)], g.entry, g.exit)
        if cnt != {1}:
            R.at(ds[0], 'an event is forwarded %s times' % times(cnt), key='forward count')
        else:
            R.ok('%s: forwards once' % f['key'][:60])
    # registered once with each wrapped step
    for sc in C.scalars:
        for f in C.fns('em::SemiSupervisedEStep::SemiSupervisedEStep', sc):
            if not f.get('ctor') or len(f['params']) != 2:
                continue
            g = C.run(f)
            adds = [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and n.op.child is None and
                    (n.op.name or '').endswith('::add_listener')]
            cnt = g.path_counts([a.i for a in adds], g.entry, g.exit)
            objs = {objid(g.N(a.op.obj)) if isinstance(a.op.obj, Term) else None for a in adds}
            if not found or not adds:
                if not found:
                    R.violation(f['qname'], 'the events of the wrapped steps are not forwarded', f['file'], f['line'],
                                key='no forwarder')
                else:
                    R.unsure('%s: registration not recognised' % fkey(f))
                continue
            if in_loop(g, adds):
                R.unsure('%s: registers in a loop' % fkey(f))
            elif len(adds) != 2 or len(objs) != 2:
                R.violation(f['qname'], 'the forwarder is registered with %d of the two wrapped steps (%d registrations)' % (
                    len(objs), len(adds)), f['file'], adds[0].op.line, key='registrations')
            elif g.exit in g.reach([g.entry], [adds[0].i], False) or g.exit in g.reach([g.entry], [adds[1].i], False):
                R.unsure('%s: registers conditionally' % fkey(f))
            else:
                R.ok('%s: forwarder registered with both steps' % fkey(f))
        for f in C.fns('em::SemiSupervisedEStep::~SemiSupervisedEStep', sc):
            g = C.run(f)
            rem = [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and n.op.child is None and
                   (n.op.name or '').endswith('::remove_listener')]
            objs = {objid(g.N(a.op.obj)) if isinstance(a.op.obj, Term) else None for a in rem}
            if in_loop(g, rem):
                R.unsure('%s: taken off in a loop' % fkey(f))
            elif len(objs) < 2:
                R.violation(f['qname'], 'the forwarder is not taken off both wrapped steps', f['file'], f['line'],
                            key='unregister')
            else:
                R.ok('%s: forwarder taken off both steps' % fkey(f))


def in_loop(g, ns):
    return any(l is not None for n in ns for l in g.enclosing_loops(n.i))


@rule('C05', 'plain', 'the single threaded dispatcher hands each event to every registered listener once')
def c05_plain(C, R):
    for f in C.fns('events::EventDispatcher::dispatch', pred=lambda f: not f.get('fa')):
        g = C.run(f)
        for n in on_events(g):
            e = elem(g.N(n.op.obj))
            if not is_param(g, f, n.op.args[0]):
                R.at(n, 'listeners are given something other than the dispatched event', key='other event')
                continue
            ls = [l for l in g.enclosing_loops(n.i) if l is not None]
            if e is None or not ls:
                R.unsure('%s: delivery not recognised' % fname(f))
                continue
            w = full_loop(g, ls[0], g.I.size_of(e[0]), e[1], n)
            if w == 'unsure':
                R.unsure('%s: loop not recognised' % fname(f))
            elif w:
                R.at(n, 'the loop over the listeners ' + w, key='loop')
            else:
                R.ok('%s: every listener once' % fname(f))


@rule('C05', 'moved', 'a model that is moved keeps its dispatcher, and with it the listeners and the events that are still queued')
def c05_moved(C, R):
    for sc in C.scalars:
        for f in C.fns('LDA::LDA', sc, pred=lambda f: len(f['params']) == 1 and f['params'][0]['rk'] == 'rr'):
            g = C.run(f)
            for fl in C.F.records[NS + 'LDA']['fields']:
                if 'EventDispatcher' not in (C.F.types.get(fl['t']) if isinstance(fl['t'], int) and hasattr(C.F, 'types') else str(fl['t'])):
                    continue
                ws = [n for n in g.ops('write') if n.op.loc is not None and n.op.loc.op == 'f' and n.op.loc.args[1] == fl['name'] and
                      root(n.op.loc).op == 'mem' and root(n.op.loc).args[0].op == 'this']
                last = ws[-1:] or []
                for n in last:
                    v = g.N(n.op.val)
                    if any(s.op == 'f' and s.args[1] == fl['name'] and root(s).op == 'mem' and root(s).args[0].op == 'param' for s in subterms(v)):
                        R.ok('%s: %s taken over' % (fname(f), fl['name']))
                    elif v.op in ('new', 'obj', 'call', 'const', 'res'):
                        R.at(n, 'a moved model gets another dispatcher, without the registered listeners', key='moved')
                    else:
                        R.unsure('%s: %s' % (fname(f), show(v, 4)))
