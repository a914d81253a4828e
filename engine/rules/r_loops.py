"""C20: iteration limits and progress of loops"""
from common import *
from rules.r_params import loops_with_bounds, refines, trips_term, head_op, encloses, dim_bound
from rules.r_numeric import roots
from rules.r_corpus import own, carries

FLOATS = ('float', 'double', 'const float', 'const double')


def field_types(C):
    if not hasattr(C, '_ftypes'):
        C._ftypes = {}
        for r in C.F.records.values():
            for m in r.get('fields', ()):
                C._ftypes.setdefault(m['name'], set()).add(m['t'])
    return C._ftypes


def member(t):
    """name of the member variable of the object itself that t reads"""
    if t.op == 'init' and t.args[0].op == 'f' and t.args[0].args[0].op == 'mem' and t.args[0].args[0].args[0].op == 'this':
        return t.args[0].args[1]
    return None


def is_tol(C, t):
    m = member(t)
    return m is not None and any(x in FLOATS for x in field_types(C).get(m, ()))


def is_limit(C, t):
    m = member(t)
    return m is not None and any(x.replace('const ', '') in ('size_t', 'int', 'unsigned int', 'unsigned long', 'long', 'std::size_t') for x in field_types(C).get(m, ()))


def counted(l):
    return [t for t in l.tests() if t.get('trips') is not None]


def e_main(g):
    """the outermost loops that refine what they carry and what is returned"""
    out = set()
    st = [g.root.ret] if g.root.ret is not None else []
    if g.root.ret is not None and g.root.exit_state is not None:
        st += [v for k, v in dict(g.root.exit_state).items() if isinstance(v, Term) and g.root.ret in set(subterms(k))]
    while st:
        t = st.pop()
        for x in subterms(g.N(t)):
            if x in out:
                continue
            out.add(x)
            if x.op == 'phi':
                st += list(g.I.phis.get(x, {}).values())
            if x.op in ('var', 'tmp', 'mem', 'obj') and g.root.exit_state is not None:
                try:
                    v = g.I.read(g.root.exit_state, x) if x.op != 'obj' else None
                except Exception:
                    v = None
                if isinstance(v, Term) and v not in out:
                    st.append(v)
    if not any(x.op == 'phi' for x in out):
        out = None
    ls = [l for fr in g.frames() for l in g.loops(fr) if not fr.fn['file'].startswith('/usr') and refines(g, l)
          and (out is None or any(p in out for p in l.phis()))]
    return [l for l in ls if not any(encloses(g, o, l) for o in ls if o is not l)]


def m_main(g):
    """outermost loops around the evaluation of a gradient"""
    out = []
    for n in g.nodes:
        if n.kind == 'op' and n.frame.fn['qname'].endswith('::gradient') and n.frame.parent is not None:
            ls = [l for l in g.enclosing_loops(n.i) if l is not None and not l.fr.fn['qname'].endswith('::gradient')]
            if ls:
                o = [l for l in ls if not any(encloses(g, x, l) for x in ls if x is not l)]
                out += [l for l in o if l not in out]
    return out


def stands_still(g, k, v, seen=None):
    """the value v the counter k has after an iteration may be the one it had before"""
    seen = set() if seen is None else seen
    v = g.N(v)
    if v is k:
        return True
    if v in seen:
        return False
    seen.add(v)
    if v.op == 'phi' and v in g.I.phis and v.args[0] == k.args[0] and v.args[2:] == k.args[2:]:
        vs = [g.N(x) for x in g.I.phis[v].values()]
        return any(stands_still(g, k, x, seen) for x in vs)
    if v.op == 'op' and v.args[0] == '+':
        ks, c = lin(v)
        rest = {x: n for x, n in ks.items() if x is not k}
        return ks.get(k) == 1 and c == 0 and len(rest) == 1 and list(rest)[0].op == 'op' and list(rest)[0].args[0] in (
            '<', '<=', '==', '!=', '!', '&&', '||')
    return False


def broken_limit(C, g, l, fact):
    if fact.op == 'op' and fact.args[0] in ('<', '<=') and len(fact.args) == 3:
        for a, b in ((fact.args[1], fact.args[2]), (fact.args[2], fact.args[1])):
            if not is_limit(C, a):
                continue
            ks = lin(b)[0]
            ph = l.phis()
            if any(k.op in ('res', 'call', 'eff', 'init') for k in ks):
                return None
            if not ks:
                return 'the limit %s is compared with %s, which does not count the iterations' % (member(a), show(b, 3))
            if all(k in ph for k in ks) and all(not any(s.op == 'phi' for s in subterms(g.N(v))) for k in ks for e, v in ph[k].items() if e[0] in l.body):
                return 'the limit %s is compared with %s, which starts over in every iteration' % (member(a), show(b, 3))
            if len(ks) == 1 and all(k in ph for k in ks):
                k = list(ks)[0]
                if any(stands_still(g, k, v) for e, v in ph[k].items() if e[0] in l.body):
                    return 'the limit %s is compared with %s, which does not count every iteration' % (member(a), show(b, 3))
    stay = g.N(neg(fact))
    alts = disjuncts(stay)
    if len(alts) > 1 and any(any(is_limit(C, s) for s in subterms(x)) for x in alts):
        rest = [x for x in alts if not any(is_limit(C, s) for s in subterms(x))]
        if rest:
            return 'the loop goes on past its limit while %s' % show(rest[0], 4)
    return None


def disjuncts(t):
    if t.op == 'op' and t.args[0] == '||':
        return [y for x in t.args[1:] for y in disjuncts(x)]
    if t.op == 'op' and t.args[0] == '!' and t.args[1].op == 'op' and t.args[1].args[0] == '&&':
        return [y for x in t.args[1].args[1:] for y in disjuncts(neg(x))]
    return [t]


def check_limit(C, R, g, f, l, what):
    ts = l.tests()
    cs = counted(l)
    where = '%s: %s' % (f['qname'].replace(NS, ''), what)
    if any(not isinstance(t['fact'], Term) for t in ts):
        R.unsure('%s: an exit is not understood' % where)
        return
    if not cs:
        # is there a counter the analysis does not see as one?
        lims = [t for t in ts if any(is_limit(C, s) for s in subterms(g.N(t['fact'])))]
        if lims:
            for t in lims:
                v = broken_limit(C, g, l, g.N(t['fact']))
                if v:
                    R.at(head_op(g, l), v, key='limit|' + what, fn=f['qname'])
                else:
                    R.unsure('%s: the limit is not understood' % where)
        else:
            R.at(head_op(g, l), 'the loop has no iteration limit', key='nolimit|' + what, fn=f['qname'])
        return
    for t in cs:
        a, c = t['trips']
        ms = [k for k in a if is_limit(C, k)]
        if len(a) == 1 and ms and list(a.values()) == [1]:
            if c == 0:
                R.ok('%s: limited by %s' % (where, member(ms[0])))
            else:
                R.at(head_op(g, l), 'performs %+d iterations compared with the limit %s' % (c, member(ms[0])), key='off|' + what, fn=f['qname'])
        elif not ms and not a:
            R.at(head_op(g, l), 'performs %d iterations whatever limit is configured' % c, key='fixed|' + what, fn=f['qname'])
        else:
            R.unsure('%s: trip count %s' % (where, {show(k, 3): v for k, v in a.items()}))
    for t in ts:
        if t in cs:
            continue
        fact = g.N(t['fact'])
        tol = [s for s in subterms(fact) if is_tol(C, s)]
        if any(is_limit(C, s) for s in subterms(fact)):
            R.unsure('%s: exit %s' % (where, show(fact, 4)))
            continue
        if not tol:
            if fact.op == 'op' and fact.args[0] in ('<', '<=', '==', '!=') and not any(s.op in ('res', 'call', 'eff') for s in subterms(fact)):
                R.at(head_op(g, l), 'leaves early when %s, which is not the convergence test' % show(fact, 4), key='early|' + what, fn=f['qname'])
            else:
                R.unsure('%s: exit %s' % (where, show(fact, 4)))
            continue
        if fact.op == 'op' and fact.args[0] in ('<', '<=') and len(fact.args) == 3:
            x, y = fact.args[1], fact.args[2]
            if is_tol(C, y) and not any(is_tol(C, s) for s in subterms(x)):
                R.ok('%s: stops when the change is below %s' % (where, member(y)))
                frozen(C, R, g, f, l, x, where, what)
            elif is_tol(C, x) and not any(is_tol(C, s) for s in subterms(y)):
                R.at(head_op(g, l), 'stops when the change is above %s' % member(x), key='direction|' + what, fn=f['qname'])
            else:
                R.unsure('%s: convergence test %s' % (where, show(fact, 4)))
        else:
            R.unsure('%s: convergence test %s' % (where, show(fact, 4)))


def inner_view(t):
    while t.op == 'E' and t.args[0] in ('array', 'matrix', 'transpose', 'eval', 'cast') and len(t.args) >= 2:
        t = t.args[1]
    return t


def frozen(C, R, g, f, l, x, where, what):
    """the change that is tested is the difference of two values the loop carries, one of them the other one iteration ago"""
    ph = l.phis()
    diffs = [s for s in subterms(x) if s.op == 'op' and s.args[0] == '-' and len(s.args) == 3]
    seen = False
    for r in subterms(x):
        if r.op == 'E' and r.args[0] in ('sum', 'mean') and len(r.args) == 2 and any(
                s.args[1] in ph or s.args[2] in ph for s in diffs if s == inner_view(r.args[1])):
            R.at(head_op(g, l), 'the changes of the entries are added with their signs, so that they cancel and the loop stops before they are small',
                 key='cancel|' + what, fn=f['qname'])
            return
    for s in diffs:
        a, b = s.args[1], s.args[2]
        if a == b:
            R.at(head_op(g, l), 'the change that is tested is the difference of a value with itself', key='same|' + what, fn=f['qname'])
            seen = True
            continue
        if a in ph and b in ph:
            la = {g.N(v) for k, v in ph[a].items() if k[0] in l.body}
            lb = {g.N(v) for k, v in ph[b].items() if k[0] in l.body}
            seen = True
            if len(la) == 1 and la == lb:
                R.at(head_op(g, l), 'the two values whose difference is tested are the same after the first iteration', key='same|' + what, fn=f['qname'])
            elif la == {b} or lb == {a}:
                R.ok('%s: the change since the last iteration' % where)
            elif la == {a} or lb == {b}:
                R.at(head_op(g, l), 'the change that is tested is not the one since the last iteration: one of the values never changes',
                     key='frozen|' + what, fn=f['qname'])
            else:
                R.unsure('%s: change %s' % (where, show(s, 3)))
        elif (a in ph) != (b in ph):
            p, q = (a, b) if a in ph else (b, a)
            lp = {g.N(v) for k, v in ph[p].items() if k[0] in l.body}
            varies = any(v_ in ph or v_.op == 'phi' for v_ in subterms(q))
            if q in lp:
                R.ok('%s: the change in this iteration' % where)
                seen = True
            elif not varies and what == 'expectation':
                R.at(head_op(g, l), 'the change that is tested is relative to %s, which never changes' % show(q, 3), key='frozen|' + what, fn=f['qname'])
                seen = True
    if not seen:
        R.unsure('%s: what changes is not understood: %s' % (where, show(x, 4)))


@rule('C20', 'expectation limits', 'every expectation step refines its parameters at most the configured number of times and stops early only when the change since '
      'the last iteration is below its tolerance')
def r_e(C, R):
    n = 0
    for f in C.overrides('em::EStepInterface::doc_e_step'):
        g = C.run(f)
        ls = e_main(g)
        for l in ls:
            n += 1
            check_limit(C, R, g, f, l, 'expectation')
        # limits of inner refinements
        for fr in g.frames():
            for l in g.loops(fr):
                if l in ls or fr.fn['file'].startswith('/usr'):
                    continue
                for t in counted(l):
                    a, c = t['trips']
                    lim = [k for k in a if is_limit(C, k)]
                    if lim:
                        if len(a) == 1 and a[lim[0]] == 1 and c == 0:
                            R.ok('%s: inner loop limited by %s' % (f['qname'].replace(NS, ''), member(lim[0])))
                        elif len(a) == 1 and a[lim[0]] == 1:
                            R.at(head_op(g, l), 'performs %+d iterations compared with the limit %s' % (c, member(lim[0])), key='off|inner', fn=f['qname'])
                        elif a[lim[0]] == 1 and all(k.op == 'phi' and v < 0 for k, v in a.items() if k is not lim[0]):
                            R.at(head_op(g, l), 'performs fewer iterations than the limit %s, depending on %s' % (
                                member(lim[0]), ', '.join(show(k, 2) for k in a if k is not lim[0])), key='off|inner', fn=f['qname'])
                        else:
                            R.unsure('inner loop of %s' % f['qname'])
    if not n:
        R.unsure('no refinement loop was found')


@rule('C20', 'maximization limits', 'the supervised maximization takes at most the configured number of steps and stops early only when the improvement is below its '
      'tolerance')
def r_m(C, R):
    n = 0
    for f in C.overrides('em::MStepInterface::m_step') + C.overrides('em::MStepInterface::doc_m_step'):
        g = C.run(f)
        for l in m_main(g):
            if not any(s for t in l.tests() if isinstance(t['fact'], Term) for s in subterms(t['fact'])):
                continue
            n += 1
            check_limit(C, R, g, f, l, 'maximization')
    if not n:
        R.unsure('no maximization loop was found')


@rule('C20', 'passes', 'fitting runs exactly the configured number of passes')
def r_passes(C, R):
    n_ = 0
    for sc in C.scalars:
        for f in C.fns('LDA::fit', sc):
            g = C.run(f)
            for n in g.ops('call'):
                if short(n.op.name or '') != 'partial_fit' or 'LDA' not in n.op.name or n.frame.fn['qname'].endswith('partial_fit'):
                    continue
                ls = [l for l in g.enclosing_loops(n.i) if l is not None]
                n_ += 1
                if len(ls) != 1:
                    if not ls:
                        R.at(n, 'a pass is run outside of the loop over the configured number of passes', key='pass', fn=f['qname'])
                    else:
                        R.unsure('%s: nested loops around a pass' % f['qname'])
                    continue
                l, = ls
                ts = l.tests()
                cs = counted(l)
                if len(ts) != 1 or not cs:
                    early = [t for t in ts if t not in cs]
                    if cs and early and all(isinstance(t['fact'], Term) for t in early):
                        R.at(n, 'passes stop early when %s' % show(g.N(early[0]['fact']), 3), key='pass', fn=f['qname'])
                    else:
                        R.unsure('%s: exits of the loop over the passes' % f['qname'])
                    continue
                a, c = cs[0]['trips']
                lim = [k for k in a if is_limit(C, k)]
                if len(a) == 1 and lim and a[lim[0]] == 1 and c == 0:
                    # once per iteration on every path
                    R.ok('%s: %s passes' % (f['key'].replace(NS, '')[:60], member(lim[0])))
                elif len(a) == 1 and lim and a[lim[0]] == 1 or not a:
                    R.at(n, 'the number of passes differs from the configured one by %+d' % c, key='pass', fn=f['qname'])
                else:
                    R.unsure('%s: number of passes' % f['qname'])
    if not n_:
        R.unsure('no pass found')


def var_type(fr, loc):
    if loc.op != 'var':
        return None
    for v in fr.fn['nodes'].values():
        for x in v.get('vars', ()) or ():
            if x.get('v') in loc.args or x.get('name') in loc.args:
                return x.get('t')
    return None


@rule('C20', 'progress', 'every loop that goes around again has changed something its exit conditions or its branches depend on, and no unsigned counter counts '
      'down past zero')
def r_progress(C, R):
    seen = {}
    for f in roots(C):
        if C.tier == 'quick' and ('float' in f['key'] and 'double' not in f['key']):
            continue
        g = C.run(f)
        for fr in g.frames():
            if fr.fn['file'].startswith('/usr'):
                continue
            for l in g.loops(fr):
                key = (fr.fn['qname'], l.line)
                seen.setdefault(key, []).append(stuck(g, fr, l) + (g, l))
    for (q, line), v in sorted(seen.items()):
        bad = [x for x in v if x[0] == 'bad']
        if bad:
            R.at(head_op(bad[0][2], bad[0][3]), bad[0][1], key='progress', fn=q)
        elif any(x[0] == 'ok' for x in v):
            R.ok('%s:%d: makes progress' % (q.replace(NS, ''), line), len(v))
        else:
            R.unsure('%s:%d: %s' % (q, line, v[0][1]))
    if not seen:
        raise AnalysisBroken('no loops')


def stuck(g, fr, l):
    ts = l.tests()
    for t in ts:
        c = t.get('cont')
        if not (c is not None and c.op == 'op' and c.args[0] == '<=' and c.args[1] == const(0)):
            continue
        ind = l.inductions()
        p = c.args[2]
        if p in ind and ind[p][1] == -1:
            ty = var_type(fr, p.args[2])
            if ty and (ty.startswith('unsigned') or ty in ('size_t', 'std::size_t', 'uint32_t', 'uint64_t')):
                if not [x for x in ts if x is not t]:
                    return 'bad', 'the counter is unsigned and never below zero'
    if any(t.get('trips') is not None for t in ts):
        return 'ok', ''
    facts = [g.N(t['fact']) for t in ts if isinstance(t['fact'], Term)]
    if not ts or len(facts) != len(ts):
        return 'unsure', 'left by an exception only' if not ts else 'an exit is not understood'
    ph = l.phis()
    inner = {p for p in g.I.phis if p.args[0] == fr.id and p.args[1] in l.body}
    nodes = {n.op.nid for n in g.nodes if n.kind == 'op' and n.frame is fr and n.block in l.body and n.op.nid is not None}
    inside = {n.frame.id for n in g.nodes if n.frame is not fr and in_loop(g, n, l)}
    called = {n.op.name for n in g.nodes if n.kind == 'op' and n.op.kind in ('call', 'maycall') and in_loop(g, n, l)}
    if any('condition_variable' in (c or '') or 'this_thread' in (c or '') for c in called) and \
            any(s.op in ('init', 'phi', 'eff') for x in facts for s in subterms(x)):
        return 'ok', ''             # waits for another thread to change the condition: C03 decides that it is woken
    varying = False
    for x in facts:
        for s in subterms(x):
            if s in inner or s.op in ('iter', 'algo', 'unknown', 'lockobj', 'eff'):
                varying = True
            if s.op in ('res', 'obj', 'tmp', 'new') and len(s.args) > 1 and (s.args[0] in inside or s.args[0] == fr.id and s.args[1] in nodes):
                varying = True
            if s.op == 'call' and (s.args[0] in called or short(str(s.args[0])) in {short(c or '') for c in called}):
                varying = True
            if s.op == 'phi' and s.args[0] in inside:
                varying = True
    if not varying:
        return 'bad', 'nothing in the exit condition %s changes in the loop' % show(facts[0], 3)
    # a way around the loop on which no carried value changes, with nothing called
    calls = [n for n in g.nodes if n.kind == 'op' and n.op.kind in ('call', 'maycall', 'read', 'spawn', 'lock', 'wait', 'draw') and in_loop(g, n, l)]
    acts = [n for n in calls if n.op.kind != 'read' and n.op.child is None]
    if not acts and not l_depends(g, l, ph, facts):
        return 'bad', 'every iteration repeats the same computation: nothing in the exit condition depends on the iterations before'
    if not ph:
        return ('unsure', 'no carried value') if not calls else ('ok', '')
    for sel in selections(g, fr, l, ph):
        if all(v == p for p, v in sel.items()):
            if calls:
                return 'ok', ''
            return 'bad', 'there is a way around the loop on which nothing changes'
    return 'ok', ''


@rule('C20', 'backtracking', 'a line search that tries again does so with a smaller step')
def r_backtrack(C, R):
    n = 0
    for f in C.F.functions.values():
        if short(f['qname']) != 'search' or not f['qname'].startswith(NS + 'optimization::') or not f.get('blocks'):
            continue
        g = C.run(f)
        for l in g.loops(g.root):
            facts = [g.N(t['fact']) for t in l.tests() if isinstance(t['fact'], Term)]
            for p, d in l.phis().items():
                for k, v in d.items():
                    v = g.N(v)
                    if k[0] not in l.body or v.op != 'op' or p not in v.args[1:] or len(v.args) != 3 or not any(v in set(subterms(x)) for x in facts):
                        continue
                    n += 1
                    o = [x for x in v.args[1:] if x is not p]
                    if len(o) != 1:
                        continue
                    o = o[0]
                    num = o.args[0] if o.op == 'const' and isinstance(o.args[0], (int, float)) else None
                    plain = member(o) is not None and as_given(C, f, member(o))
                    if v.args[0] == '*' and (num is None or 0 < num < 1) or v.args[0] == '/' and v.args[1] is p and (num is None and not plain or num is not None and num > 1):
                        R.ok('%s: the step shrinks' % f['qname'].replace(NS, ''))
                    elif v.args[0] == '*' and num is not None or v.args[0] == '/' and v.args[1] is p and (plain or num is not None):
                        R.at(head_op(g, l), 'the next step is %s, which is not smaller' % show(v, 3), key='grows', fn=f['qname'])
                    else:
                        R.unsure('%s: next step %s' % (f['qname'], show(v, 3)))
    if not n:
        R.unsure('no backtracking')


def as_given(C, f, name):
    """the constructors store their argument itself in the member"""
    cls = f['qname'].rsplit('::', 1)[0]
    vs = []
    for c in C.F.functions.values():
        if c['qname'].rsplit('::', 1)[0] == cls and short(c['qname']) == short(cls) and c.get('blocks') and len(c.get('params') or ()) > 1:
            g = C.run(c)
            vs += [g.N(v) for k, v in dict(g.root.exit_state).items() if k.op == 'f' and k.args[1] == name]
    return bool(vs) and all(v.op == 'param' for v in vs)


def unscaled(t):
    while t.op == 'op' and len(t.args) == 3 and (t.args[0] in ('*', '/') and t.args[2] == const(1) or t.args[0] in ('+', '-') and t.args[2] == const(0)):
        t = t.args[1]
    if t.op == 'op' and len(t.args) == 3 and (t.args[0] == '*' and t.args[1] == const(1) or t.args[0] == '+' and t.args[1] == const(0)):
        t = t.args[2]
    return t


def l_depends(g, l, ph, facts):
    """the exit conditions depend on something an earlier iteration left behind"""
    seen, work = set(), list(facts)
    while work:
        t = g.N(work.pop())
        for s in subterms(t):
            if s in seen:
                continue
            seen.add(s)
            if s in ph:
                back = [g.N(v) for k, v in ph[s].items() if k[0] in l.body]
                if any(unscaled(v) is not s for v in back):
                    return True
            elif s.op == 'phi':
                work += list(g.I.phis.get(s, {}).values())
            elif s.op in ('eff', 'res', 'obj', 'iter', 'algo', 'unknown', 'lockobj', 'new', 'tmp', 'lam', 'glob'):
                return True
    return False


def in_loop(g, n, l):
    return any(x is l or x is not None and x.fr is l.fr and x.head == l.head for x in g.enclosing_loops(n.i))


def selections(g, fr, l, ph):
    """values the carried variables have at the end of one iteration, per way into the last merge"""
    latches = {k for p in ph for k in ph[p] if k[0] in l.body}
    for k in latches:
        vals = {p: g.N(ph[p][k]) for p in ph if k in ph[p]}
        blocks = {v.args[1] for v in vals.values() if v.op == 'phi' and v.args[0] == fr.id and v.args[1] in l.body and v.args[1] != l.head}
        if len(blocks) != 1:
            yield vals
            continue
        b, = blocks
        ways = {w for v in vals.values() if v.op == 'phi' and v.args[1] == b for w in g.I.phis[v]}
        for w in ways:
            yield {p: g.N(g.I.phis[v].get(w, v)) if v.op == 'phi' and v.args[0] == fr.id and v.args[1] == b else v for p, v in vals.items()}
