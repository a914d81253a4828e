"""C22: casts of events, parameters, documents and corpora"""
from common import *
from rules.r_corpus import bases_of, methods, corpora, leaves_of, own, all_functions, app_ctx

EVENT = NS + 'events::Event'
PAR = NS + 'parameters::Parameters'
MODEL = NS + 'parameters::ModelParameters'
SMODEL = NS + 'parameters::SupervisedModelParameters'
VAR = NS + 'parameters::VariationalParameters'
DOC = NS + 'corpus::Document'
CORPUS = NS + 'corpus::Corpus'


def bare(t):
    t = t.replace('const ', '').strip()
    while t and t[-1] in '*& ':
        t = t[:-1]
    return t


def is_a(C, d, b):
    d, b = rec_of(bare(d)), rec_of(bare(b))
    return d == b or b in bases_of(C, d)


def scalar_arg(t):
    a = targs_of(bare(t))
    return a[0] if a and a[0] in ('float', 'double') else None


def fsc(f):
    return scalar_arg(Interp.ckey(f)) if f.get('cls') else None


def casts(g):
    for n in g.ops('cast'):
        if n.op.name == 'const_pointer_cast' or n.op.name.lower().startswith('dynamic') or not isinstance(n.op.extra, str):
            continue
        yield n, bare(n.op.extra)


def objtype(t):
    return t.args[2] if t.op == 'obj' and len(t.args) > 2 and isinstance(t.args[2], str) else None


# -- events -----------------------------------------------------------------------

def event_ids(C, R=None):
    """class of an event -> (constructor, identifier it is made with)"""
    out = {}
    for f in sorted(C.F.functions.values(), key=lambda f: f['key']):
        q = f['qname']
        if len(q.split('::')) < 2 or q.split('::')[-1] != q.split('::')[-2] or EVENT not in bases_of(C, q.rsplit('::', 1)[0]):
            continue
        if not f.get('blocks'):
            continue
        g = C.run(f)
        ids = [v for k, v in dict(g.root.exit_state).items() if k.op == 'f' and k.args[1] == 'id_' or
               k.op == 'f' and len(k.args) > 2 and k.args[2] and rec_of(str(k.args[2])) == EVENT]
        for v in ids:
            out.setdefault(q.rsplit('::', 1)[0], []).append((f, g.N(v)))
    return out


def ev(t, ident, lit):
    """value of the condition t when the terms in ident are the string lit"""
    if t in ident:
        return lit
    if t.op == 'str':
        return t.args[0]
    if t.op == 'const':
        return t.args[0]
    if t.op == 'op':
        a = [ev(x, ident, lit) if isinstance(x, Term) else None for x in t.args[1:]]
        o = t.args[0]
        if o == '!':
            return None if a[0] is None else not a[0]
        if o == '&&':
            return False if any(x is False for x in a) else None if None in a else all(a)
        if o == '||':
            return True if any(x for x in a if x is not None) else None if None in a else False
        if len(a) == 2 and None not in a:
            if o == '==':
                return a[0] == a[1]
            if o == '!=':
                return a[0] != a[1]
        return None
    if t.op in ('E', 'call') and isinstance(t.args[0], str) and t.args[0].split('::')[-1] == 'compare':
        a = [ev(x, ident, lit) for x in t.args[1:] if isinstance(x, Term)]
        if len(a) == 2 and all(isinstance(x, str) for x in a):
            return 0 if a[0] == a[1] else 1
    if t.op == 'ite':
        c = ev(t.args[0], ident, lit)
        if c is not None:
            return ev(t.args[1] if c else t.args[2], ident, lit)
    return None


@rule('C22', 'event identifiers', 'every kind of event is made with an identifier of its own')
def r_ids(C, R):
    seen = {}
    for c, l in sorted(event_ids(C).items()):
        for f, v in l:
            if v.op != 'str':
                R.unsure('%s: identifier %s' % (c, show(v, 3)))
                continue
            o = seen.setdefault(v.args[0], c)
            if o != c:
                R.violation(f['qname'], "has the identifier '%s' of %s" % (v.args[0], o), f['file'], f['line'], key='shared|' + v.args[0])
            else:
                R.ok('%s is %s' % (c.replace(NS, ''), v.args[0]))


@rule('C22', 'event casts', 'an event is cast to a kind only where its identifier is known to be the one of that kind')
def r_events(C, R):
    ids = {c: {v.args[0] for f, v in l if v.op == 'str'} for c, l in event_ids(C).items()}
    every = {x for s in ids.values() for x in s}
    roots, rest = [], []
    for A, f in all_functions(C):
        (roots if short(f['qname']) == 'on_event' or 'operator()' in f['qname'] else rest).append((A, f))
    reached = set()
    n_ = 0
    for k, (A, f) in enumerate(roots + rest):
        late = k >= len(roots)
        if late and f['key'] in reached:
            continue
        if late and not any('pointer_cast' in (x.get('n') or '') or x.get('ck') == 'BaseToDerived' for x in f['nodes'].values()):
            continue
        g = A.run(f)
        for fr in g.frames():
            reached.add(fr.fn['key'])
        done = set()
        for n, t in casts(g):
            if not is_a(A, t, EVENT) or rec_of(t) == EVENT:
                continue
            n_ += 1
            want = ids.get(rec_of(t))
            v = g.N(n.op.val)
            if v.op in ('mem', 'var', 'tmp') or v.op == 'f':
                base = v
            else:
                base = mem(v)
            if not want:
                R.unsure('no constructor of %s' % t)
                continue
            where = '%s casts to %s' % (f['qname'].replace(NS, ''), rec_of(t).split('::')[-1])
            facts = [g.N(x) for x in g.facts_at(n.i)]
            ident = {s for x in facts for s in subterms(x) if s.op == 'init' and s.args[0].op == 'f' and s.args[0].args[0] == base}
            ident |= {s for x in facts for s in subterms(x) if s.op in ('call', 'E') and isinstance(s.args[0], str) and
                      s.args[0].split('::')[-1] == 'id' and any(a in (v, base) or a == T('init', base) for a in s.args[1:] if isinstance(a, Term))}
            bad = unknown = None
            for lit in sorted(every - want) + ['some other event']:
                rs = [ev(x, ident, lit) for x in facts]
                if any(r is False for r in rs):
                    continue
                if any(r is None and any(s in ident for s in subterms(x)) for r, x in zip(rs, facts)):
                    unknown = lit
                else:
                    bad = lit
                    break
            fits = all(not any(ev(x, ident, lit) is False for x in facts) for lit in want)
            if bad is not None and late and not ident and v.op == 'param':
                R.unsure('%s: callers are not known' % where)
            elif bad is not None:
                R.at(n, "casts the event to %s although its identifier may be '%s'" % (rec_of(t).replace(NS, ''), bad), key='event|' + rec_of(t).split('::')[-1], fn=f['qname'])
            elif not fits:
                R.at(n, 'casts the event to %s only when it is something else' % rec_of(t).replace(NS, ''), key='event|' + rec_of(t).split('::')[-1], fn=f['qname'])
            elif unknown:
                R.unsure('%s: %s' % (where, '; '.join(show(x, 4) for x in facts)))
            else:
                R.ok(where)
    if not n_:
        R.unsure('no event is cast')


@rule('C22', 'precision', 'a cast inside a class of one precision does not name a type of the other; the applications, which train in one precision, cast to that precision')
def r_precision(C, R):
    made = {}
    for unit in C.F.apps:
        for k, f in C.F.apps[unit]['functions'].items():
            for x in f['nodes'].values():
                t = bare(x.get('t') or '')
                if rec_of(t or '') in (NS + 'LDA', NS + 'LDABuilder') and scalar_arg(t):
                    made.setdefault(scalar_arg(t), unit)
    for A, f in all_functions(C):
        if not any('pointer_cast' in (x.get('n') or '') or x.get('ck') == 'BaseToDerived' for x in f['nodes'].values()):
            continue
        g = A.run(f)
        c = fsc(f)
        for n, t in casts(g):
            if n.frame is not g.root or not t.startswith(NS) or not scalar_arg(t):
                continue
            s = scalar_arg(t)
            if c:
                if s == c:
                    R.ok('%s casts to its own precision' % f['qname'].replace(NS, ''))
                else:
                    R.at(n, 'casts to %s in the %s version' % (t.replace(NS, ''), c), key='precision|' + t, fn=f['qname'])
            elif 'applications' in f['file'] and made:
                if s in made:
                    R.ok('%s casts to the precision of the applications' % f['qname'].replace(NS, ''))
                else:
                    R.at(n, 'casts to %s while the applications train in %s' % (t.replace(NS, ''), '/'.join(sorted(made))), key='precision|' + t, fn=f['qname'])


# -- steps ------------------------------------------------------------------------

def produced(C):
    """expectation step -> types of the variational parameters it returns (None: what another step returned)"""
    out = {}
    for f in C.overrides('em::EStepInterface::doc_e_step'):
        g = C.run(f)
        if g.root.ret is None:
            continue
        r = g.root.ret
        if r.op in ('tmp', 'var'):
            r = g.I.read(g.root.exit_state, r)
        ts = set()
        for x in leaves_of(g, g.N(r)):
            if objtype(x):
                ts.add(objtype(x))
            elif x.op == 'res' and g.I.resinfo.get(x) is not None and short(g.I.resinfo[x].name or '') == 'doc_e_step':
                ts.add(None)
            elif x.op == 'const':
                ts.add('nullptr')
            else:
                ts.add('?')
        out[f['key']] = (f, ts)
    return out


def stem(f):
    return rec_of(f['cls']).split('::')[-1].replace('EStep', '').replace('MStep', '')


def origin(g, f, v):
    """index of the parameter of the entry point that is cast"""
    for i, p in enumerate(f['params']):
        t = T('param', f['key'], p['name'])
        if v == t or v == T('init', mem(t)) or v == mem(t):
            return i
    return None


@rule('C22', 'variational parameters', 'what a step or the transform casts the variational parameters to is what the expectation steps it is used with return')
def r_var(C, R):
    pr = produced(C)
    for k, (f, ts) in sorted(pr.items()):
        for t in ts:
            if t is None:
                continue
            if t == '?':
                R.unsure('%s returns something unknown' % f['qname'])
            elif t == 'nullptr':
                R.violation(f['qname'], 'returns no variational parameters', f['file'], f['line'], key='null')
            elif not is_a(C, t, VAR):
                R.violation(f['qname'], 'returns %s, which is not a kind of variational parameters' % t, f['file'], f['line'], key='kind')
            elif scalar_arg(t) != fsc(f):
                R.violation(f['qname'], 'returns %s in the %s version' % (t, fsc(f)), f['file'], f['line'], key='kind')
            else:
                R.ok('%s returns %s' % (f['qname'].replace(NS, ''), rec_of(t).split('::')[-1]))
    all_t = {(fsc(f), t) for f, ts in pr.values() for t in ts if t and t != '?' and t != 'nullptr'}
    by = {}
    for f, ts in pr.values():
        by.setdefault((stem(f), fsc(f)), set()).update(t for t in ts if t and t not in ('?', 'nullptr'))
    for f in C.overrides('em::MStepInterface::doc_m_step'):
        g = C.run(f)
        for n, t in casts(g):
            if not is_a(C, t, PAR):
                continue
            i = origin(g, f, g.N(n.op.val))
            if i is None:
                R.unsure('%s casts %s' % (f['qname'], show(g.N(n.op.val), 3)))
                continue
            if i == 1:
                feed = by.get((stem(f), fsc(f))) or {x for s, x in all_t if s == fsc(f)}
                miss = [x for x in feed if not is_a(C, x, t)]
                if miss:
                    R.at(n, 'casts the variational parameters to %s but is used with %s' % (t.replace(NS, ''), miss[0].replace(NS, '')), key='var', fn=f['qname'])
                else:
                    R.ok('%s: variational parameters' % f['qname'].replace(NS, ''))
            elif i == 2:
                model_cast(C, R, g, f, n, t)
    for sc in C.scalars:
        for f in C.fns('LDA::transform', sc):
            g = C.run(f)
            for n, t in casts(g):
                if is_a(C, t, VAR):
                    miss = [x for s, x in sorted(all_t) if s == sc and not is_a(C, x, t)]
                    if miss:
                        R.at(n, 'casts to %s what an expectation step made as %s' % (t, miss[0]), key='var', fn=f['qname'])
                    else:
                        R.ok('LDA::transform: variational parameters')


def model_cast(C, R, g, f, n, t):
    unsup = stem(f) == 'Unsupervised' or rec_of(f['cls']) == NS + 'LDA'
    limit = MODEL if unsup else SMODEL
    if not is_a(C, t, MODEL):
        R.at(n, 'casts the model parameters to %s' % t.replace(NS, ''), key='model', fn=f['qname'])
    elif not is_a(C, limit, t):
        R.at(n, 'casts the model parameters to %s, an %s model has no more than %s' % (
            t.replace(NS, ''), 'unsupervised' if unsup else 'supervised', limit.replace(NS, '')), key='model', fn=f['qname'])
    else:
        R.ok('%s: model parameters' % f['qname'].replace(NS, ''))


@rule('C22', 'model parameters', 'unsupervised steps and the transform ask no more of the model than every model has, supervised ones no more than a supervised model has, '
      'and what the applications save is what the builder makes')
def r_model(C, R):
    for q, ix in (('em::EStepInterface::doc_e_step', 1), ('em::MStepInterface::m_step', 0)):
        for f in C.overrides(q):
            g = C.run(f)
            for n, t in casts(g):
                if not is_a(C, t, PAR):
                    continue
                i = origin(g, f, g.N(n.op.val))
                if i == ix:
                    model_cast(C, R, g, f, n, t)
                elif i is None:
                    R.unsure('%s casts %s' % (f['qname'], show(g.N(n.op.val), 3)))
    for sc in C.scalars:
        for name in ('transform', 'fit', 'partial_fit'):
            for f in C.fns('LDA::' + name, sc):
                g = C.run(f)
                for n, t in casts(g):
                    if is_a(C, t, MODEL):
                        model_cast(C, R, g, f, n, t)
                for n in g.ops('call'):
                    s = short(n.op.name or '')
                    if s in ('doc_e_step', 'doc_m_step', 'm_step') and 'StepInterface' in (n.op.name or ''):
                        ix = {'doc_e_step': 1, 'doc_m_step': 2, 'm_step': 0}[s]
                        v = g.N(n.op.args[ix])
                        if v.op == 'init' and v.args[0].op == 'f' and v.args[0].args[0] == mem(g.root.this):
                            R.ok('%s gives its model to %s' % (f['qname'].replace(NS, ''), s))
                        elif s == 'doc_m_step' and v != g.N(n.op.args[1]) and any(x.op == 'obj' or x.op in ('init', 'eff') for x in subterms(v)):
                            R.unsure('%s: %s' % (f['qname'], show(v, 3)))
                        else:
                            R.at(n, 'gives %s to %s as the model' % (show(v, 4), s), key='model|' + s, fn=f['qname'])
    # what the applications save
    kinds = set()
    for f in C.fns('LDABuilder::LDABuilder', 'double'):
        g = C.run(f)
        for k, v in dict(g.root.exit_state).items():
            if k.op == 'f' and k.args[0] == mem(g.root.this) and v.op == 'obj' and objtype(v) and is_a(C, objtype(v), PAR):
                kinds.add(objtype(v))
    for A, f in all_functions(C):
        if 'applications' not in f['file'] or not any('pointer_cast' in (x.get('n') or '') for x in f['nodes'].values()):
            continue
        g = A.run(f)
        for n, t in casts(g):
            if is_a(A, t, PAR) and n.frame is g.root:
                miss = [k for k in kinds if not is_a(C, k, t)]
                if not kinds:
                    R.unsure('what the builder makes')
                elif miss:
                    R.at(n, 'casts to %s but the builder makes %s' % (t.replace(NS, ''), miss[0].replace(NS, '')), key='save', fn=f['qname'])
                else:
                    R.ok('%s casts to what the builder makes' % f['qname'].replace(NS, ''))


# -- documents --------------------------------------------------------------------

def document_type(C, corpus):
    ts = set()
    for f in corpora(C).get(rec_of(corpus), ((), (), (), ()))[1]:
        g = C.run(f)
        r = g.root.ret
        if r is not None and r.op in ('tmp', 'var'):
            r = g.I.read(g.root.exit_state, r)
        for x in leaves_of(g, g.N(r)) if r is not None else ():
            ts.add(objtype(x) or '?')
    return ts


def corpus_types(C, g):
    return {objtype(n.op.obj) for n in g.ops('call') if n.op.obj is not None and objtype(n.op.obj) and is_a(C, objtype(n.op.obj), CORPUS)
            and (n.op.name or '').split('::')[-1] == (n.op.name or '').split('::')[-2]}


@rule('C22', 'documents', 'a document or corpus is cast only to a type of which every document the training and transforming functions hand to that step is')
def r_docs(C, R):
    feeds = {}
    for sc in C.scalars:
        for name in ('fit', 'partial_fit', 'transform'):
            for f in C.fns('LDA::' + name, sc):
                g = C.run(f, opaque=(NS + 'LDA::partial_fit',) if name == 'fit' else ())
                for k in corpus_types(C, g):
                    lab = len([p for p in f['params'] if 'Eigen' in p['t']]) > 1
                    feeds.setdefault((sc, name == 'transform', lab), {}).setdefault(k, f)
    if not feeds:
        R.unsure('no corpus is made')
    for q in ('em::EStepInterface::doc_e_step', 'em::MStepInterface::doc_m_step'):
        for f in C.overrides(q):
            sc = fsc(f)
            g = C.run(f)
            for n, t in casts(g):
                isd, isc = is_a(C, t, DOC), is_a(C, t, CORPUS)
                if not isd and not isc:
                    continue
                if isd and origin(g, f, g.N(n.op.val)) != 0:
                    R.unsure('%s casts %s' % (f['qname'], show(g.N(n.op.val), 3)))
                    continue
                for (s, tr, lab), ks in sorted(feeds.items(), key=str):
                    if s != sc:
                        continue
                    if tr and 'EStep' not in q:
                        continue
                    if not tr and not lab and stem(f) != 'Unsupervised':
                        continue                 # training a supervised model without labels is a misuse
                    for k, src in sorted(ks.items()):
                        for d in sorted(document_type(C, k)) if isd else [k]:
                            if d == '?':
                                R.unsure('documents of %s' % k)
                            elif is_a(C, d, t):
                                R.ok('%s gets %s from %s' % (f['qname'].replace(NS, ''), d.split('::')[-1], src['qname'].replace(NS, '')))
                            elif tr:
                                R.at(n, 'casts to %s but %s hands it %s' % (t.replace(NS, ''), src['qname'].replace(NS, ''), d.replace(NS, '')),
                                     key='transform|' + t.split('::')[-1] + '|' + d.split('::')[-1], fn=f['qname'])
                            else:
                                R.at(n, 'casts to %s but %s hands it %s' % (t.replace(NS, ''), src['qname'].replace(NS, ''), d.replace(NS, '')),
                                     key='document|' + t.split('::')[-1], fn=f['qname'])


@rule('C22', 'dispatcher', 'the dispatcher an LDA is cast to is the one its constructor installs')
def r_dispatcher(C, R):
    for sc in C.scalars:
        kept = {}
        for f in C.fns('LDA::LDA', sc):
            g = C.run(f)
            for k, v in dict(g.root.exit_state).items():
                if k.op == 'f' and k.args[0] == mem(g.root.this) and objtype(v):
                    kept.setdefault(k.args[1], set()).add(objtype(v))
        for f in sorted(C.F.functions.values(), key=lambda f: f['key']):
            if not f.get('cls') or rec_of(f['cls']) != NS + 'LDA' or fsc(f) != sc or not f.get('blocks'):
                continue
            g = C.run(f)
            for n, t in casts(g):
                if not t.startswith(NS + 'events::') or n.frame is not g.root:
                    continue
                v = g.N(n.op.val)
                m = v.args[0].args[1] if v.op == 'init' and v.args[0].op == 'f' else None
                if m not in kept:
                    R.unsure('%s casts %s' % (f['qname'], show(v, 3)))
                    continue
                miss = [k for k in kept[m] if not is_a(C, k, t)]
                if miss:
                    R.at(n, 'casts %s to %s but the constructor makes %s' % (m, t, miss[0]), key='dispatcher', fn=f['qname'])
                else:
                    R.ok('%s: dispatcher' % f['qname'].replace(NS, ''))
