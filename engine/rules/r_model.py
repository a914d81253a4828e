"""C07: what may change the model.  C08: statistics between model updates."""
from common import *
from rules.r_races import accesses

MUT_ALG = {'fill': (0, 1), 'fill_n': (0,), 'iota': (0, 1), 'sort': (0, 1), 'shuffle': (0, 1), 'random_shuffle': (0, 1),
           'generate': (0, 1), 'generate_n': (0,), 'copy': (2,), 'copy_n': (2,), 'transform': (2, 3), 'memset': (0,),
           'memcpy': (0,), 'memmove': (0,), 'reverse': (0, 1), 'rotate': (0, 2), 'replace': (0, 1), 'swap': (0, 1),
           'swap_ranges': (0, 1, 2), 'partial_sum': (2,)}


def path_of(l):
    """(root location, [field names from the root outwards])"""
    p = []
    while l.op in ('f', 'v'):
        if l.op == 'f':
            p.append(l.args[1])
        l = l.args[0]
    return l, p[::-1]


def changes(g):
    """(node, location, how) of everything an entry point may change"""
    out = []
    for n, l, m, what in accesses(g):
        if m == 'w':
            out.append((n, l, what))
        elif m == 'a':
            out.append((n, l, 'arg ' + what))
    live = g.live(True)
    for n in g.nodes:
        if n.kind != 'op' or n.i not in live:
            continue
        o = n.op
        if o.kind == 'move' and not (o.extra or '').startswith('const '):
            out.append((n, o.loc, 'moved from'))
        if o.kind in ('call', 'ecall') and o.child is None and short(o.name) in MUT_ALG and not (
                o.name or '').startswith(NS):
            pos = MUT_ALG[short(o.name)]
            for i in pos:
                if i < len(o.args or ()):
                    a = o.args[i]
                    if isinstance(a, Term):
                        if a.op == 'addr':
                            out.append((n, a.args[0], short(o.name)))
                        elif a.op == 'iter' and is_loc(a.args[0]):
                            out.append((n, a.args[0], short(o.name)))
                        elif a.op == 'op':
                            for s in a.args[1:]:
                                if isinstance(s, Term) and s.op == 'addr':
                                    out.append((n, s.args[0], short(o.name)))
    return out


def under(g, l, roots):
    """field path of l below one of the given root locations, or None"""
    l = g.N(l)
    if not isinstance(l, Term) or not is_loc(l):
        return None
    r, p = path_of(l)
    # fields of the root may be reached through the pointer term itself
    if r in roots:
        return p
    return None


def params_of_type(f, sub):
    return [i for i, p in enumerate(f['params']) if sub in (p['t'] or '')]


def model_root(f, i):
    return T('mem', T('param', f['key'], f['params'][i]['name'] or str(i)))


def const_loc(op):
    return False


def model_member(C, scalar):
    """members of the model class that hold the model parameters"""
    r = C.F.records.get(NS + 'LDA')
    out = []
    for x in (r or {}).get('fields', ()):
        if rec_of(strip_type(x['t'] or '')) in ('std::shared_ptr', 'std::unique_ptr') and 'parameters::' in x['t']:
            out.append(x['name'])
    return out


INFER = ('LDA::transform', 'LDA::decision_function', 'LDA::predict', 'LDA::transform_predict')


def inference_entries(C, sc):
    for q in INFER:
        for f in C.fns(q, sc):
            yield f


@rule('C07', 'inference', 'no function reachable from a document expectation step, a transform, a score or a prediction '
      'writes to the model parameters')
def c07_inference(C, R):
    for sc in C.scalars:
        fs = C.overrides('em::EStepInterface::doc_e_step', sc)
        if not fs:
            raise AnalysisBroken('no expectation steps found')
        for f in fs:
            ps = params_of_type(f, 'parameters::Parameters')
            if not ps:
                R.unsure('%s: model argument not found' % fkey(f))
                continue
            check_untouched(C, R, f, C.run(f), {model_root(f, ps[0])})
        mm = model_member(C, sc)
        if not mm:
            raise AnalysisBroken('model member not found')
        for f in inference_entries(C, sc):
            g = C.run(f)
            this = T('this', Interp.ckey(f))
            roots = set()
            mems = set()
            for m in mm:
                for s in list(all_fields(g, m)):
                    mems.add(s)
                    roots.add(T('mem', T('init', s)))
            check_untouched(C, R, f, g, roots, mems)
            for n in g.nodes:
                if n.kind == 'op' and n.op.kind == 'call' and (n.op.name or '').startswith(NS + 'em::') and \
                        short(n.op.name) in ('m_step', 'doc_m_step') and n.i in g.live(True):
                    R.at(n, 'inference runs a maximization step', key='maximizes', fn=f['qname'])


def all_fields(g, name):
    """every location this->name (whatever class declares it) mentioned by the graph"""
    out = set()
    for n in g.nodes:
        if n.kind != 'op':
            continue
        o = n.op
        for t in [o.loc, o.val, o.obj, o.res] + list(o.args or ()) + list(o.locs or ()):
            if isinstance(t, Term):
                for s in subterms(t):
                    if s.op == 'f' and s.args[1] == name and root(s).op == 'mem' and root(s).args[0].op == 'this':
                        out.add(s)
    return out


def check_untouched(C, R, f, g, roots, mems=()):
    bad = False
    k = 0
    for n, l, what in changes(g):
        l2 = g.N(l)
        p = under(g, l2, roots)
        if p is None and isinstance(l2, Term) and store_loc(l2) in mems:
            p = []
            what = 'replaced'
        if p is None:
            continue
        if what.startswith('arg '):
            R.unsure('%s: model passed to %s' % (fkey(f), what[4:]))
            continue
        bad = True
        R.at(n, 'the model%s is changed during inference (%s)' % (' parameter ' + p[0] if p else '', what),
             key='writes %s' % (p[0] if p else 'model'), fn=f['qname'])
    for n in g.nodes:
        if n.kind == 'op' and n.op.kind in ('read', 'index', 'view') and n.op.loc is not None and \
                under(g, n.op.loc, roots) is not None:
            k += 1
    if not bad:
        R.ok('%s: %d accesses to the model, all reads' % (fkey(f), k))


@rule('C07', 'training', 'no maximization step writes the topic prior, the unsupervised one never touches the supervised '
      'parameters, and the training pass itself changes the model only through the maximization step')
def c07_training(C, R):
    for sc in C.scalars:
        for q in ('em::MStepInterface::doc_m_step', 'em::MStepInterface::m_step'):
            fs = C.overrides(q, sc)
            if not fs:
                raise AnalysisBroken('no overrides of %s' % q)
            for f in fs:
                ps = params_of_type(f, 'parameters::Parameters')
                roots = {model_root(f, ps[-1])}
                g = C.run(f)
                bad = False
                for n, l, what in changes(g):
                    p = under(g, l, roots)
                    if p is None:
                        continue
                    if what.startswith('arg '):
                        if p and p[0] == 'alpha' or not p:
                            R.unsure('%s: model passed to %s' % (fkey(f), what[4:]))
                        continue
                    if not p or p[0] == 'alpha':
                        bad = True
                        R.at(n, 'training writes the topic prior (%s)' % what, key='writes alpha', fn=f['qname'])
                    elif p[0] == 'eta' and '::UnsupervisedMStep' in f['qname']:
                        bad = True
                        R.at(n, 'unsupervised training writes the supervised parameters (%s)' % what, key='writes eta',
                             fn=f['qname'])
                if not bad:
                    R.ok('%s leaves the prior alone' % fkey(f))
        mm = model_member(C, sc)
        for q in ('LDA::fit', 'LDA::partial_fit'):
            for f in C.fns(q, sc):
                g = C.run(f)
                mems = set(s for m in mm for s in all_fields(g, m))
                roots = set(T('mem', T('init', s)) for s in mems)
                bad = False
                for n, l, what in changes(g):
                    l2 = g.N(l)
                    p = under(g, l2, roots)
                    if p is None and store_loc(l2) in mems:
                        p = []
                    if p is None or what.startswith('arg '):
                        continue
                    bad = True
                    R.at(n, 'a training pass changes the model%s outside the maximization step' % (
                        ' parameter ' + p[0] if p else ''), key='writes %s' % (p[0] if p else 'model'), fn=f['qname'])
                if not bad:
                    R.ok('%s changes the model only through the maximization step' % fkey(f))


@rule('C07', 'observers', 'event listeners and the events themselves do not change the model they are shown')
def c07_observers(C, R):
    for f in C.overrides('events::EventListenerInterface::on_event'):
        if f['qname'].startswith(NS + 'events::'):
            continue
        g = C.run(f)
        bad = False
        for n, l, what in changes(g):
            l2 = g.N(l)
            if not is_loc(l2) or what.startswith('arg '):
                continue
            r, p = path_of(l2)
            cls = [x for x in chain(l2) if 'ModelParameters' in x]
            if cls and r.op not in ('var', 'tmp') and not (r.op == 'mem' and r.args[0].op == 'obj'):
                bad = True
                R.at(n, 'a listener changes the model (%s)' % what, key='writes model', fn=f['qname'])
        if not bad:
            R.ok('%s changes no model' % fname(f))


def chain(l):
    out = []
    while l.op in ('f', 'v'):
        if l.op == 'f':
            out.append(str(l.args[2]))
        l = l.args[0]
    return out


# --------------------------------------------------------------------------
# C08


DIMS = ('rows', 'cols', 'size')
DROP = ('resize', 'setZero', 'setOnes', 'setConstant', 'setRandom', 'setIdentity', 'fill')


def content(g, t, stop=None):
    """subterms whose contents (not only shape) flow into t, through phis"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'E' and x.args[0] in DIMS:
            continue
        if x.op == 'filled':
            todo.append(x.args[0])
            continue
        if x.op == 'S':
            if x.args[1] == 'Constant':
                todo.append(x.args[-1])
            continue
        if x.op == 'M' and x.args[0] in DROP:
            todo.extend(x.args[2:])
            continue
        if x.op == 'phi':
            todo.extend(g.I.phis.get(x, {}).values())
            continue
        if x.op == 'init' and is_loc(x.args[0]):
            continue
        todo.extend(x.args)


def mstep_classes(C, sc):
    """(class key, doc_m_step, m_step) of every concrete maximization step"""
    docs = dict((Interp.ckey(f), f) for f in C.overrides('em::MStepInterface::doc_m_step', sc))
    ms = dict((Interp.ckey(f), f) for f in C.overrides('em::MStepInterface::m_step', sc))
    out = []
    for c in sorted(set(docs) | set(ms)):
        d = m = None
        todo = [c]
        seen = []
        while todo:
            x = todo.pop(0)
            if x in seen:
                continue
            seen.append(x)
            d = d or docs.get(x)
            m = m or ms.get(x)
            r = C.F.records.get(rec_of(x))
            for b in (r or {}).get('bases', ()):
                b = b if isinstance(b, str) else b.get('t') or b.get('name')
                bn = rec_of(b)
                todo += [k for k in list(docs) + list(ms) if rec_of(k) == bn]
        if d is not None and m is not None:
            out.append((c, d, m))
    return out


def this_fields(g, this):
    """locations of members of the object changed by the graph: loc -> exit value"""
    st = g.root.exit_state
    out = {}
    for l, v in (st or {}).items():
        if l.op == 'f' and root(l) is mem(this):
            if v is not T('init', l):
                out[l] = v
    return out


def slot(l):
    """(store location, outermost view path)"""
    p = []
    while l.op == 'v':
        p.append((l.args[1],) + tuple(l.args[2:]))
        l = l.args[0]
    return l, tuple(reversed(p))


def writes_to(g, loc):
    live = g.live(True)
    return [n for n in g.nodes if n.kind == 'op' and n.i in live and n.op.loc is not None and n.op.kind == 'write' and
            is_loc(n.op.loc) and store_loc(n.op.loc) is loc or
            n.kind == 'op' and n.i in live and n.op.kind == 'call' and n.op.child is None and n.op.obj is not None and
            isinstance(n.op.obj, Term) and is_loc(n.op.obj) and store_loc(n.op.obj) is loc and
            is_container_call(n.op, PUSH + ('resize', 'clear', 'erase', 'assign', 'pop_back', 'pop_front', 'swap'))]


def zeroish(g, v):
    v = g.N(v)
    if v.op == 'filled':
        return g.N(v.args[0]) is const(0)
    if v.op == 'S':
        return v.args[1] == 'Zero' or v.args[1] == 'Constant' and g.N(v.args[-1]) is const(0)
    if v.op in ('E0', 'list') and (v.op == 'E0' or not v.args):
        return True
    if v.op == 'M' and v.args[0] in ('setZero', 'resize'):
        return True
    return v is const(0)


def unallocated_guard(g, n):
    """the node only runs while some statistics buffer has never been allocated or nothing has been gathered yet"""
    for t in g.facts_at(n.i):
        t = g.N(t)
        if t.op == 'op' and t.args[0] in ('==', '<=', '<'):
            for s in t.args[1:]:
                if isinstance(s, Term) and s.op == 'E' and s.args[0] in DIMS and g.N(s.args[1]).op == 'init':
                    return True
                if isinstance(s, Term) and s.op == 'init' and s.args[0].op == 'f' and const(0) in t.args:
                    return True
    return False


def escape_facts(g, marks, start=None):
    """facts of the edges after which none of the marks can be reached any more (from paths without a mark so far)"""
    start = g.entry if start is None else start
    pre = g.reach([start], marks, False)
    can = set()
    rev = {}
    for u in range(len(g.nodes)):
        for v, f, k in g.succ[u]:
            if k != 'x':
                rev.setdefault(v, []).append(u)
    todo = list(marks)
    while todo:
        x = todo.pop()
        if x in can:
            continue
        can.add(x)
        todo += rev.get(x, [])
    out = []
    for u in pre:
        if u not in can:
            continue
        for v, f, k in g.succ[u]:
            if k != 'x' and v not in can:
                out.append((g.nodes[u], f))
    return out


def same_difference(t, fs):
    """the equality t contradicts a strict comparison of the same two values"""
    a = minus(lin(t.args[1]), lin(t.args[2]))
    if a is None:
        return False
    b = ({k: -v for k, v in a[0].items()}, -a[1])
    return any(x.op == 'op' and x.args[0] == '<' and len(x.args) == 3 and minus(lin(x.args[1]), lin(x.args[2])) in (a, b)
               for x in fs)


def minus(x, y):
    if x is None or y is None:
        return None
    d = dict(x[0])
    for k, v in y[0].items():
        d[k] = d.get(k, 0) - v
    return {k: v for k, v in d.items() if v}, x[1] - y[1]


def leaves(g, v, facts=(), seen=None):
    """(value, facts) alternatives of a value merged at joins of the entry function"""
    v0 = v
    v = g.N(v)
    if v.op == 'phi' and g.I.phis.get(v):
        seen = seen or ()
        if v in seen:
            return []
        out = []
        fr = phi_frame(g, v)
        for k, x in g.I.phis[v].items():
            fs = set(facts)
            if fr is not None and isinstance(k, tuple) and k[0] in fr.blocks:
                bn = block_node(g, fr, k[0])
                if bn is not None:
                    fs |= set(g.N(t) for t in g.facts_at(bn))
                ed = fr.blocks[k[0]][1]
                if k[1] < len(ed) and isinstance(ed[k[1]][1], Term):
                    ex = set()
                    g.expand(ed[k[1]][1], ex)
                    fs |= set(g.N(t) for t in ex)
                    fs.add(g.N(ed[k[1]][1]))
            if any(neg(t) in fs or t.args[0] == '==' and len(t.args) == 3 and (
                    op2('<', t.args[1], t.args[2]) in fs or op2('<', t.args[2], t.args[1]) in fs or same_difference(t, fs))
                    for t in fs if t.op == 'op'):
                continue     # no path
            out += leaves(g, x, tuple(fs), seen + (v,))
        return out
    return [(v, facts)]


def phi_frame(g, v):
    for fr in g.frames():
        if fr.id == v.args[0]:
            return fr
    return None


def block_node(g, fr, b):
    for n in g.nodes:
        if n.frame is fr and n.block == b:
            return n.i
    return None


def is_zero_fact(g, facts, loc):
    i = T('init', loc)
    z = {op2('==', i, const(0)), op2('<=', i, const(0)), op2('<', i, const(1)), op2('==', const(0), i)}
    zz = set()
    for w in DIMS:
        d = T('E', w, i)
        zz |= {op2('==', d, const(0)), op2('<=', d, const(0)), op2('<', d, const(1)), op2('==', const(0), d)}
    return any(t in z or t in zz for t in facts)


def content_paths(g, t, loc, trunc):
    """does the initial value of loc flow into t without passing an operation that limits it (trunc)?"""
    i = T('init', loc)
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x is i:
            return True
        if trunc(x):
            continue
        if x.op == 'E' and x.args[0] in DIMS:
            continue
        if x.op == 'filled':
            todo.append(x.args[0])
        elif x.op == 'S':
            if x.args[1] == 'Constant':
                todo.append(x.args[-1])
        elif x.op == 'M' and x.args[0] in DROP:
            todo.extend(x.args[2:])
        elif x.op == 'phi':
            todo.extend(g.I.phis.get(x, {}).values())
        elif x.op == 'init' and is_loc(x.args[0]):
            pass
        else:
            todo.extend(x.args)
    return False


class Step(object):
    """how one maximization step keeps its statistics"""

    def __init__(self, C, cls, d, m):
        self.cls, self.d, self.m = cls, d, m
        self.this = T('this', cls)
        self.gd = C.run(d, this=self.this)
        self.gm = C.run(m, this=self.this)
        self.kinds = {}
        self.writes = {}
        gd = self.gd
        vps = params_of_type(d, 'parameters::Parameters')
        self.vroot = model_root(d, vps[0])
        for l, v in this_fields(gd, self.this).items():
            ws = writes_to(gd, l)
            self.writes[l] = [(n, self.classify(n, l)) for n in ws]
        self.fields = sorted(self.writes, key=lambda l: l.args[1])

    def classify(self, n, l):
        g = self.gd
        o = n.op
        if o.kind == 'call':
            s = short(o.name)
            if s in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace'):
                return 'append'
            return 'grow' if s == 'resize' else 'drop'
        sl, path = slot(o.loc)
        v = g.N(o.val)
        if o.how == '+=':
            return 'count' if v is const(1) and not path else 'add'
        if o.how == '-=':
            return 'sub'
        if o.how in ('*=', '/='):
            return 'scale'
        if path:
            i = [p for p in path[0][1:] if isinstance(p, Term)]
            rd = set(content(g, v))
            if any(x.op == 'upd' and x.args[0] is x for x in rd):
                return 'other'
            # s.col(i) = s.col(i) + x
            if v.op == 'op' and v.args[0] == '+' and any(
                    isinstance(a, Term) and a.op == 'E' and a.args[0] == path[0][0] and self.isval(a.args[1], l)
                    for a in v.args[1:]):
                return 'add'
            return 'slot'
        if zeroish(g, v) and not any(x is T('init', l) for x in content(g, v)):
            return 'init'
        if v.op == 'M' and v.args[0].startswith('conservativeResize') and self.isval(v.args[1], l):
            return 'grow'
        if v.op == 'op' and v.args[0] == '+':
            a, b = v.args[1], v.args[2]
            if self.isval(a, l) or self.isval(b, l):
                return 'count' if const(1) in (a, b) else 'add'
        if any(x is T('init', l) for x in content(g, v)):
            return 'other'
        return 'over'

    def isval(self, t, l):
        g = self.gd
        t = g.N(t)
        i = T('init', l)
        while t.op in ('upd', 'M') and t is not i:
            t = g.N(t.args[0] if t.op == 'upd' else t.args[1])
        if t is i:
            return True
        if t.op == 'phi' and t.args[2] is l:
            return True
        return False

    def from_document(self, v):
        r = self.vroot
        for x in content(self.gd, v):
            if x.op == 'init' and is_loc(x.args[0]) and root(x.args[0]) is r:
                return True
            if x.op == 'call' and isinstance(x.args[0], str) and x.args[0].endswith(('get_words', 'get_class')):
                return True
        return False

    def used(self):
        """value terms the update computes with, other than to change its own members"""
        g = self.gm
        live = g.live(True)
        out = []
        for n in g.nodes:
            if n.kind != 'op' or n.i not in live:
                continue
            o = n.op
            if o.kind in ('branch', 'read', 'index', 'view'):
                continue
            if o.kind == 'write' and root(o.loc) is mem(self.this):
                continue
            if o.kind == 'write' and o.val is not None:
                out.append((n, o.val))
            elif o.kind in ('call', 'maycall', 'ecall', 'eop', 'div'):
                if o.kind == 'call' and o.child is not None:
                    continue
                for a in [o.val] + list(o.args or ()):
                    if isinstance(a, Term):
                        out.append((n, a))
        return out


def in_loop(g, n):
    return any(l is not None for l in g.enclosing_loops(n.i))


@rule('C08', 'batch', 'every statistic a document adds to is gathered additively once per document, used by the next model '
      'update with everything gathered, and cleared by it on every path')
def c08_batch(C, R):
    for sc in C.scalars:
        cs = mstep_classes(C, sc)
        if not cs:
            raise AnalysisBroken('no maximization steps found')
        for cls, d, m in cs:
            if 'Online' in cls:
                continue
            batch_class(C, R, Step(C, cls, d, m))


def batch_class(C, R, S):
    gd, gm = S.gd, S.gm
    used = S.used()
    ucont = set()
    for n, t in used:
        ucont.update(content(gm, t))
    exitd = this_fields(gd, S.this)
    exitm = gm.root.exit_state
    name = lambda l: l.args[1]
    cname = S.cls.replace(NS, '')
    counters = [l for l in S.fields if any(k == 'count' for n, k in S.writes[l])]
    full = {}
    for l in counters:
        full[l] = gd.path_counts([n.i for n, k in S.writes[l] if k == 'count'], gd.entry, gd.exit) == {1}
    slots_of = {}
    n_ok = 0
    for l in S.fields:
        ws = S.writes[l]
        kinds = set(k for n, k in ws)
        if l in counters:
            continue
        init = T('init', l)
        is_used = init in ucont
        adds = [n for n, k in ws if k == 'add']
        slots = [n for n, k in ws if k == 'slot']
        apps = [n for n, k in ws if k == 'append']
        overs = [n for n, k in ws if k in ('over', 'drop', 'init')]
        if not adds and not slots and not apps:
            if is_used and any(k == 'over' and S.from_document(n.op.val) for n, k in ws):
                n = [n for n, k in ws if k == 'over'][0]
                R.at(n, '%s keeps only the last document: %s is overwritten, not added to' % (cname, name(l)),
                     key='overwrites %s' % name(l), fn=S.d['qname'])
            continue
        gathered = adds + slots + apps
        if not is_used:
            # scratch memory that is rebuilt for each document does not count
            if overs and not all(unallocated_guard(gd, n) for n in overs):
                continue
            if not adds and not apps and not any(x.op == 'init' for n in slots for p in slot(n.op.loc)[1][0][1:] if isinstance(p, Term)
                                                 for x in subterms(gd.N(p))):
                continue
            R.at(gathered[0], '%s gathers %s but the model update does not use it' % (cname, name(l)),
                 key='unused %s' % name(l), fn=S.m['qname'])
            continue
        bad = False
        for n in overs:
            if not unallocated_guard(gd, n):
                bad = True
                R.at(n, '%s discards what was gathered in %s before' % (cname, name(l)), key='discards %s' % name(l),
                     fn=S.d['qname'])
        for n, k in ws:
            if k == 'sub':
                bad = True
                R.at(n, '%s subtracts a document from %s' % (cname, name(l)), key='subtracts %s' % name(l),
                     fn=S.d['qname'])
            elif k == 'scale' and adds:
                bad = True
                R.at(n, '%s rescales the statistics %s while gathering them' % (cname, name(l)),
                     key='scales %s' % name(l), fn=S.d['qname'])
        if adds and slots:
            bad = True
            R.at(slots[0], '%s overwrites part of the statistics %s' % (cname, name(l)), key='overwrites %s' % name(l),
                 fn=S.d['qname'])
        # once per document
        if not bad and not any(in_loop(gd, n) for n in gathered):
            marks = first_of(gd, gathered)
            cnt = gd.path_counts([n.i for n in marks], gd.entry, gd.exit)
            if 2 in cnt and adds:
                if not distinct_targets(marks):
                    bad = True
                    R.at(adds[-1], '%s adds a document to %s more than once' % (cname, name(l)),
                         key='twice %s' % name(l), fn=S.d['qname'])
            elif 0 in cnt:
                esc = escape_facts(gd, [n.i for n in marks])
                odd = [(u, f) for u, f in esc if not document_fact(gd, f)]
                if odd:
                    bad = True
                    R.at(odd[0][0], '%s does not add every document to %s' % (cname, name(l)),
                         key='skips %s' % name(l), fn=S.d['qname'])
        # used before it is cleared, on every path
        if not slots:
            un = [n.i for n, t in used if init in set(content(gm, t))]
            for n in writes_to(gm, l):
                if n.op.kind == 'write' and n.op.loc is l and zeroish(gm, n.op.val) and not gm.dominated(n.i, un):
                    fs = [f for u, f in escape_facts(gm, un) if isinstance(f, Term)]
                    if any(init in set(subterms(gm.N(f))) for f in fs):
                        R.unsure('%s: %s cleared unused under a condition on itself' % (cname, name(l)))
                        continue
                    bad = True
                    R.at(n, '%s can clear %s without having used it in an update' % (cname, name(l)),
                         key='cleared unused %s' % name(l), fn=S.m['qname'])
        # cleared by the update
        ev = exitm.get(l, init)
        if not slots:
            for v, fs in leaves(gm, ev):
                if init in set(content(gm, v)):
                    if is_zero_fact(gm, fs, l) or any(full[c] and is_zero_fact(gm, fs, c) for c in counters):
                        continue
                    bad = True
                    cond = [t for t in fs if t.op == 'op']
                    R.violation(S.m['qname'], '%s: %s still holds the documents of this pass after the update%s' % (
                        cname, name(l), ' when %s' % show(cond[0], 4) if cond else ''), S.m['file'], S.m['line'],
                        key='not cleared %s' % name(l))
                    break
        else:
            # slots indexed by a counter
            for n in slots:
                sl, path = slot(n.op.loc)
                idx = [gd.N(p) for p in path[0][1:] if isinstance(p, Term)]
                c = None
                for i in idx:
                    if i.op == 'init' and i.args[0] in counters:
                        c = i.args[0]
                if c is None:
                    rel_ = [x for i in idx for x in subterms(i) if x.op == 'init' and x.args[0] in counters]
                    if rel_:
                        bad = True
                        R.at(n, '%s stores a document in %s at %s instead of the next free place' % (
                            cname, name(l), show(idx[0], 4)), key='slot %s' % name(l), fn=S.d['qname'])
                    elif all(i.op == 'const' for i in idx):
                        bad = True
                        R.at(n, '%s stores every document in the same place of %s' % (cname, name(l)),
                             key='slot %s' % name(l), fn=S.d['qname'])
                    elif not any('get_words' in show(i, 5) for i in idx):
                        bad = True
                        R.at(n, '%s overwrites %s of earlier documents at %s' % (cname, name(l), show(idx[0], 4)),
                             key='slot %s' % name(l), fn=S.d['qname'])
                    else:
                        R.unsure('%s: place in %s not recognised' % (cname, name(l)))
                    continue
                slots_of.setdefault(c, []).append((l, n))

                def trunc(x):
                    if x.op == 'M' and str(x.args[0]).startswith('conservativeResize'):
                        return any(T('init', c) is gm.N(a) for a in x.args[2:])
                    if x.op == 'E' and x.args[0] in ('leftCols', 'head', 'block', 'topRows', 'middleCols', 'segment',
                                                    'topLeftCorner'):
                        return any(T('init', c) in set(subterms(gm.N(a))) for a in x.args[2:])
                    if x.op == 'cupd' and x.args[1] == 'resize':
                        return any(T('init', c) is gm.N(a) for a in x.args[2:])
                    return False
                loose = [u for u, t in used if content_paths(gm, t, l, trunc)]
                tight = [u for u, t in used if init in set(content(gm, t))]
                keeps = any(init in set(content(gm, v)) for v, fs in leaves(gm, ev))
                if loose and keeps:
                    bad = True
                    R.at(loose[0], '%s: the update uses all of %s, including documents of earlier passes' % (
                        cname, name(l)), key='stale %s' % name(l), fn=S.m['qname'])
        if not bad:
            n_ok += 1
            R.ok('%s: %s is gathered (%s), used and %s' % (
                cname, name(l), 'added' if adds else 'appended', 'cleared' if not slots else 'limited to this pass'))
    for c, xs in slots_of.items():
        # the count moves on by one with each stored document and restarts with each update
        cw = [n for n, k in S.writes[c] if k == 'count']
        bad = False
        for l, n in xs:
            r = gd.after(n.i, [x.i for x in cw], False)
            before = gd.reach([gd.entry], [x.i for x in cw], False)
            if gd.exit in r and n.i in before:
                bad = True
                R.at(n, '%s: the place used for a document in %s can be used again for the next one' % (cname, name(l)),
                     key='not advanced %s' % name(c), fn=S.d['qname'])
                break
        if 2 in gd.path_counts([x.i for x in cw], gd.entry, gd.exit):
            bad = True
            R.at(cw[0], '%s: %s moves on more than once for a document' % (cname, name(c)), key='advanced twice',
                 fn=S.d['qname'])
        for v, fs in leaves(gm, exitm.get(c, T('init', c))):
            if v is const(0):
                continue
            if v is T('init', c) and is_zero_fact(gm, fs, c):
                continue
            bad = True
            R.violation(S.m['qname'], '%s: %s does not restart at zero after an update' % (cname, name(c)), S.m['file'],
                        S.m['line'], key='not restarted %s' % name(c))
            break
        if not bad:
            R.ok('%s: %s counts the stored documents and restarts' % (cname, name(c)))


def first_of(g, ns):
    """writes of one statistic that are not just refinements of an earlier one in the same slot"""
    out = []
    for n in ns:
        if n.op.kind == 'write' and n.op.how == '=' and any(
                m is not n and m.op.loc is n.op.loc and n.i in g.after(m.i, (), False) for m in ns):
            continue
        out.append(n)
    return out


def distinct_targets(ns):
    ls = [n.op.loc for n in ns if n.op.kind == 'write']
    return len(set(ls)) == len(ls) and all(l.op == 'v' for l in ls)


def document_fact(g, f):
    """the condition looks at the document itself (its label or its number of words)"""
    if not isinstance(f, Term):
        return False
    t = g.N(f)
    if t.op == 'op' and t.args[0] in ('<', '<=') and len(t.args) == 3:
        # amounts below a threshold are still amounts
        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if b.op == 'const' and isinstance(b.args[0], (int, float)) and b.args[0] > 0 and not (b.args[0] == 1 and t.args[0] == '<' and integral(a)):
                return False
    return any(s.op == 'call' and isinstance(s.args[0], str) and s.args[0].endswith(('get_class', 'get_words'))
               for s in subterms(t))


def integral(t):
    """made of the word counts or the label only"""
    return all(s.op in ('E', 'call', 'const', 'init', 'param', 'mem', 'op', 'f') and not (s.op == 'E' and s.args[0] in ('cast', 'log'))
               for s in subterms(t)) and not any(s.op == 'f' and s.args[1] in ('phi', 'gamma', 'tau', 'beta', 'eta', 'alpha') for s in subterms(t))


def relations(g, facts, c):
    """facts of the form  c + k >= other  (or ==): list of (other, k, exact)"""
    ic = T('init', c)
    out = []
    for t in facts:
        t = g.N(t)
        if t.op != 'op' or t.args[0] not in ('<', '<=', '==') or len(t.args) != 3:
            continue
        a, b = lin(t.args[1]), lin(t.args[2])
        d = lin_sub(b, a)
        cs = [d] if t.args[0] != '==' else [d, lin_sub(a, b)]
        for x in cs:
            k = x[1] - (1 if t.args[0] == '<' else 0)
            co = dict(x[0])
            if co.pop(ic, 0) == 1 and len(co) == 1:
                o, v = list(co.items())[0]
                if v == -1 and o.op == 'init':
                    out.append((o.args[0], k, t.args[0] == '=='))
            # and the other direction: other - c - k > 0
    return out


def below(g, f, c, b, k):
    """the condition f says that c + k has not reached b"""
    if not isinstance(f, Term):
        return False
    ex = set()
    g.expand(f, ex)
    ex.add(f)
    ic, ib = T('init', c), T('init', b)
    for t in ex:
        t = g.N(t)
        if t.op != 'op' or len(t.args) != 3:
            continue
        d = lin_sub(lin(t.args[2]), lin(t.args[1]))
        if t.args[0] in ('<', '<='):
            kk = d[1] - (1 if t.args[0] == '<' else 0)
            if d[0] == {ib: 1, ic: -1} and kk <= -k - 1 + 0:
                return kk == -k - 1
        if t.args[0] == '!=' and (d == ({ib: 1, ic: -1}, -k) or d == ({ib: -1, ic: 1}, k)):
            return True
    return False


@rule('C08', 'minibatch', 'the mini-batch step updates the model exactly when the configured number of documents has been '
      'gathered, each in its own place, and restarts its count with each update')
def c08_minibatch(C, R):
    for sc in C.scalars:
        for cls, d, m in mstep_classes(C, sc):
            if 'Online' in cls:
                minibatch_class(C, R, Step(C, cls, d, m))


def minibatch_class(C, R, S):
    gd, gm = S.gd, S.gm
    cname = S.cls.replace(NS, '')
    name = lambda l: l.args[1]
    counters = [l for l in S.fields if any(k == 'count' for n, k in S.writes[l])]
    tables = {}
    for l in S.fields:
        for n, k in S.writes[l]:
            if k != 'slot':
                continue
            sl, path = slot(n.op.loc)
            idx = [gd.N(p) for p in path[0][1:] if isinstance(p, Term)]
            hit = [i for i in idx if i.op == 'init' and i.args[0] in counters]
            if hit:
                tables.setdefault(hit[0].args[0], []).append((l, n))
            elif any(x.op == 'init' and x.args[0] in counters for i in idx for x in subterms(i)):
                R.at(n, 'a document is stored in %s at %s instead of the next free place' % (name(l), show(idx[0], 4)),
                     key='slot %s' % name(l), fn=S.d['qname'])
    if len(tables) != 1:
        if not counters:
            R.unsure('%s: no document count found' % cname)
        elif len(counters) == 1:
            tables.setdefault(counters[0], [])
        else:
            R.unsure('%s: several counts' % cname)
            return
    if not tables:
        return
    c = list(tables)[0]
    for l in S.fields:
        ws = S.writes[l]
        adds = [n for n, k in ws if k == 'add']
        sl = [n for n, k in ws if k == 'slot']
        if not adds and not sl:
            continue
        for n, k in ws:
            if k in ('over', 'drop', 'init') and not unallocated_guard(gd, n) and n.frame.fn['key'] == S.d['key']:
                R.at(n, '%s discards what was gathered in %s before' % (cname, name(l)), key='discards %s' % name(l),
                     fn=S.d['qname'])
        for x in (adds, sl):
            marks = first_of(gd, x)
            if marks and not any(in_loop(gd, n) for n in marks):
                cnt = gd.path_counts([n.i for n in marks], gd.entry, gd.exit)
                if 0 in cnt and [1 for u, f in escape_facts(gd, [n.i for n in marks]) if not document_fact(gd, f)]:
                    R.at(marks[0], '%s does not add every document to %s' % (cname, name(l)), key='skips %s' % name(l),
                         fn=S.d['qname'])
                elif 0 in cnt and x is sl:
                    ids = [n.i for n in marks]
                    for n, k in S.writes[c]:
                        if k == 'count' and 0 in gd.path_counts(ids, gd.entry, n.i) and 0 in gd.path_counts(ids, n.i, gd.exit):
                            R.at(marks[0], '%s counts a document whose place in %s keeps what an earlier mini-batch left there' % (
                                cname, name(l)), key='stale %s' % name(l), fn=S.d['qname'])
                            break
    bs = set()
    for g, f, k in ((gd, S.d, 1), (gm, S.m, 0)):
        ps = params_of_type(f, 'parameters::Parameters')
        roots = {model_root(f, ps[-1])}
        live = g.live(True)
        ws = [n for n in g.nodes if n.kind == 'op' and n.i in live and n.op.kind == 'write' and
              under(g, n.op.loc, roots) is not None]
        if not ws:
            if g is gd:
                R.violation(f['qname'], '%s never updates the model while documents arrive' % cname, f['file'], f['line'],
                            key='no update')
            else:
                R.unsure('%s: no model write in m_step' % cname)
            continue
        for n in ws:
            rels = relations(g, g.facts_at(n.i), c)
            if not rels:
                R.at(n, '%s updates the model without a full mini-batch' % cname, key='update unguarded', fn=f['qname'])
                continue
            wrong = [r for r in rels if r[1] != k]
            good = [r for r in rels if r[1] == k]
            if not good:
                R.at(n, '%s updates the model %s' % (cname, 'one document too early' if wrong[0][1] > k else
                                                     'only after more than a full mini-batch'), key='update early',
                     fn=f['qname'])
                continue
            bs.add(good[0][0])
            R.ok('%s: %s updated when %s reaches %s' % (cname, show(n.op.loc, 3), name(c), name(good[0][0])))
            for u, ft in escape_facts(g, [n.i]):
                if u.i not in live:
                    continue
                if not below(g, ft, c, good[0][0], k):
                    R.at(u, '%s can leave out the update of a full mini-batch (when %s)' % (
                        cname, show(g.N(ft), 4) if isinstance(ft, Term) else 'taking another path'),
                        key='update skipped', fn=f['qname'])
                    break
        # the count
        lv = leaves(g, g.root.exit_state.get(c, T('init', c)))
        if not any(r[1] == k for v, fs in lv for r in relations(g, fs, c)) and all(
                lin(v) == ({T('init', c): 1}, k) for v, fs in lv):
            R.violation(f['qname'], '%s: the mini-batch count does not restart at an update' % cname, f['file'],
                        f['line'], key='not restarted')
            continue
        for v, fs in lv:
            upd = [r for r in relations(g, fs, c) if r[1] == k]
            if upd:
                if v is not const(0):
                    R.violation(f['qname'], '%s: the mini-batch count does not restart at an update but becomes %s' % (
                        cname, show(v, 3)), f['file'], f['line'], key='not restarted')
                else:
                    R.ok('%s: count restarts' % cname)
            else:
                want = ({T('init', c): 1}, k)
                if lin(v) != want:
                    R.violation(f['qname'], '%s: the mini-batch count becomes %s without an update' % (cname, show(v, 3)),
                                f['file'], f['line'], key='count')
                else:
                    R.ok('%s: count moves on' % cname)
    if len(bs) > 1:
        R.violation(S.d['qname'], '%s compares its count with different sizes: %s' % (cname, ', '.join(
            sorted(name(b) for b in bs))), S.d['file'], S.d['line'], key='sizes')
    elif len(bs) == 1:
        b = list(bs)[0]
        for l, n in tables[c]:
            for w, k in S.writes[l]:
                if k != 'init':
                    continue
                v = gd.N(w.op.val)
                if v.op == 'S' and len(v.args) > 2 and gd.N(v.args[-1]) is not T('init', b) and v.args[1] == 'Zero':
                    R.at(w, '%s: %s has room for %s documents but the mini-batch has %s' % (
                        cname, name(l), show(v.args[-1], 3), name(b)), key='room %s' % name(l), fn=S.d['qname'])
                elif v.op == 'S':
                    R.ok('%s: %s holds exactly a mini-batch' % (cname, name(l)))
