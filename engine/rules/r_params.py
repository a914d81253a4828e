"""C09: configuration values reach the role they name.

The builder's factory method, the step's constructor and the step's methods are composed: the factory is interpreted with symbolic
arguments, the object it returns carries those symbols in its constructor-only members, and the step's methods are interpreted in that
state.  Every role is then a place in the composed program (a loop bound, a convergence test, the argument of a random engine, a
coefficient in the polynomial of an update) and the rule asks which of the builder's parameters stands there."""
from collections import Counter
from common import *
from rules.r_model import changes, under, model_root

BIG = 400


def builder_params(f):
    return [T('param', f['key'], p['name']) for p in f['params']]


def mentions(t, ps):
    """subset of ps occurring in t"""
    if not isinstance(t, Term):
        return set()
    ps = set(ps)
    return {s for s in subterms(t) if s in ps}


# -- polynomials ---------------------------------------------------------------

def mono_mul(a, b):
    c = Counter(dict(a))
    for k, v in b:
        c[k] += v
    return frozenset((k, v) for k, v in c.items() if v)


def poly(t, scal=(), expand=None):
    """sum of products: {frozenset((atom, power)): coefficient}"""
    def go(t):
        if expand is not None:
            t = expand(t)
        if t.op == 'const' and isinstance(t.args[0], (int, float)):
            return {frozenset(): t.args[0]} if t.args[0] != 0 else {}
        if t.op == 'op':
            o = t.args[0]
            if o == 'neg':
                return {k: -v for k, v in go(t.args[1]).items()}
            if o in ('+', '-') and len(t.args) == 3:
                r = dict(go(t.args[1]))
                s = 1 if o == '+' else -1
                for k, v in go(t.args[2]).items():
                    r[k] = r.get(k, 0) + s * v
                    if r[k] == 0:
                        del r[k]
                return r
            if o == '*' and len(t.args) == 3:
                a, b = go(t.args[1]), go(t.args[2])
                if len(a) * len(b) > BIG:
                    return {frozenset([(t, 1)]): 1}
                r = {}
                for k, v in a.items():
                    for l, w in b.items():
                        m = mono_mul(k, l)
                        r[m] = r.get(m, 0) + v * w
                        if r[m] == 0:
                            del r[m]
                return r
            if o == '/' and len(t.args) == 3:
                a, b = go(t.args[1]), go(t.args[2])
                if len(b) == 1:
                    (k, v), = b.items()
                    inv = frozenset((x, -y) for x, y in k)
                    r = {}
                    for m, w in a.items():
                        x = mono_mul(m, inv)
                        r[x] = r.get(x, 0) + w / v
                    return r
                d = frozenset([(t.args[2], -1)])
                return {mono_mul(k, d): v for k, v in a.items()}
            if o == '@' and len(t.args) == 3:
                a, b = go(t.args[1]), go(t.args[2])
                if len(a) == 1 and len(b) == 1:
                    sc, co = frozenset(), 1
                    rest = []
                    for p, orig in ((a, t.args[1]), (b, t.args[2])):
                        (k, v), = p.items()
                        s = frozenset((x, y) for x, y in k if x in scal)
                        co *= v
                        sc = mono_mul(sc, s)
                        r = [(x, y) for x, y in k if x not in scal]
                        rest.append(r[0][0] if len(r) == 1 and r[0][1] == 1 else T('prod', *sorted((x for x, y in r), key=repr)))
                    return {mono_mul(sc, frozenset([(T('op', '@', *rest), 1)])): co}
        if t.op == 'E' and t.args[0] in ('array', 'matrix', 'eval', 'noalias', 'derived') and len(t.args) == 2:
            return go(t.args[1])
        return {frozenset([(t, 1)]): 1}
    return go(t)


def atoms(mono):
    return {k for k, v in mono}


# -- composition ---------------------------------------------------------------

class Made(object):
    """object created by a builder factory with symbolic arguments"""

    def __init__(self, C, f):
        self.C = C
        self.f = f
        self.ps = builder_params(f)
        self.g = C.run(f)
        rets = set()
        for n in self.g.ops('ret'):
            if n.frame is self.g.root and isinstance(n.op.val, Term):
                rets.add(self.g.N(n.op.val))
        self.obj = None
        if len(rets) == 1:
            r, = rets
            if r.op == 'obj':
                self.obj = r
        if self.obj is None:
            # a setter: the step ends up in a member of the builder
            c = {v for k, v in self.g.root.exit_state.items()
                 if k.op == 'f' and k.args[0].op == 'mem' and k.args[0].args[0].op == 'this' and v.op == 'obj' and
                 rec_of(v.args[2]).startswith(NS + 'em::')}
            if len(c) == 1:
                self.obj, = c
        self.cls = self.obj.args[2] if self.obj is not None else None
        self._m = {}
        self._mut = None

    def methods(self):
        """virtual functions of the class (own or inherited) that an LDA calls"""
        out = []
        chain = [self.cls]
        seen = set()
        names = set()
        I = self.C.base
        rec = self.cls
        order = [rec_of(rec)] + list(I.all_bases(rec_of(rec)))
        ta = targs_of(rec)
        for c in order:
            for f in self.C.F.functions.values():
                nm = f['qname'].split('::')[-1]
                if nm not in ('doc_e_step', 'e_step', 'doc_m_step', 'm_step') or nm in names:
                    continue
                ck = Interp.ckey(f)
                if rec_of(ck) == c and targs_of(ck)[:1] == ta[:1]:
                    seen.add((nm, f['key']))
                    out.append(f)
            names |= {n for n, k in seen}
        return out

    def state(self):
        """constructor-only members"""
        if self._mut is None:
            mut = set()
            for m in self.methods():
                g = self.C.run(m)
                for c in g.ops('write', 'call', 'ecall', 'maycall'):
                    l = c.op.loc
                    if l is None and c.op.kind != 'write':
                        continue
                    p, names = l, None
                    while isinstance(p, Term) and p.op in ('f', 'v'):
                        if p.op == 'f':
                            names = p.args[1]
                            b = p.args[0]
                            if b.op == 'mem' and b.args[0].op == 'this':
                                mut.add(names)
                        p = p.args[0]
            self._mut = mut
        st = {}
        for k, v in self.g.root.exit_state.items():
            if k.op != 'f':
                continue
            p, nm = k, None
            while p.op in ('f', 'v'):
                if p.op == 'f':
                    nm = p.args[1]
                p = p.args[0]
            if p.op == 'mem' and p.args[0] is self.obj and nm in self._mut:
                continue
            if v.op == 'E0':
                continue
            st[k] = v
        return st

    def run(self, m):
        if m['key'] not in self._m:
            self._m[m['key']] = self.C.run(m, this=self.obj, state=self.state(), tag='made:' + self.f['key'])
        return self._m[m['key']]

    def graphs(self):
        return [self.g] + [self.run(m) for m in self.methods()]


def made(C, f):
    c = C.__dict__.setdefault('_made', {})
    if f['key'] not in c:
        c[f['key']] = Made(C, f)
    return c[f['key']]


ENGINE = ('linear_congruential_engine', 'mersenne_twister_engine', 'subtract_with_carry_engine', 'discard_block_engine',
          'shuffle_order_engine', 'independent_bits_engine', 'random_device')
DIST = ('bernoulli_distribution',)


def std_ctor(n, names):
    o = n.op
    if o.kind != 'call' or not (o.name or '').startswith('std::'):
        return False
    p = (o.name or '').split('::')
    return len(p) >= 2 and p[-1] in names and p[-2] == p[-1]


def seeds(g):
    for n in g.ops('call'):
        o = n.op
        if std_ctor(n, ENGINE) and o.args:
            yield n, o.args[0]
        elif (o.name or '').startswith('std::') and short(o.name) == 'seed' and o.args and o.obj is not None:
            yield n, o.args[0]


def pname(p):
    return p.args[1]


class Roles(object):
    def __init__(self, C, R, M, roles):
        self.C, self.R, self.M = C, R, M
        self.P = dict(zip(roles, M.ps))
        self.roles = roles
        self.all = set(M.ps)
        self.used = set()
        self.where = '%s -> %s' % (fname(M.f), rec_of(M.cls).split('::')[-1])

    def bad(self, n, role, what):
        p = self.P[role]
        self.R.at(n, '%s: %s (parameter %d, %s) %s' % (self.where, role, self.roles.index(role) + 1, pname(p), what),
                  key=self.M.f['qname'] + '|' + role)

    def ok(self, role, what):
        self.R.ok('%s: %s is %s' % (self.where, role, what))

    def one(self, role, sinks, desc):
        """sinks: [(node, term)] that must be exactly the parameter"""
        p = self.P[role]
        if not sinks:
            return None
        for n, t in sinks:
            if t is p:
                self.used.add(p)
                self.ok(role, desc)
                continue
            if p in mentions(t, self.all) and not (mentions(t, self.all) - {p}):
                # some function of the parameter: only a definite breach if it is not value preserving
                self.used.add(p)
                self.R.unsure('%s: %s enters %s as %s' % (self.where, role, desc, show(t, 5)))
                continue
            if mentions(t, self.all):
                self.bad(n, role, 'does not reach %s: %s is used there' % (
                    desc, ', '.join(sorted(pname(x) for x in mentions(t, self.all)))))
            elif t.op in ('const', 'nan', 'init', 'str'):
                self.bad(n, role, 'does not reach %s: %s is used there' % (desc, show(t, 5)))
            else:
                self.R.unsure('%s: %s: %s is %s' % (self.where, role, desc, show(t, 5)))
        return True


def loops_with_bounds(g):
    for fr in g.frames():
        for l in g.loops(fr):
            for t in l.tests():
                yield l, t


def head_op(g, l):
    for n in g.nodes:
        if n.frame is l.fr and n.block == l.head and n.kind == 'op':
            return n
    for n in g.nodes:
        if n.frame is l.fr and n.kind == 'op' and n.op.line >= l.line:
            return n
    return [n for n in g.nodes if n.frame is l.fr][0]


def main_loops(g):
    """loops of an expectation step that refine the variational parameters: they (transitively) write a value the loop carries
    and that reaches the result; identified as the outermost loops of the entry function's own call chain having an exit test
    which depends on floating point state or being counted by something other than a matrix dimension"""
    out = []
    for fr in g.frames():
        for l in g.loops(fr):
            out.append(l)
    return out


def dim_bound(t):
    """loop bound is an extent of a matrix/container/document"""
    for k in lin(t)[0]:
        if k.op == 'E' and k.args[0] in ('rows', 'cols', 'size', 'outerSize', 'innerSize'):
            return True
        if k.op == 'call':
            return True
    return False


def refines(g, l):
    """the loop replaces, as a whole, a matrix it carries from one iteration to the next"""
    carried = {p.args[2] for p in l.phis()}
    for n in g.ops('write'):
        o = n.op
        if o.how == '=' and o.loc in carried and any(x is l for x in g.enclosing_loops(g.nodes.index(n))):
            return True
    return False


def limits(g):
    """counted loops whose bound is not an extent of the data: [(loop, test)]"""
    out = []
    for l, t in loops_with_bounds(g):
        if t.get('trips') is None:
            continue
        a, c = t['trips']
        if any(k.op == 'phi' for k in a) or t['init'].op != 'const' and not (
                t['step'] == -1 and t['bound'].op == 'const'):
            continue
        if t['init'].op == 'const' and not isinstance(t['init'].args[0], int):
            continue
        if dim_bound(t['bound']) or dim_bound(t['init']):
            continue
        if not a and not refines(g, l):
            continue
        out.append((l, t))
    return out


def trips_term(t):
    """the term the trip count equals, or None"""
    a, c = t['trips']
    if len(a) == 1 and c == 0:
        (k, v), = a.items()
        if v == 1:
            return k
    return None


def encloses(g, outer, inner):
    if outer is inner:
        return False
    if outer.fr is inner.fr:
        return inner.head in outer.body and inner.head != outer.head
    n = None
    for x in g.nodes:
        if x.frame is inner.fr and x.block == inner.head:
            n = x
            break
    return n is not None and any(l is outer or (l is not None and l.fr is outer.fr and l.head == outer.head)
                                 for l in g.enclosing_loops(g.nodes.index(n)))


E_ROLES = {
    'get_classic_e_step': ['iterations', 'tolerance', 'likelihood', 'seed'],
    'get_supervised_e_step': ['iterations', 'tolerance', 'fixed_point', 'likelihood', 'seed'],
    'get_fast_supervised_e_step': ['iterations', 'tolerance', 'supervised_weight', 'likelihood', 'seed'],
    'get_multinomial_supervised_e_step': ['iterations', 'tolerance', 'smoothing', 'supervised_weight', 'likelihood', 'seed'],
    'get_correspondence_supervised_e_step': ['iterations', 'tolerance', 'smoothing', 'likelihood', 'seed'],
}
M_ROLES = {
    'get_fast_supervised_m_step': ['m_iterations', 'm_tolerance', 'regularization'],
    'get_supervised_m_step': ['m_iterations', 'm_tolerance', 'regularization'],
    'get_semi_supervised_m_step': ['m_iterations', 'm_tolerance', 'regularization'],
    'get_fast_supervised_online_m_step': ['classes', 'regularization', 'minibatch', 'momentum', 'learning_rate', 'beta_weight'],
    'get_multinomial_supervised_m_step': ['smoothing'],
    'get_correspondence_supervised_m_step': ['smoothing'],
}


def anywhere(g, ps, extra=()):
    """parameters occurring in anything the graph computes"""
    out, seen = set(), set()

    def go(t):
        if not isinstance(t, Term) or t in seen:
            return
        seen.add(t)
        for s in subterms(t):
            if s in ps:
                out.add(s)
            if s.op == 'phi' and s not in seen:
                seen.add(s)
                for h in (g,) + extra:
                    for v in h.I.phis.get(s, {}).values():
                        go(v)
    for n in g.nodes:
        if n.kind != 'op':
            continue
        o = n.op
        for t in [o.val, o.obj] + list(o.args or []):
            go(t)
    return out


def check_e(C, R, M, roles):
    X = Roles(C, R, M, roles)
    doc = [m for m in M.methods() if m['qname'].endswith('::doc_e_step')]
    if not doc:
        R.unsure('%s: no doc_e_step found' % X.where)
        return
    g = M.run(doc[0])
    fn = doc[0]
    P = X.P
    # limits
    lim = limits(g)
    outer = [(l, t) for l, t in lim if not any(encloses(g, o, l) for o, _ in lim)]
    inner = [(l, t) for l, t in lim if any(encloses(g, o, l) for o, _ in lim)]
    for role, ls in (('iterations', outer), ('fixed_point', inner)):
        if role not in P:
            for l, t in ls:
                w = mentions(t['bound'], X.all)
                if w and role == 'fixed_point':
                    x, = list(w)[:1]
                    X.bad(head_op(g, l), X.roles[M.ps.index(x)], 'bounds an inner loop')
            continue
        sinks = []
        for l, t in ls:
            k = trips_term(t)
            sinks.append((head_op(g, l), k if k is not None else t['bound']))
        if not X.one(role, sinks, 'the bound of the %s loop' % ('expectation' if role == 'iterations' else 'fixed point')):
            if P[role] not in anywhere(g, X.all):
                R.violation(fn['qname'], '%s: %s (%s) is never used' % (X.where, role, pname(P[role])), fn['file'], fn['line'],
                            key=M.f['qname'] + '|' + role)
            else:
                R.unsure('%s: no loop bounded by %s recognised' % (X.where, role))
    # convergence tests: exits of the loops whose fact compares floating point state
    tol = []
    for l, t in outer:
        for b, i, s, f in l.exits():
            if isinstance(f, Term):
                cmps = set()
                g.expand(f, cmps)
                for c in cmps or {f}:
                    c = g.N(c)
                    if c.op == 'op' and c.args[0] in ('<', '<=', '>', '>=', '==', '!=') and f is not t['fact']:
                        tol.append((head_op(g, l), c))
    tt = [(n, c) for n, c in tol if P['tolerance'] in mentions(c, X.all)]
    for n, c in tol:
        w = mentions(c, X.all) - {P['tolerance'], P['iterations']}
        for x in w:
            X.bad(n, X.roles[M.ps.index(x)], 'takes part in the convergence test')
    if tt:
        X.used.add(P['tolerance'])
        for n, c in tt:
            side = [a for a in c.args[1:] if P['tolerance'] in mentions(a, X.all)]
            if side and all(a is P['tolerance'] for a in side):
                X.ok('tolerance', 'compared with the change in the convergence test')
            else:
                R.unsure('%s: tolerance enters as %s' % (X.where, show(c, 5)))
    elif tol and not any(mentions(c, X.all) for n, c in tol) or P['tolerance'] not in anywhere(g, X.all):
        if tol or P['tolerance'] not in anywhere(g, X.all):
            X.bad(tol[0][0] if tol else head_op(g, outer[0][0]) if outer else g.nodes[0], 'tolerance',
                  'does not take part in the convergence test')
    # sampling of the likelihood
    sinks = [(n, n.op.args[0] if n.op.args else const(0.5)) for n in g.ops('call') if std_ctor(n, DIST)]
    if not X.one('likelihood', sinks, 'the probability of evaluating the likelihood'):
        if P['likelihood'] not in anywhere(g, X.all):
            R.violation(fn['qname'], '%s: likelihood percentage (%s) is never used' % (X.where, pname(P['likelihood'])),
                        fn['file'], fn['line'], key=M.f['qname'] + '|likelihood')
        else:
            R.unsure('%s: no Bernoulli draw recognised' % X.where)
    # seed
    sinks = [(n, t) for n, t in seeds(M.g)]
    if not X.one('seed', sinks, 'the seed of the random engine'):
        if P['seed'] not in anywhere(M.g, X.all) or not any(
                P['seed'] in mentions(v, X.all) for k, v in M.g.root.exit_state.items() if k.op == 'f'):
            R.unsure('%s: no random engine construction recognised' % X.where)
    # weights
    if 'supervised_weight' in P:
        weight(C, R, X, g, 'supervised_weight', 'eta')
    if 'smoothing' in P:
        smoothing(C, R, X, g)


def has_model(t, member):
    for s in subterms(t):
        if s.op == 'init' and s.args[0].op == 'f' and s.args[0].args[1] == member:
            return True
    return False


def deep(g, t, member, seen=None, depth=0):
    """t depends on the model member, looking through phis and assigned values"""
    if seen is None:
        seen = set()
    for s in subterms(t):
        if s.op == 'init' and s.args[0].op == 'f' and s.args[0].args[1] == member:
            return True
        if s.op == 'phi' and s not in seen and depth < 6:
            seen.add(s)
            for v in g.I.phis.get(s, {}).values():
                if deep(g, v, member, seen, depth + 1):
                    return True
    return False


def weight(C, R, X, g, role, member):
    """the parameter multiplies exactly the terms of the assignment update that come from the supervised parameters"""
    p = X.P[role]
    okc = bad = 0
    last = None
    for n in g.ops('write', 'eop'):
        if n.op.kind == 'eop' and n.op.name not in ('+', '-'):
            continue
        t = n.op.val if n.op.kind == 'write' else (T('op', n.op.name, *n.op.args) if len(n.op.args or []) == 2 else None)
        if t is None or p not in mentions(t, X.all):
            continue
        if t.op != 'op':
            continue
        ml = poly(g.N(t), X.all)
        if not any(p in atoms(m) for m in ml):
            continue
        last = n
        for m in ml:
            others = (atoms(m) & X.all) - {p}
            has = any(deep(g, a, member) for a in atoms(m))
            if p in atoms(m):
                pw = dict(m)[p]
                if pw != 1:
                    bad += 1
                    X.bad(n, role, 'enters with power %s' % pw)
                elif others:
                    bad += 1
                    X.bad(n, role, 'is multiplied with %s' % ', '.join(pname(x) for x in others))
                elif not has:
                    bad += 1
                    X.bad(n, role, 'scales a term that does not come from the supervised parameters')
                else:
                    okc += 1
            elif has and len(m) == 1 and n.op.kind == 'eop':
                # an unscaled supervised term beside a scaled one
                pass
    if okc and not bad:
        X.used.add(p)
        X.ok(role, 'the weight of the supervised term (%d updates)' % okc)
    elif not okc and not bad:
        if p not in anywhere(g, X.all):
            fn = g.root.fn
            w = None
            R.violation(fn['qname'], '%s: %s (%s) is never used' % (X.where, role, pname(p)), fn['file'], fn['line'],
                        key=X.M.f['qname'] + '|' + role)
        else:
            R.unsure('%s: %s not recognised as a coefficient' % (X.where, role))
    # nothing else weights the supervised term
    for n in g.ops('write', 'eop'):
        t = n.op.val if n.op.kind == 'write' else (T('op', n.op.name, *n.op.args) if len(n.op.args or []) == 2 else None)
        if t is None or t.op != 'op' or not mentions(t, X.all):
            continue
        for m in poly(g.N(t), X.all):
            for x in (atoms(m) & X.all) - {p}:
                if n.op.loc is not None and any(deep(g, a, member) for a in atoms(m)) and \
                        X.roles[X.M.ps.index(x)] in ('iterations', 'tolerance', 'likelihood', 'seed', 'fixed_point'):
                    X.bad(n, X.roles[X.M.ps.index(x)], 'scales the supervised term')


def smoothing(C, R, X, g):
    """the Dirichlet smoothing enters the likelihood of the class parameters"""
    p = X.P['smoothing']
    if p in anywhere(g, X.all):
        X.used.add(p)
        X.ok('smoothing', 'used in the likelihood')
    else:
        fn = g.root.fn
        R.violation(fn['qname'], '%s: smoothing (%s) is never used' % (X.where, pname(p)), fn['file'], fn['line'],
                    key=X.M.f['qname'] + '|smoothing')
    # a different parameter in the log-gamma normaliser of the Dirichlet prior
    for n in g.ops('math'):
        if n.op.name != 'lgamma':
            continue
        w = set()
        for a in n.op.args:
            w |= mentions(a, X.all)
        if w - {p}:
            X.bad(n, 'smoothing', 'is replaced by %s in the prior of the class parameters' %
                  ', '.join(sorted(pname(x) for x in w - {p})))


def lockstep(g, t):
    """t with every counter replaced by one representative of those that start and step with it in the same loop"""
    if not isinstance(t, Term):
        return t
    if t.op == 'phi':
        for fr in g.frames():
            if fr.id != t.args[0]:
                continue
            for l in g.loops(fr):
                ind = l.inductions()
                if t in ind:
                    return min((p for p, d in ind.items() if d[1] == ind[t][1] and g.N(d[0]) is g.N(ind[t][0])), key=show)
        return t
    if t.op in ('op', 'ix'):
        return T(t.op, *[lockstep(g, a) for a in t.args])
    return t


def check_m(C, R, M, roles):
    X = Roles(C, R, M, roles)
    P = X.P
    ms = {m['qname'].split('::')[-1]: m for m in M.methods()}
    if 'm_step' not in ms:
        R.unsure('%s: no m_step' % X.where)
        return
    g = M.run(ms['m_step'])
    gd = M.run(ms['doc_m_step']) if 'doc_m_step' in ms else None
    used = anywhere(g, X.all, (M.g,)) | (anywhere(gd, X.all, (M.g,)) if gd is not None else set())
    fn = ms['m_step']
    for r, p in P.items():
        if p not in used:
            R.violation(fn['qname'], '%s: %s (%s) is never used' % (X.where, r, pname(p)), fn['file'], fn['line'],
                        key=M.f['qname'] + '|' + r)
    if 'm_iterations' in P:
        conv(C, R, X, g)
    if 'regularization' in P:
        coeff_of_eta(C, R, X, g, 'regularization')
    if 'classes' in P and rec_of(M.f['params'][0]['t']) == 'std::vector':
        for n in M.g.ops('write'):
            v, l = n.op.val, n.op.loc
            if isinstance(v, Term) and v.op == 'E' and v.args[0] == 'at' and v.args[1] is P['classes'] and l.op == 'v' and \
                    l.args[1] == 'at':
                i = l.args[2][0] if isinstance(l.args[2], tuple) else l.args[2]
                d = lin_sub(lin(lockstep(M.g, M.g.N(i))), lin(lockstep(M.g, M.g.N(v.args[2]))))
                if d == ({}, 0):
                    X.ok('classes', 'copied element by element')
                elif len([k for k in d[0] if k.op == 'phi']) > 1:
                    R.unsure('%s: weight %s stored at position %s' % (X.where, show(v.args[2], 3), show(i, 3)))
                else:
                    X.bad(n, 'classes', 'stores weight %s at position %s' % (show(v.args[2], 3), show(i, 3)))
            elif isinstance(v, Term) and l.op == 'v' and l.args[1] == 'at' and v.op == 'op' and v.args[0] in ('+', '-', '*', '/'):
                nv = poly(M.g.N(v), {})
                el = [x for x in subterms(v) if x.op == 'E' and x.args[0] == 'at' and x.args[1] is P['classes']]
                if el and not any(x.op == 'phi' and x not in subterms(el[0]) for x in subterms(v)) and \
                        nv != poly(M.g.N(el[0]), {}):
                    X.bad(n, 'classes', 'is stored as %s' % show(v, 4))
    if 'momentum' in P:
        online(C, R, X, g, gd)
    if roles == ['smoothing']:
        p = P['smoothing']
        done = False
        for n, l, v in model_writes(g, 'eta'):
            if n.op.how != '=' or p not in mentions(v, X.all):
                continue
            ml = poly(g.N(v), X.all)
            ms_ = {frozenset(m): c for m, c in ml.items() if p in atoms(m)}
            if list(ms_.items()) == [(frozenset([(p, 1)]), 1)] and ml.get(frozenset()) == -1:
                X.ok('smoothing', 'added, minus one, to the expected class counts')
                done = True
            elif list(ms_.items()) == [(frozenset([(p, 1)]), 1)] and ml.get(frozenset(), 0) != -1 or any(
                    len(m) > 1 or dict(m).get(p) != 1 for m in ms_):
                X.bad(n, 'smoothing', 'enters the class parameters as %s instead of being added minus one' % show(v, 4))
                done = True
        if not done and p in used:
            R.unsure('%s: smoothing not recognised' % X.where)


def model_writes(g, member):
    for n in g.ops('write'):
        l = n.op.loc
        p = l
        while isinstance(p, Term) and p.op == 'v':
            p = p.args[0]
        if isinstance(p, Term) and p.op == 'f' and p.args[1] == member and \
                root(p).op == 'mem' and root(p).args[0].op == 'param':
            yield n, l, n.op.val


def int_like(g, t):
    """a counter: induction or integer constant combination"""
    for l_, c in [(lin(t))]:
        for k in l_:
            if k.op == 'phi':
                for fr in g.frames():
                    for l in g.loops(fr):
                        if k in l.inductions():
                            return True
    return False


def conv(C, R, X, g):
    """the optimiser stops on the iteration limit compared with its iteration counter and on the tolerance compared with the
    improvement"""
    P = X.P
    facts = []
    for n in g.ops('branch', 'ret', 'maycall', 'call'):
        t = n.op.val
        if isinstance(t, Term) and mentions(t, X.all):
            facts.append((n, t))
    seen = set()
    found = {'m_iterations': [], 'm_tolerance': []}
    for n, t in facts:
        for s in subterms(g.N(t)):
            if s.op == 'op' and s.args[0] in ('<', '<=', '>', '>=', '==', '!=') and len(s.args) == 3 and s not in seen:
                seen.add(s)
                for a, b in ((s.args[1], s.args[2]), (s.args[2], s.args[1])):
                    la = lin(a)
                    for r in found:
                        if P[r] in mentions(a, X.all):
                            found[r].append((n, s, a, b))
    for r, l in found.items():
        other = 'm_tolerance' if r == 'm_iterations' else 'm_iterations'
        if not l:
            R.unsure('%s: %s not found in a comparison' % (X.where, r))
            continue
        for n, s, a, b in l:
            cnt = counter(g, b)
            if r == 'm_iterations' and cnt is False:
                X.bad(n, r, 'is compared with %s, which does not count iterations' % show(b, 5))
            elif r == 'm_tolerance' and cnt is True:
                X.bad(n, r, 'is compared with the iteration counter')
            elif (mentions(b, X.all) & {P['m_iterations'], P['m_tolerance']}) or any(k in X.all for k in lin(b)[0]):
                X.bad(n, r, 'is compared with %s' % show(b, 5))
            elif a is not P[r] and not (mentions(a, X.all) - {P[r]}):
                R.unsure('%s: %s enters as %s' % (X.where, r, show(a, 4)))
            elif mentions(a, X.all) - {P[r]}:
                X.bad(n, r, 'is mixed with %s' % show(a, 4))
            else:
                X.ok(r, 'compared with the %s' % ('iteration counter' if r == 'm_iterations' else 'relative improvement'))


def counter(g, t):
    """True: integer iteration counter, False: certainly floating point data, None: unknown"""
    a, c = lin(g.N(t))
    if len(a) == 0:
        return None
    for k in a:
        if k.op == 'phi':
            ok = None
            for fr in g.frames():
                for l in g.loops(fr):
                    if k in l.inductions():
                        ok = True
            if ok:
                return True
        if has_float(g, k):
            return False
    return None


def has_float(g, t, seen=None, d=0):
    if seen is None:
        seen = set()
    for s in subterms(t):
        if s.op == 'call' and s.args[0] in ('log', 'exp', 'fabs', 'abs', 'sqrt', 'pow'):
            return True
        if s.op == 'E' and s.args[0] in ('sum', 'squaredNorm', 'norm', 'log', 'exp'):
            return True
        if s.op == 'op' and s.args[0] == '/':
            return True
        if s.op == 'phi' and s not in seen and d < 4:
            seen.add(s)
            if any(has_float(g, v, seen, d + 1) for v in g.I.phis.get(s, {}).values()):
                return True
    return False


def eta_atoms(g):
    return [T('init', None)]


def is_eta(g, a):
    """atom is the supervised parameter matrix (current or updated)"""
    if a.op == 'init' and a.args[0].op == 'f' and a.args[0].args[1] == 'eta':
        return True
    if a.op == 'phi' and a.args[2].op == 'f' and a.args[2].args[1] == 'eta':
        return True
    if a.op == 'phi' and a.args[2].op in ('var', 'tmp'):
        vs = list(g.I.phis.get(a, {}).values())
        return any(v.op == 'init' and v.args[0].op == 'f' and v.args[0].args[1] == 'eta' for v in vs)
    return False


def coeff_of_eta(C, R, X, g, role):
    """the penalty is the coefficient of the parameters in the gradient and of half their squared norm in the value"""
    p = X.P[role]
    okc = 0
    for n in g.ops('write', 'eop', 'ret', 'div'):
        if n.op.kind == 'write':
            t = n.op.val
        elif n.op.kind == 'ret':
            t = n.op.val
        elif n.op.kind == 'eop' and len(n.op.args or []) == 2:
            t = T('op', n.op.name, *n.op.args)
        else:
            continue
        if not isinstance(t, Term) or t.op != 'op' or t.args[0] not in ('+', '-', '*', '/', 'neg') or p not in mentions(t, X.all):
            continue
        for m, c in poly(g.N(t), X.all).items():
            A = atoms(m)
            if p not in A:
                continue
            others = (A & X.all) - {p}
            if others - {X.P.get('learning_rate')}:
                X.bad(n, role, 'is multiplied with %s' % ', '.join(pname(x) for x in others))
                continue
            rest = A - {p} - others
            if dict(m)[p] != 1:
                if len(rest) == 1 and is_eta(g, list(rest)[0]) and dict(m)[list(rest)[0]] == 1:
                    X.bad(n, role, 'enters with power %s' % dict(m)[p])
            elif any(is_eta(g, a) for a in rest) or any(
                    a.op == 'E' and a.args[0] == 'squaredNorm' for a in rest):
                nrm = [a for a in rest if a.op == 'E' and a.args[0] == 'squaredNorm']
                if nrm and abs(c) != 0.5:
                    X.bad(n, role, 'multiplies the squared norm of the parameters by %s instead of a half' % c)
                else:
                    okc += 1
            elif rest and all(not deep(g, a, 'eta') for a in rest):
                X.bad(n, role, 'multiplies %s, which does not depend on the supervised parameters' % show(list(rest)[0], 4))
            elif not rest:
                X.bad(n, role, 'is added on its own')
    # both the value and the gradient of the objective carry the penalty
    for fr in g.frames():
        q = fr.fn['qname']
        if q.startswith(NS + 'optimization::') and q.split('::')[-1] in ('value', 'gradient'):
            hit = False
            for n in g.ops():
                x = n.frame
                while x is not None and x is not fr:
                    x = g.nodes[g.opnode[x.pop]].frame if x.pop is not None and x.pop in g.opnode else None
                if x is fr and any(p in mentions(t, X.all) for t in [n.op.val] + list(n.op.args or [])):
                    hit = True
                    break
            if hit:
                okc += 1
            else:
                R.violation(q, '%s: %s (%s) does not enter the %s of the objective' % (X.where, role, pname(p), q.split('::')[-1]),
                            fr.fn['file'], fr.fn['line'], key=X.M.f['qname'] + '|' + role + q.split('::')[-1])
    if okc:
        X.ok(role, 'the coefficient of the parameters (%d places)' % okc)
    elif p in anywhere(g, X.all):
        R.unsure('%s: %s not recognised as a coefficient' % (X.where, role))


def field_atom(g, M, a):
    """a is (a version of) a member of the step object: name or None"""
    l = None
    if a.op == 'init':
        l = a.args[0]
    elif a.op == 'phi':
        l = a.args[2]
    while isinstance(l, Term) and l.op == 'v':
        l = l.args[0]
    if isinstance(l, Term) and l.op == 'f' and l.args[0].op == 'mem' and l.args[0].args[0] is M.obj:
        return l.args[1]
    return None


def online(C, R, X, g, gd):
    P, M = X.P, X.M
    # beta' = w * beta + (1-w) * statistics
    p = P['beta_weight']
    for n, l, v in model_writes(g, 'beta'):
        if n.op.how not in ('=', None) or l.op == 'v' and l.args[1] not in ('array', 'noalias'):
            continue
        ml = poly(g.N(v), X.all)
        old = {m: c for m, c in ml.items() if any(a.op == 'init' and a.args[0].op == 'f' and a.args[0].args[1] == 'beta'
                                                  for a in atoms(m))}
        new = {m: c for m, c in ml.items() if m not in old}
        wrong = {x for m in ml for x in atoms(m) & X.all} - {p}
        if wrong:
            X.bad(n, 'beta_weight', 'does not weight the topics: %s is used there' % ', '.join(pname(x) for x in wrong))
            continue
        so = {frozenset((k, e) for k, e in m if k is p): c for m, c in old.items()}
        if not old:
            R.unsure('%s: beta update %s' % (X.where, show(v, 4)))
            continue
        if so == {frozenset([(p, 1)]): 1}:
            sn = {frozenset((k, e) for k, e in m if k is p): c for m, c in new.items()}
            if sn == {frozenset(): 1, frozenset([(p, 1)]): -1}:
                X.ok('beta_weight', 'the weight of the previous topics, and one minus it that of the new ones')
            else:
                X.bad(n, 'beta_weight', 'and the weight of the new topics do not add up to one')
        elif so == {frozenset(): 1, frozenset([(p, 1)]): -1}:
            X.bad(n, 'beta_weight', 'weights the new topics instead of the previous ones')
        else:
            X.bad(n, 'beta_weight', 'is not the weight of the previous topics: %s' % show(v, 4))
    # eta' = eta + momentum * velocity - learning_rate * gradient
    mo, lr = P['momentum'], P['learning_rate']
    for n, l, v in model_writes(g, 'eta'):
        if n.op.how not in ('=', '+=', '-='):
            continue
        sign = -1 if n.op.how == '-=' else 1
        vn = g.N(v)
        if not mentions(vn, {mo, lr}):
            # through a member updated just before
            R.unsure('%s: eta update %s' % (X.where, show(v, 4)))
            continue
        for m, c in poly(vn, X.all).items():
            A = atoms(m)
            fs = {a: field_atom(g, M, a) for a in A}
            if any(is_eta(g, a) for a in A) and not (A & X.all):
                continue
            prm = A & X.all
            if prm == {mo}:
                if dict(m)[mo] != 1 or c * sign <= 0:
                    X.bad(n, 'momentum', 'does not scale the previous step (%s%s)' % ('' if c * sign > 0 else '-', show(v, 4)))
                elif any(deep(g, a, 'eta') for a in A - prm if field_atom(g, M, a) is None):
                    X.bad(n, 'momentum', 'scales something other than the previous step')
                else:
                    X.ok('momentum', 'the coefficient of the previous step')
            elif lr in prm:
                if dict(m)[lr] != 1:
                    X.bad(n, 'learning_rate', 'enters with power %s' % dict(m)[lr])
                elif c * sign >= 0:
                    X.bad(n, 'learning_rate', 'moves along the gradient instead of against it')
                elif prm - {lr, P['regularization']}:
                    X.bad(n, 'learning_rate', 'is multiplied with %s' % ', '.join(pname(x) for x in prm - {lr}))
                elif prm == {lr} and not any(is_grad(g, M, a) for a in A - prm):
                    X.bad(n, 'learning_rate', 'scales something other than the gradient: %s' % show(v, 4))
                else:
                    X.ok('learning_rate', 'the coefficient of the negative gradient')
            elif prm:
                x = sorted(prm, key=pname)[0]
                X.bad(n, X.roles[M.ps.index(x)], 'scales a term of the parameter update')
            elif not prm and any(field_atom(g, M, a) for a in A):
                X.bad(n, 'momentum', 'and the learning rate do not scale %s' % show(list(A)[0], 4))
    # mini-batch
    p = P['minibatch']
    k = 0
    for h in (g, gd):
        if h is None:
            continue
        for n in h.ops('branch'):
            w = mentions(n.op.val, X.all)
            if p in w and not (w - {p}):
                k += 1
        for n in h.ops('branch'):
            t = n.op.val
            if t is not None and t.op == 'op' and t.args[0] in ('<', '<=', '==', '!=') and (
                    mentions(t.args[1], X.all) | mentions(t.args[2], X.all)) - {p} and any(
                    field_atom(h, M, s) for s in subterms(t)) and not has_float(h, t):
                for x in mentions(t, X.all) - {p}:
                    X.bad(n, X.roles[M.ps.index(x)], 'decides when the mini-batch is complete')
    if k:
        X.ok('minibatch', 'the number of documents that triggers an update (%d tests)' % k)
    elif p in anywhere(g, X.all) | (anywhere(gd, X.all) if gd else set()):
        R.unsure('%s: minibatch not recognised in a test' % X.where)


def is_grad(g, M, a):
    """atom that carries the gradient: a member or local written through the gradient computation"""
    if a.op == 'phi' or a.op == 'upd' or a.op == 'M':
        return True
    return field_atom(g, M, a) is not None and a.op == 'phi'


@rule('C09', 'step parameters', 'the value a builder factory or setter receives for a role is the value found in that role of the '
      'composed program (factory, constructor, step methods): loop bound, convergence test, Bernoulli probability, engine seed, or the '
      'coefficient of the right term in the polynomial of the update')
def step_params(C, R):
    for sc in C.scalars:
        for table, chk in ((E_ROLES, check_e), (M_ROLES, check_m)):
            for q0, roles in sorted(table.items()):
                for q in (q0, q0.replace('get_', 'set_')):
                    fs = C.fns('LDABuilder::' + q, sc)
                    if not fs:
                        R.unsure('LDABuilder::%s not found' % q)
                    for f in fs:
                        if len(f['params']) != len(roles):
                            R.unsure('%s takes %d parameters' % (q, len(f['params'])))
                            continue
                        M = made(C, f)
                        if M.obj is None:
                            if q.startswith('set_') and not any(
                                    v.op == 'obj' for k, v in M.g.root.exit_state.items() if k.op == 'f' and k.args[0].op == 'mem' and
                                    k.args[0].args[0].op == 'this'):
                                R.violation(f['qname'], 'the step created from the given values is not stored in the builder',
                                            f['file'], f['line'], key='stored')
                            else:
                                R.unsure('%s does not create one step' % q)
                            continue
                        want = step_class(q)
                        if want and rec_of(M.cls).split('::')[-1] != want:
                            R.violation(f['qname'], 'creates a %s instead of a %s' % (rec_of(M.cls), want), f['file'], f['line'],
                                        key='class')
                            continue
                        chk(C, R, M, roles)


CLS = {'classic_e_step': 'UnsupervisedEStep', 'supervised_e_step': 'SupervisedEStep',
       'fast_supervised_e_step': 'FastSupervisedEStep', 'multinomial_supervised_e_step': 'MultinomialSupervisedEStep',
       'correspondence_supervised_e_step': 'CorrespondenceSupervisedEStep', 'semi_supervised_e_step': 'SemiSupervisedEStep',
       'classic_m_step': 'UnsupervisedMStep', 'supervised_m_step': 'SupervisedMStep',
       'fast_supervised_m_step': 'FastSupervisedMStep', 'semi_supervised_m_step': 'SemiSupervisedMStep',
       'fast_supervised_online_m_step': 'FastOnlineSupervisedMStep',
       'multinomial_supervised_m_step': 'MultinomialSupervisedMStep',
       'correspondence_supervised_m_step': 'CorrespondenceSupervisedMStep'}


def step_class(q):
    c = CLS.get(q[4:])
    return c


def this_fields(g):
    return {k: v for k, v in g.root.exit_state.items()
            if k.op == 'f' and k.args[0].op == 'mem' and k.args[0].args[0].op == 'this'}


def build_lda(C, R, setter, sc):
    """(parameter, graph of the conversion, LDA object, state) after builder.setter(parameter)"""
    f = C.fn1('LDABuilder::' + setter, sc)
    g = C.run(f)
    p = builder_params(f)[0]
    st = {k: v for k, v in g.root.exit_state.items() if k.op == 'f'}
    conv = [x for x in C.F.functions.values() if x['qname'].startswith(NS + 'LDABuilder::operator') and 'LDA' in x['qname'] and
            C.scalar_ok(x, sc)]
    if not conv:
        raise AnalysisBroken('conversion operator of the builder not found')
    this = [k.args[0].args[0] for k in st if k.args[0].op == 'mem' and k.args[0].args[0].op == 'this']
    h = C.run(conv[0], this=this[0] if this else None, state=st, tag='after:' + f['key'])
    objs = {}
    for n in h.ops('ret'):
        v = n.op.val
        if n.frame is h.root and isinstance(v, Term) and v.op == 'obj' and rec_of(v.args[2]) == NS + 'LDA':
            objs[v] = 1
    return f, p, h, (list(objs)[0] if len(objs) == 1 else None), {k: v for k, v in h.root.exit_state.items() if k.op == 'f'}, conv[0]


@rule('C09', 'iterations and workers', 'the iteration count given to the builder is the number of passes of fit, the worker count the '
      'number of threads created')
def counts(C, R):
    for sc in C.scalars:
        for setter in ('set_iterations', 'set_workers'):
            f, p, h, obj, st, conv = build_lda(C, R, setter, sc)
            if obj is None:
                R.unsure('%s: the model object is not recognised' % setter)
                continue
            if not any(p in mentions(v, {p}) for k, v in st.items() if root(k).args[0] is obj):
                # nothing of the LDA object holds the value
                if any(k.args[0].op == 'mem' and k.args[0].args[0].op == 'this' and p in mentions(v, {p}) for k, v in
                       [(k, v) for k, v in st.items()]) or True:
                    R.violation(conv['qname'], 'the value given to %s does not reach the model' % setter, conv['file'], conv['line'],
                                key=setter)
                continue
            for k, v in sorted(st.items(), key=lambda kv: show(kv[0])):
                if root(k).args[0] is not obj or p not in mentions(v, {p}):
                    continue
                w = v.args[0] if v.op == 'sized' and v.args else v
                for _ in range(3):
                    if isinstance(w, Term) and w.op == 'op' and w.args[0] == 'max' and len(w.args) == 3:
                        w = next((a for a, b in ((w.args[1], w.args[2]), (w.args[2], w.args[1]))
                                  if b.op == 'const' and b.args[0] in (0, 1)), None) or w
                if w is p:
                    R.ok('%s: the model holds the value given' % setter)
                elif isinstance(w, Term) and w.op == 'op' and (
                        w.args[0] in ('min', 'max') and p in w.args or w.args[0] in ('+', '-', '*', '/', '%')):
                    R.violation(f['qname'], 'the model is given %s instead of the value given to %s' % (show(w, 4), setter), f['file'],
                                f['line'], key=setter + '|value')
                else:
                    R.unsure('%s: the model holds %s' % (setter, show(v, 4)))
            fits = [x for x in C.fns('LDA::fit', sc)] if setter == 'set_iterations' else [x for x in C.fns('LDA::partial_fit', sc)]
            for x in fits:
                g = C.run(x, this=obj, state=dict(st), tag='built:' + setter)
                if setter == 'set_iterations':
                    ls = []
                    for l, t in loops_with_bounds(g):
                        if t.get('trips') is None or l.fr is not g.root and not any(
                                l.fr is fr for fr in g.frames()):
                            continue
                        if any('partial_fit' in (n.op.name or '') and any(e is l for e in g.enclosing_loops(g.nodes.index(n)))
                               for n in g.ops('call')):
                            ls.append((l, t))
                    for l, t in ls:
                        if t['trips'] == ({p: 1}, 0):
                            R.ok('%s: %s passes' % (fname(x), show(p)))
                        elif p not in mentions(t['bound'], {p}) and p not in mentions(t['init'], {p}):
                            R.at(head_op(g, l), 'the number of passes is %s, not the iteration count given to the builder' %
                                 show_lin(t['trips']), key='fit')
                        else:
                            R.unsure('passes of fit: %s' % show_lin(t['trips']))
                    if not ls and not any('partial_fit' in (n.op.name or '') for n in g.ops('call')):
                        R.unsure('%s: no pass recognised' % fname(x))
                else:
                    sp = list(g.ops('spawn'))
                    for n in sp:
                        ok = None
                        for l in g.enclosing_loops(g.nodes.index(n)):
                            if l is None:
                                continue
                            for t in l.tests():
                                if t.get('trips') is None:
                                    continue
                                w = [k for k in list(t['trips'][0]) if p in mentions(k, {p})] or \
                                    [1 for k in subterms(t['bound']) if k is p]
                                ok = bool(w) or bool(ok)
                                if not w and not any(k.op in ('phi',) for k in t['trips'][0]):
                                    ok = ok or False
                        if ok:
                            R.ok('%s creates as many threads as workers' % fname(x))
                        elif ok is False:
                            R.unsure('%s: thread count not recognised' % fname(x))


@rule('C09', 'initialization sizes', 'the topic, word and class counts given to the initializers are the extents of the parameter '
      'matrices, the topic prior is one over the topics, and the random state seeds the generator')
def inits(C, R):
    for sc in C.scalars:
        for q, roles in (('initialize_topics_random', ['words', 'topics', 'seed']),
                         ('initialize_topics_seeded', ['corpus', 'topics', 'documents', 'seed'])):
            for f in C.fns('LDABuilder::' + q, sc):
                if len(f['params']) != len(roles):
                    continue
                g = C.run(f)
                P = dict(zip(roles, builder_params(f)))
                al = set(P.values())
                N = g.N

                def fin(member):
                    return [v for k, v in g.root.exit_state.items() if k.op == 'f' and k.args[1] == member and
                            rec_of(str(k.args[2] or '')).startswith(NS + 'parameters')] or \
                           [v for k, v in g.root.exit_state.items() if k.op == 'f' and k.args[1] == member]
                for member, dim, want in (('beta', 'rows', 'topics'), ('beta', 'cols', 'words'), ('alpha', 'rows', 'topics')):
                    for v in fin(member):
                        d = N(T('E', dim, v))
                        if v.op == 'S' and len(v.args) > 2 and dim == 'rows':
                            d = N(v.args[2])
                        if want not in P:
                            continue
                        if d is P[want]:
                            R.ok('%s: %s.%s() is %s' % (fname(f), member, dim, want))
                        elif mentions(d, al) - {P[want]} and P[want] not in mentions(d, al) or d.op == 'const':
                            R.violation(f['qname'], '%s has %s %s, not the given number of %s' % (member, show(d, 4), dim, want),
                                        f['file'], f['line'], key=member + dim)
                        else:
                            R.unsure('%s: %s.%s() = %s' % (fname(f), member, dim, show(d, 4)))
                for v in fin('alpha'):
                    if v.op == 'S' and v.args[1] == 'Constant':
                        c = poly(N(v.args[-1]), al)
                        if c == {frozenset([(P['topics'], -1)]): 1}:
                            R.ok('%s: prior is 1/topics' % fname(f))
                        else:
                            R.violation(f['qname'], 'the topic prior is %s, not one over the number of topics' % show(v.args[-1], 4),
                                        f['file'], f['line'], key='prior')
                for n, t in seeds(g):
                    if n.frame.fn['qname'].startswith(NS + 'corpus::'):
                        continue
                    if t is P['seed']:
                        R.ok('%s: generator seeded with the random state' % fname(f))
                    elif P['seed'] not in mentions(t, al):
                        R.at(n, 'the generator is seeded with %s, not with the random state' % show(t, 4), key='seed')
                if 'documents' in P:
                    inner = [t for l, t in loops_with_bounds(g) if t.get('trips') is not None]
                    ok = any(t['trips'] == ({P['documents']: 1}, 0) for t in inner)
                    if ok:
                        R.ok('%s: that many documents per topic' % fname(f))
                    elif [t for t in inner if set(t['trips'][0]) == {P['documents']}] and len(
                            [1 for n in g.ops('call') if (n.op.name or '').endswith('_distribution::operator()')]) == 1:
                        t, = [t for t in inner if set(t['trips'][0]) == {P['documents']}][:1]
                        R.violation(f['qname'], '%s documents are drawn per topic, not the number given' % show_lin(t['trips']), f['file'],
                                    f['line'], key='documents')
                    elif P['documents'] not in anywhere(g, al):
                        R.violation(f['qname'], 'the number of documents per topic is ignored', f['file'], f['line'], key='documents')
                    else:
                        R.unsure('%s: documents per topic not recognised' % fname(f))
        for q in ('initialize_eta_zeros', 'initialize_eta_uniform'):
            for f in C.fns('LDABuilder::' + q, sc):
                g = C.run(f)
                p = builder_params(f)[0]
                for k, v in g.root.exit_state.items():
                    if k.op == 'f' and k.args[1] == 'eta':
                        r, c = g.N(T('E', 'rows', v)), g.N(T('E', 'cols', v))
                        if c is p and p not in mentions(r, {p}):
                            R.ok('%s: one column per class' % fname(f))
                        elif r is p or p not in mentions(c, {p}) and c.op == 'const':
                            R.violation(f['qname'], 'the supervised parameters have %s columns, not one per class' % show(c, 4),
                                        f['file'], f['line'], key='columns')
                        if v.op == 'S':
                            val = v.args[-1] if v.args[1] == 'Constant' else const(0)
                            want = {frozenset([(p, -1)]): 1} if q.endswith('uniform') else {}
                            got = poly(g.N(val), {p})
                            if got == want:
                                R.ok('%s: initial value %s' % (fname(f), show(val, 3)))
                            else:
                                R.violation(f['qname'], 'the supervised parameters start as %s' % show(val, 4), f['file'], f['line'],
                                            key='value')
        for q in ('initialize_topics_from_model', 'initialize_eta_from_model'):
            for f in C.fns('LDABuilder::' + q, sc):
                g = C.run(f)
                p = builder_params(f)[0]
                want = ('alpha', 'beta') if 'topics' in q else ('eta',)
                for m in want:
                    vs = [v for k, v in g.root.exit_state.items() if k.op == 'f' and k.args[1] == m and root(k).args[0] is not p]
                    if not vs:
                        R.violation(f['qname'], '%s is not taken from the given model' % m, f['file'], f['line'], key=m)
                    for v in vs:
                        if v.op == 'init' and v.args[0].op == 'f' and root(v.args[0]) is mem(p):
                            if v.args[0].args[1] == m:
                                R.ok('%s: %s of the given model' % (fname(f), m))
                            else:
                                R.violation(f['qname'], '%s is set to %s of the given model' % (m, v.args[0].args[1]), f['file'],
                                            f['line'], key=m)
                        elif p not in mentions(v, {p}):
                            R.violation(f['qname'], '%s is set to %s' % (m, show(v, 4)), f['file'], f['line'], key=m)
                        else:
                            R.unsure('%s: %s is %s' % (fname(f), m, show(v, 4)))


# -- C11 -----------------------------------------------------------------------

E_SET = {k.replace('get_', 'set_'): k != 'get_classic_e_step' for k in list(E_ROLES) + ['get_semi_supervised_e_step']}
M_SET = {k.replace('get_', 'set_'): True for k in M_ROLES}
M_SET['set_classic_m_step'] = False


def conv_fn(C, sc):
    r = [x for x in C.F.functions.values() if x['qname'].startswith(NS + 'LDABuilder::operator') and 'LDA' in x['qname'] and
         C.scalar_ok(x, sc)]
    if not r:
        raise AnalysisBroken('conversion operator of the builder not found')
    return r[0]


def nz_facts(g, n, member):
    """is `member` known to have rows at node n: True/False"""
    for f in g.facts_at(n):
        f = g.N(f)
        if f.op == 'op' and len(f.args) == 3 and f.args[0] in ('!=', '<', '<='):
            o, a, b = f.args
            for x, y, fl in ((a, b, False), (b, a, True)):
                if x.op == 'E' and x.args[0] in ('rows', 'size', 'cols') and has_model(x, member) and y.op == 'const':
                    c = y.args[0]
                    if o == '!=' and c == 0:
                        return True
                    if fl and (o == '<' and c >= 0 or o == '<=' and c >= 1):
                        return True
                    if not fl and False:
                        return True
    return False


def member_state(g, this):
    """members of the builder only; what hangs off pointers is unknown again"""
    return {k: v for k, v in g.root.exit_state.items() if k.op == 'f' and k.args[0].op == 'mem' and k.args[0].args[0] is this}


@rule('C11', 'conversion guards', 'after every sequence of two step setters (any pair, any order, from the state the constructor leaves) each '
      'normal return of the conversion is reached only with initialized topics and, if the last expectation or maximization step set is '
      'supervised, with initialized supervised parameters; otherwise it does not ask for them')
def conversion(C, R):
    for sc in C.scalars:
        conv = conv_fn(C, sc)
        ctor = [f for f in C.fns('LDABuilder::LDABuilder', sc) if not f['params']]
        if not ctor:
            raise AnalysisBroken('builder constructor not found')
        g0 = C.run(ctor[0])
        this = g0.root.this if hasattr(g0.root, 'this') else None
        if this is None:
            raise AnalysisBroken('no this')
        base = member_state(g0, this)
        setters = [(q, f, 'e', r) for q, r in sorted(E_SET.items()) for f in C.fns('LDABuilder::' + q, sc)] + \
                  [(q, f, 'm', r) for q, r in sorted(M_SET.items()) for f in C.fns('LDABuilder::' + q, sc)]
        if len(setters) < 13:
            R.unsure('only %d step setters found' % len(setters))

        def apply(st, tag, f):
            g = C.run(f, this=this, state=dict(st), tag=tag + '>' + f['key'])
            r = dict(st)
            r.update(member_state(g, this))
            return r

        def judge(st, tag, ereq, mreq, names):
            h = C.run(conv, this=this, state=dict(st), tag=tag)
            live = h.live(exc=False)
            rets = [i for i, n in enumerate(h.nodes) if n.kind == 'op' and n.op.kind == 'ret' and n.frame is h.root and i in live]
            if not rets:
                R.violation(conv['qname'], 'after %s the conversion never succeeds' % names, conv['file'], conv['line'],
                            key='never|' + names)
                return
            for i in rets:
                if not nz_facts(h, i, 'beta'):
                    R.at(h.nodes[i], 'after %s a model is created without checking that the topics were initialized' % names,
                         key='beta')
                    return
                e = nz_facts(h, i, 'eta')
                if (ereq or mreq) and not e:
                    R.at(h.nodes[i], 'after %s a model is created although the %s step is supervised and the supervised parameters '
                         'may be missing' % (names, ' and '.join([x for x, y in (('expectation', ereq), ('maximization', mreq)) if y])),
                         key='eta|' + names)
                    return
            if not (ereq or mreq) and all(nz_facts(h, i, 'eta') for i in rets):
                R.at(h.nodes[rets[0]], 'after %s the conversion insists on supervised parameters no step needs' % names,
                     key='strict|' + names)
                return
            R.ok('after %s: guarded' % names)
        judge(base, 'conv0', False, False, 'construction')
        one = {}
        for q, f, kind, req in setters:
            st = apply(base, 'c0', f)
            one[f['key']] = st
            judge(st, 'conv1:' + f['key'], kind == 'e' and req, kind == 'm' and req, q)
        for q, f, kind, req in setters:
            for q2, f2, kind2, req2 in setters:
                ereq = req2 if kind2 == 'e' else (req if kind == 'e' else False)
                mreq = req2 if kind2 == 'm' else (req if kind == 'm' else False)
                st = apply(one[f['key']], 'c1:' + f['key'], f2)
                sig = 'conv2:' + repr(sorted((show(k), show(v, 3)) for k, v in st.items() if v.op == 'const'))
                judge(st, 'conv2:' + f['key'] + f2['key'], ereq, mreq, q + ', ' + q2)
        # other builder methods leave the requirement alone
        for q in ('set_iterations', 'set_workers', 'initialize_topics_random', 'initialize_topics_seeded', 'initialize_eta_zeros',
                  'initialize_eta_uniform', 'initialize_topics_from_model', 'initialize_eta_from_model'):
            for f2 in C.fns('LDABuilder::' + q, sc):
                for q1, f1, kind, req in setters:
                    if not req or q1 not in ('set_supervised_e_step', 'set_supervised_m_step'):
                        continue
                    st = apply(one[f1['key']], 'c1:' + f1['key'], f2)
                    judge(st, 'conv3:' + f1['key'] + f2['key'], kind == 'e', kind == 'm', q1 + ', ' + q)


@rule('C11', 'supervised parameters after topics', 'initializing the supervised parameters by class count returns, or stores anything, only '
      'when the topics are known to be initialized, and does so whenever they are')
def eta_after(C, R):
    for sc in C.scalars:
        for q in ('initialize_eta_zeros', 'initialize_eta_uniform'):
            for f in C.fns('LDABuilder::' + q, sc):
                g = C.run(f)
                live = g.live(exc=False)
                rets = [i for i, n in enumerate(g.nodes) if n.kind == 'op' and n.op.kind == 'ret' and n.frame is g.root and i in live]
                if not rets:
                    R.violation(f['qname'], 'never returns', f['file'], f['line'], key='returns')
                for i in rets:
                    if nz_facts(g, i, 'beta'):
                        R.ok('%s returns only with topics' % fname(f))
                    elif nz_facts(g, i, 'alpha'):
                        R.unsure('%s relies on the prior being initialized with the topics' % fname(f))
                    else:
                        R.at(g.nodes[i], 'returns normally although the topics may not have been initialized', key='guard')
