"""Recognition of the worker pool protocol by role: which function runs on the
workers, which containers carry jobs and results.  No private name is used."""
from common import *

LIST_TYPES = ('std::list', 'std::deque', 'std::vector', 'std::queue')


def per_iteration(g, l, marks, test=None, start=None):
    """possible numbers of marked nodes on one trip around loop l (capped at 2), exits excluded"""
    head = head_node(g, l)
    if start is None:
        # start on the continue edge of the test
        res = set()
        if test is not None:
            b = test['block']
            last = last_node(g, l.fr, b)
            for v, f, k in g.succ[last]:
                nd = g.nodes[v]
                if nd.frame is l.fr and nd.block in l.body:
                    if v == head:
                        res.add(0)
                    else:
                        res |= g.path_counts(marks, v, head, restrict=None)
            return res
        start = head
    return g.path_counts(marks, start, head)


def head_node(g, l):
    for n in g.nodes:
        if n.kind == 'block' and n.frame is l.fr and n.block == l.head:
            return n.i


def last_node(g, fr, b):
    items = fr.blocks[b][0]
    if not items:
        for n in g.nodes:
            if n.kind == 'block' and n.frame is fr and n.block == b:
                return n.i
    o = items[-1]
    if o.child is not None:
        for n in g.nodes:
            if n.kind == 'post' and n.op is o:
                return n.i
    return g.opnode[o]


def pool_throws(o):
    """operations of the calling thread that run code supplied by the user or by an algorithm step"""
    if o.kind == 'throw':
        return True
    if o.kind == 'call' and o.child is None:
        nm = o.name or ''
        if nm.startswith(NS) and short(nm) in ('on_event', 'doc_m_step', 'm_step', 'e_step', 'dispatch', 'at', 'shuffle'):
            return True
        if nm == 'std::function::operator()':
            return True
    return False


class Worker(object):
    def __init__(self, P, fn, g):
        self.P = P
        self.fn = fn
        self.g = g
        self.doc_calls = [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and
                          (n.op.name or '').endswith('EStepInterface::doc_e_step')]
        rs = {g.N(n.op.res): n for n in self.doc_calls}
        self.result_pushes = []
        for n in g.nodes:
            if n.kind == 'op' and is_container_call(n.op, PUSH) and n.op.val is not None:
                v = g.N(n.op.val)
                if any(r in subterms(v) for r in rs) or self._vp_type(n):
                    self.result_pushes.append(n)

    def _vp_type(self, n):
        """container of (Parameters, index) pairs"""
        nd = n.op.node
        ot = n.frame.fn['nodes'].get(nd.get('o')) if nd else None
        t = (ot or {}).get('t') or ''
        return 'parameters::Parameters' in t

    def doc_source(self, doc):
        """doc = corpus->at(index): (elem, (elem,corpus), (elem,index), queue value, position)"""
        if doc.op == 'res':
            o = self.g.I.resinfo.get(doc)
            if o is None or not (o.name or '').endswith('Corpus::at'):
                return None
            cp = self.g.N(o.obj)
            cp = cp.args[0] if cp.op == 'mem' else cp
            ix = self.g.N(o.args[0])
        elif doc.op == 'call' and str(doc.args[0]).endswith('Corpus::at'):
            cp = objid(doc.args[1])
            cp = cp.args[0] if cp.op == 'mem' else cp
            ix = doc.args[2]
        else:
            return None
        a = self.P.split(cp)
        b = self.P.split(ix)
        if a is None or b is None:
            return None
        elem = a[0]
        if elem.op == 'E' and elem.args[0] == 'at':
            return elem, (a[0], cp), (b[0], ix), elem.args[1], elem.args[2]
        return None

    def altered_index(self, doc):
        """the index given to Corpus::at when it is computed from the queued one instead of being it"""
        o = self.g.I.resinfo.get(doc) if doc.op == 'res' else None
        if o is not None and (o.name or '').endswith('Corpus::at'):
            ix = self.g.N(o.args[0])
        elif doc.op == 'call' and str(doc.args[0]).endswith('Corpus::at'):
            ix = doc.args[2]
        else:
            return None
        if ix.op != 'op' or self.P.split(ix) is not None:
            return None
        if ix.args[0] == '%' and not (ix.args[2].op == 'op' and ix.args[2].args[0] in ('+', '-')) and ix.args[2].op != 'const':
            return None     # modulo the number of documents
        return ix if any(self.P.split(x) is not None for x in subterms(ix) if x is not ix and isinstance(x, Term)) else None

    def head_node(self, l):
        return head_node(self.g, l)

    def leaving(self):
        """edges through which the outermost job loop is left"""
        g = self.g
        out = []
        for d in self.doc_calls:
            ls = [l for l in g.enclosing_loops(d.i) if l is not None]
            if not ls:
                continue
            l = ls[-1]
            for b, i, s, f in l.exits():
                u = last_node(g, l.fr, b)
                for v, ff, k in g.succ[u]:
                    if g.nodes[v].frame is l.fr and g.nodes[v].block == s and k != 'x':
                        out.append((u, v, ff))
        return list(dict.fromkeys(out))

    def queue_values(self, q):
        vals = set()
        for n in self.g.nodes:
            for x in (n.op.val, n.op.res, n.op.obj) if n.op is not None else ():
                pass
        for t in list(self.g.facts().values()):
            for f in t:
                for s in subterms(self.g.N(f)):
                    if s.op in ('phi', 'init', 'cupd', 'eff', 'list') and self.P.same(objid(s), q):
                        vals.add(s)
        return vals


class Pool(object):
    def __init__(self, C, fn):
        self.C = C
        self.fn = fn
        self.name = fname(fn)
        self.g = C.run(fn, throws=pool_throws, tag='pool')
        g = self.g
        self.spawns = [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'spawn' and n.i in self.live_nodes()]
        self.workers = []
        seen = set()
        for s in self.spawns:
            for a in s.op.args:
                a = g.N(a)
                if a.op in ('bind', 'lam', 'fn') and a not in seen:
                    seen.add(a)
                    w = self.worker(a, s)
                    if w is not None:
                        self.workers.append(w)
                    break
        self._qi = self._qo = -1

    def live_nodes(self):
        if not hasattr(self, '_live'):
            self._live = self.g.live(True)
        return self._live

    def worker(self, f, s):
        fns = self.C.F.functions
        rest = list(s.op.args[1:])
        while f.op == 'bind':
            rest = list(f.args[1:]) + rest
            f = f.args[0]
        I = Interp(self.C.F)
        if f.op == 'fn':
            fn = fns.get(f.args[0])
            if fn is None:
                return None
            this = None
            if fn.get('cls') and not fn.get('static') and rest:
                this = rest[0]
                rest = rest[1:]
            fr = I.run(fn['key'], this=this, args=[r for r in rest])
        elif f.op == 'lam':
            fn = fns.get(f.args[0])
            if fn is None:
                return None
            fr = I.run_lambda(f)
        else:
            return None
        self.C.entries.add(fn['key'])
        return Worker(self, fn, Graph(I, fr))

    # -- identity of locations between graphs
    @staticmethod
    def ident(l):
        """field path of a location, independent of the graph"""
        path = []
        while l is not None and l.op in ('f', 'v'):
            if l.op == 'f':
                path.append((l.args[2], l.args[1]))
            l = l.args[0]
        if path:
            return tuple(path[:1])
        if l.op == 'mem' and l.args[0].op in ('init',):
            return ('*',) + (Pool.ident(l.args[0].args[0]),)
        return l

    def same(self, a, b):
        if a is None or b is None:
            return False
        return a is b or self.ident(a) == self.ident(b)

    def split(self, t):
        """t = get(elem, k) -> (elem, k)"""
        if t.op == 'E' and t.args[0] == 'get' and len(t.args) == 3:
            return t.args[1], t.args[2]
        if t.op == 'fld' and t.args[1] in ('first', 'second'):
            return t.args[0], const(0 if t.args[1] == 'first' else 1)
        return None

    def queue_in(self):
        """(location, corpus component, index component)"""
        if self._qi != -1:
            return self._qi
        self._qi = None
        for w in self.workers:
            for d in w.doc_calls:
                src = w.doc_source(w.g.N(d.op.args[0]))
                if src is None:
                    continue
                elem, ci, ii, qv, pos = src
                a, b = self.split(ci[1]), self.split(ii[1])
                q = objid(qv)
                if is_loc(q) and a[1].op == 'const' and b[1].op == 'const':
                    self._qi = (q, a[1].args[0], b[1].args[0])
                    return self._qi
        return None

    def queue_out(self):
        """(location, result component, index component)"""
        if self._qo != -1:
            return self._qo
        self._qo = None
        for w in self.workers:
            rs = {w.g.N(d.op.res) for d in w.doc_calls}
            for n in w.result_pushes:
                v = w.g.N(n.op.val)
                if v.op != 'tuple' or len(v.args) != 2:
                    continue
                r = [i for i, a in enumerate(v.args) if a in rs]
                if len(r) == 1:
                    self._qo = (n.op.obj, r[0], 1 - r[0])
                    return self._qo
                # by type: the shared_ptr component
                self._qo = (n.op.obj, 0, 1)
        return self._qo

    def main_pushes(self, q):
        return [n for n in self.g.nodes if n.kind == 'op' and is_container_call(n.op, PUSH) and
                self.same(n.op.obj, q) and n.i in self.live_nodes() and self.g.opnode.get(n.op) == n.i]

    def main_pops(self, q):
        return [n for n in self.g.nodes if n.kind == 'op' and
                is_container_call(n.op, ('pop_front', 'pop_back', 'erase', 'pop')) and
                self.same(n.op.obj, q) and n.i in self.live_nodes() and self.g.opnode.get(n.op) == n.i]

    def touches(self, o, q):
        return (o.loc is not None and self.same(store_loc(o.loc), q)) or (
            o.obj is not None and isinstance(o.obj, Term) and is_loc(o.obj) and self.same(o.obj, q))

    def mentions(self, f, v):
        return v in subterms(f)

    def foreign(self, f, q):
        """fact about memory other than the queue and plain locals"""
        for s in subterms(f):
            if s.op == 'init' and not self.same(s.args[0], q) and s.args[0].op in ('f', 'mem', 'glob'):
                if s.args[0].op == 'mem' and s.args[0].args[0].op == 'param':
                    continue
                return True
            if s.op in ('phi',) and s.args[2].op in ('f', 'glob') and not self.same(s.args[2], q):
                return True
            if s.op in ('res',):
                return True
            if s.op == 'call' and s.args[0] not in ('size',):
                return True
        return False

    def queued_corpus(self):
        qs = self.queue_in()
        if qs is None:
            return None
        q, c, i = qs
        for n in self.main_pushes(q):
            v = self.g.N(n.op.val)
            if v.op == 'tuple' and len(v.args) > c:
                return v.args[c]
        return None

    @staticmethod
    def ptr(t):
        return t

    def size_of_corpus(self, corpus):
        """term that equals corpus->size()"""
        g = self.g
        corpus = g.N(corpus)
        for n in g.nodes:
            if n.kind == 'op' and n.op.kind == 'call' and (n.op.name or '').endswith('Corpus::size'):
                ob = n.op.obj
                ob = g.N(ob)
                if ob.op == 'mem':
                    ob = ob.args[0]
                if ob is corpus:
                    return g.N(n.op.res)
        return None

    def elem_of(self, t, pos):
        s = self.split(t)
        if s is not None and s[1] == const(pos):
            return s[0]
        return None

    def elem_any(self, t):
        for s in subterms(t):
            r = self.split(s)
            if r is not None:
                return r[0]
        return None

    def popped_same(self, elem, p, old):
        sh = short(p.op.name)
        if elem.op == 'E' and elem.args[0] == 'at':
            qv, pos = elem.args[1], elem.args[2]
            if sh == 'pop_front' and pos is not const(0):
                return False
            if sh == 'pop_back' and pos is const(0):
                return False
            if old is not None and qv is not old:
                return False
        return True

    def uses(self):
        """(node, kind, result term, index term, corpus term or None)"""
        g = self.g
        out = []
        for n in g.nodes:
            if n.kind != 'op' or n.i not in self.live_nodes():
                continue
            o = n.op
            if o.kind == 'call' and (o.name or '').endswith('MStepInterface::doc_m_step'):
                doc = g.N(o.args[0])
                res = g.N(o.args[1])
                cp = ix = None
                if doc.op == 'call' and str(doc.args[0]).endswith('Corpus::at'):
                    cp, ix = doc.args[1], doc.args[2]
                elif doc.op == 'res':
                    oo = g.I.resinfo.get(doc)
                    if oo is not None and (oo.name or '').endswith('Corpus::at'):
                        cp = g.N(oo.obj)
                        ix = g.N(oo.args[0])
                if ix is None:
                    continue
                if cp.op == 'mem':
                    cp = cp.args[0]
                else:
                    i = objid(cp)
                    cp = i.args[0] if i.op == 'mem' else cp
                out.append((n, 'm', res, ix, cp))
            elif o.kind == 'write' and o.loc is not None and o.loc.op == 'v' and o.loc.args[1] in ('col', 'row'):
                val = g.N(o.val)
                # reads through the result pointer
                for s in subterms(val):
                    if s.op == 'f' and s.args[1] == 'gamma':
                        b = s.args[0]
                        if b.op == 'mem':
                            out.append((n, 'col', g.N(b.args[0]), g.N(o.loc.args[2]), None))
                            break
        return out

    def shuffles(self):
        g = self.g
        return [n for n in g.nodes if n.kind == 'op' and n.op.kind == 'call' and
                ((n.op.name or '').endswith('::shuffle') or (n.op.name or '') == 'std::shuffle' or
                 (n.op.name or '') == 'std::random_shuffle') and n.i in self.live_nodes()]

    any_shuffle = shuffles

    def shuffles_between(self, use):
        g = self.g
        q = self.queue_in()
        out = []
        if q is None:
            return out
        for s in self.shuffles():
            for p in self.main_pushes(q[0]):
                if s.i in g.after(p.i, exc=False) and use.i in g.after(s.i, exc=False):
                    # a shuffle at the top of a later pass is separated by refilling
                    if use.i in g.after(s.i, [p.i], exc=False):
                        out.append(s)
        return out


_pools = {}


def pools(C):
    r = _pools.get(id(C))
    if r is not None:
        return r
    r = []
    for sc in C.scalars:
        fs = C.fns('LDA::partial_fit', sc, lambda f: any('Corpus' in (p['t'] or '') for p in f['params']))
        ft = C.fns('LDA::transform', sc)
        if not fs or not ft:
            raise AnalysisBroken('LDA::partial_fit / LDA::transform not found')
        for f in fs + ft:
            r.append(Pool(C, f))
    _pools[id(C)] = r
    return r


def join_sites(P):
    """[(node, loop or None, container loc or None)] of every std::thread::join in the pass"""
    out = []
    g = P.g
    for n in g.nodes:
        if n.kind == 'op' and n.op.kind == 'call' and (n.op.name or '') in ('std::thread::join', 'std::jthread::join'):
            l = None
            cont = None
            if n.op.obj is not None and n.op.obj.op == 'v' and n.op.obj.args[1] == 'at':
                cont = store_loc(n.op.obj)
                for x in g.loops(n.frame):
                    if n.block in x.body:
                        l = x
                        break
            out.append((n, l, cont))
    return out


def join_gates(P, R=None):
    """nodes after which every started worker has been joined"""
    g = P.g
    gates = set()
    seen = set()
    for n, l, cont in join_sites(P):
        if l is None:
            if cont is None:
                gates.add(n.i)
            elif R is not None:
                R.unsure('%s: join of a single element' % P.name)
                gates.add(n.i)
            continue
        key = (l.fr.id, l.head)
        bad = None
        tests = l.tests()
        cts = [t for t in tests if t['trips'] is not None]
        idx = g.N(n.op.obj.args[2])
        if len(tests) > 1:
            bad = 'the loop that joins the workers can be left before all of them are joined'
        elif not cts:
            if R is not None and key not in seen:
                R.unsure('%s: join loop not recognised' % P.name)
        else:
            t = cts[0]
            want = None
            trips = t['trips']
            szs = [k for k in trips[0] if k.op == 'E' and k.args[0] == 'size']
            cv = l.covers(idx, t)
            if len(trips[0]) == 1 and szs and cv is not None:
                sz = szs[0]
                if trips[1] != 0:
                    bad = 'the join loop runs %s times' % show_lin(trips)
                else:
                    first = ({}, 0) if cv[0] == 'up' else ({sz: 1}, -1)
                    if cv[1] != first:
                        bad = 'the join loop starts at worker %s' % show_lin(cv[1])
                    elif not P.same(objid(sz.args[1]), cont):
                        bad = None
            cnt = set()
            joins = [x.i for x, ll, c in join_sites(P) if ll is not None and (ll.fr.id, ll.head) == key]

            def ok(u, v, f, k):
                if k == 'x':
                    return False
                if isinstance(f, Term):
                    ff = g.N(f)
                    if ff.op == 'op' and any(s.op == 'call' and 'std::thread' in str(s.args[0]) for s in subterms(ff)):
                        # skipping because this very thread is not joinable
                        return not (ff.args[0] == '!' or ff.args[0] == '==')
                return True
            # paths around the loop that skip the join
            for h in [x.i for x in g.nodes if x.kind == 'block' and x.frame is l.fr and x.block == l.head]:
                starts = [v for v, f, k in g.succ[h]]
                if h in g.reach([s for s in starts], set(joins), False, ok):
                    # reachable again without join
                    bad = bad or 'a worker can be skipped by the join loop'
        if bad:
            if R is not None and key not in seen:
                R.at(n, bad, key='join loop')
        else:
            gates.update(x.i for x in g.nodes if x.kind == 'block' and x.frame is l.fr and x.block == l.head)
            if R is not None and key not in seen:
                R.ok('%s: join loop at %s joins every worker' % (P.name, n.op.where))
        seen.add(key)
    return gates


def concurrent(P):
    """nodes of the calling thread that can execute while a worker is running"""
    g = P.g
    gates = join_gates(P)
    out = set()
    for s in P.spawns:
        out |= g.after(s.i, gates)
        out.add(s.i)
    return out
