"""Interprocedural control flow graph over the operations found by interp, with
the queries the rules are written in: reachability, must-facts, path counts,
loops and their trip counts, lock sets."""
from interp import Term, T, const, op2, neg, subterms, show, root, store_loc, is_loc, mem, addr


# --------------------------------------------------------------------------
# term normalisation


class Norm(object):
    """Replaces phis all of whose operands agree by the value they agree on."""

    def __init__(self, I):
        self.I = I
        self.memo = {}
        self.rep = {}
        self._solve()

    def _solve(self):
        phis = self.I.phis
        rep = self.rep
        changed = True
        # optimistic: union strongly connected groups of phis with one outside operand
        while changed:
            changed = False
            todo = [p for p in phis if p not in rep]
            # build graph over remaining phis
            idx = {}
            g = {}
            for p in todo:
                g[p] = [self._r(v) for v in phis[p].values()]
            # tarjan (iterative)
            index, low, onst, st, out = {}, {}, set(), [], []
            cnt = [0]
            todoset = set(todo)
            for s in todo:
                if s in index:
                    continue
                work = [(s, iter([x for x in g[s] if x in todoset]))]
                index[s] = low[s] = cnt[0]
                cnt[0] += 1
                st.append(s)
                onst.add(s)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in index:
                            index[w] = low[w] = cnt[0]
                            cnt[0] += 1
                            st.append(w)
                            onst.add(w)
                            work.append((w, iter([x for x in g[w] if x in todoset])))
                            adv = True
                            break
                        elif w in onst:
                            low[v] = min(low[v], index[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
                    if low[v] == index[v]:
                        comp = []
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            comp.append(w)
                            if w is v:
                                break
                        out.append(comp)
            for comp in out:
                cs = set(comp)
                outer = set()
                for p in comp:
                    for x in g[p]:
                        if x not in cs:
                            outer.add(x)
                if len(outer) == 1:
                    o = outer.pop()
                    if any(q in subterms(o) for q in comp):
                        continue
                    for p in comp:
                        rep[p] = o
                    changed = True
                elif len(comp) > 1:
                    # inner components: remove the members that have outer operands and retry
                    changed |= self._inner(comp, g)
            if changed:
                self.memo = {}

    def _inner(self, comp, g):
        cs = set(comp)
        inner = [p for p in comp if all(x in cs for x in g[p])]
        ch = False
        iset = set(inner)
        # components of the inner subgraph, small graphs: fixpoint of union
        parent = {p: p for p in inner}

        def find(x):
            while parent[x] is not x:
                x = parent[x]
            return x
        for p in inner:
            ops = {x for x in g[p] if x is not p}
            if len(ops) == 1:
                o = ops.pop()
                if o not in subterms(p):
                    q = self.rep.get(o, o)
                    # avoid cycles
                    seen = set()
                    while q in self.rep and q not in seen:
                        seen.add(q)
                        q = self.rep[q]
                    if q is not p:
                        self.rep[p] = q
                        ch = True
        return ch

    def _r(self, t):
        seen = set()
        while t in self.rep and t not in seen:
            seen.add(t)
            t = self.rep[t]
        return t

    def __call__(self, t):
        if not isinstance(t, Term):
            return t
        m = self.memo.get(t)
        if m is not None:
            return m
        self.memo[t] = t        # cycle guard
        r = self._r(t)
        if r is not t:
            r = self(r)
        else:
            ch = False
            na = []
            for a in t.args:
                if isinstance(a, Term) and not (t.op == 'phi'):
                    b = self(a)
                elif isinstance(a, tuple):
                    b = self._tup(a)
                else:
                    b = a
                ch |= b is not a
                na.append(b)
            r = t
            if ch:
                r = self.rebuild(t, na)
        if r.op == 'E' and len(r.args) == 2 and r.args[0] in ('size', 'rows', 'cols') and r.args[1].op == 'phi':
            r = self.dimroot(r.args[1], r.args[0]) or r
        self.memo[t] = r
        return r

    def dimroot(self, p, which):
        """size of a container that is only changed element by element on the way"""
        seen, todo, leaves = set(), [p], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi' and x in self.I.phis:
                todo.extend(self._r(v) for v in self.I.phis[x].values())
                continue
            while x.op == 'upd':
                x = x.args[0]
            if x.op == 'phi' and x in self.I.phis:
                todo.append(x)
                continue
            leaves.add(x)
        if len(leaves) != 1:
            return None
        x = leaves.pop()
        if any(q in seen for q in subterms(x) if q.op == 'phi'):
            return None
        x = self(x)
        return self.I.size_of(x) if which == 'size' and x.op != 'E' else self.I.dims(x, which)

    def _tup(self, a):
        b = tuple(self(x) if isinstance(x, Term) else (self._tup(x) if isinstance(x, tuple) else x) for x in a)
        return a if all(x is y for x, y in zip(a, b)) else b

    def rebuild(self, t, na):
        if t.op == 'op' and len(na) == 3:
            return op2(na[0], na[1], na[2])
        if t.op == 'E' and t.args[0] in ('rows', 'cols', 'size') and len(na) == 2:
            v = na[1]
            r = self.I.dims(v, na[0])
            if na[0] == 'size' and r.op == 'E':
                return self.I.size_of(v)
            return r
        if t.op == 'E' and len(na) >= 2 and isinstance(na[1], Term):
            return self.I.view(na[1], na[0], tuple(na[2:]))
        if t.op == 'mem':
            return mem(na[0])
        if t.op == 'addr':
            return addr(na[0])
        return T(t.op, *na)


def lin(t):
    """linear normal form: ({term: coefficient}, constant)"""
    if t.op == 'const' and isinstance(t.args[0], (int, float)):
        return {}, t.args[0]
    if t.op == 'op' and len(t.args) == 3 and t.args[0] in ('+', '-'):
        a, ca = lin(t.args[1])
        b, cb = lin(t.args[2])
        s = 1 if t.args[0] == '+' else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
            if r[k] == 0:
                del r[k]
        return r, ca + s * cb
    if t.op == 'op' and t.args[0] == 'neg':
        a, c = lin(t.args[1])
        return {k: -v for k, v in a.items()}, -c
    if t.op == 'op' and t.args[0] == '*' and t.args[2].op == 'const' and isinstance(t.args[2].args[0], int):
        a, c = lin(t.args[1])
        k0 = t.args[2].args[0]
        return ({k: v * k0 for k, v in a.items()} if k0 else {}), c * k0
    return {t: 1}, 0


def lin_eq(a, b):
    return lin(a) == lin(b)


def lin_sub(a, b):
    x, cx = a
    y, cy = b
    r = dict(x)
    for k, v in y.items():
        r[k] = r.get(k, 0) - v
        if r[k] == 0:
            del r[k]
    return r, cx - cy


# --------------------------------------------------------------------------


class Node(object):
    __slots__ = ('i', 'op', 'frame', 'block', 'kind', 'ctx')

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.op)


MAY_THROW_PREFIX = ('std::function::operator()',)


class Graph(object):
    def __init__(self, I, frame, throws=None):
        """throws(op) -> True if the operation may leave by an exception"""
        self.I = I
        self.N = Norm(I)
        self.root = frame
        self.nodes = []
        self.succ = []
        self.pred = None
        self.throws = throws or (lambda o: False)
        self.opnode = {}
        self.exc = self.new('exc', None, frame, None)
        e, x = self.build(frame, self.exc)
        self.entry, self.exit = e, x
        self.pred = [[] for _ in self.nodes]
        for u, es in enumerate(self.succ):
            for v, f, k in es:
                self.pred[v].append((u, f, k))
        self._facts = None

    def new(self, kind, op, frame, block):
        n = Node()
        n.i = len(self.nodes)
        n.op = op
        n.frame = frame
        n.block = block
        n.kind = kind
        n.ctx = None
        self.nodes.append(n)
        self.succ.append([])
        return n.i

    def edge(self, u, v, fact=None, kind='n'):
        self.succ[u].append((v, fact, kind))

    def dtor_frames(self, fr):
        m = getattr(self, '_df', None)
        if m is None:
            m = self._df = {}
            for (pid, nid, key), f in self.I.frames.items():
                if isinstance(nid, tuple) and len(nid) == 3 and nid[0] == 'dtor':
                    m.setdefault(pid, {})[nid[1]] = f
        return m.get(fr.id, {})

    def unwind(self, fr, live, target, memo):
        """entry node of the destructors that run when an exception leaves fr with `live` guards"""
        df = self.dtor_frames(fr)
        for (vid, t, fid, nid) in (live or ()):
            f = df.get(vid)
            k = (vid, target)
            if k in memo:
                target = memo[k]
                continue
            n = self.new('unwind', None, fr, None)
            n_node = self.nodes[n]
            if f is not None and f.blocks:
                e, x = self.build(f, target, False)
                self.edge(n, e, None, 'x')
                self.edge(x, target, None, 'x')
            else:
                n_node.ctx = (vid, t)
                self.edge(n, target, None, 'x')
            memo[k] = n
            target = n
        return target

    def build(self, fr, exc, register=True):
        """returns (entry, exit)"""
        P = self.I.prep(fr.fn)
        memo = {}
        first = {}
        for b in fr.blocks:
            first[b] = self.new('block', None, fr, b)
        exitb = fr.fn['exit']
        ex = first.get(exitb)
        if ex is None:
            ex = self.new('noexit', None, fr, None)
        for b, (items, edges) in fr.blocks.items():
            cur = first[b]
            handlers = [first[h] for h in P['exc'].get(b, []) if h in first]
            catchall = bool(handlers)
            hx = exc
            if handlers:
                hx = self.new('handlers', None, fr, b)
                for h in handlers:
                    self.edge(hx, h, None, 'h')
                if not self.catch_all(fr, P, b):
                    self.edge(hx, self.unwind(fr, items[0].live if items else (), exc, memo), None, 'x')
            dead = False
            for o in items:
                n = self.new('op', o, fr, b)
                if register or o not in self.opnode:
                    self.opnode[o] = n
                self.edge(cur, n)
                ux = hx
                if not handlers and (o.kind == 'throw' or o.child is not None or self.throws(o)):
                    ux = self.unwind(fr, o.live, hx, memo)
                if o.kind == 'throw' or self.throws(o):
                    self.edge(n, ux, None, 'h' if handlers else 'x')
                elif handlers and o.child is None and o.kind in ('call', 'ecall'):
                    # anything called inside a try block may end up in its handlers
                    self.edge(n, hx, None, 'h')
                if o.child is not None:
                    ce, cx = self.build(o.child, ux, register)
                    self.edge(n, ce)
                    post = self.new('post', o, fr, b)
                    if o.kind == 'maycall':
                        self.edge(cx, n)
                        self.edge(n, post)
                    else:
                        self.edge(cx, post)
                    cur = post
                else:
                    cur = n
                if o.kind == 'throw':
                    dead = True
            if not dead:
                for s, f in edges:
                    if f == 'exc':
                        continue
                    if s in first:
                        self.edge(cur, first[s], f)
        return first.get(fr.fn['entry'], ex), ex

    def catch_all(self, fr, P, b):
        for h in P['exc'].get(b, []):
            n = fr.fn['nodes'].get(P['blocks'][h].get('label'))
            if n is not None and 'cvv' not in n and not n.get('ct'):
                return True
        return False

    # -- queries -------------------------------------------------------------
    def ops(self, *kinds, **kw):
        name = kw.get('name')
        for n in self.nodes:
            if n.kind == 'op' and (not kinds or n.op.kind in kinds):
                if name is None or (n.op.name or '') == name or (
                        name.startswith('*') and (n.op.name or '').endswith(name[1:])):
                    yield n

    def calls(self, suffix):
        return [n for n in self.nodes if n.kind == 'op' and n.op.kind in ('call', 'ecall', 'spawn') and
                (n.op.name or '').endswith(suffix)]

    def reach(self, starts, stop=(), exc=True, edge_ok=None):
        """nodes reachable from starts (inclusive) without entering `stop` nodes"""
        stop = set(stop)
        seen = set()
        st = [s for s in starts if s not in stop]
        seen.update(st)
        while st:
            u = st.pop()
            for v, f, k in self.succ[u]:
                if not exc and k == 'x':
                    continue
                if edge_ok is not None and not edge_ok(u, v, f, k):
                    continue
                if v in seen or v in stop:
                    continue
                seen.add(v)
                st.append(v)
        return seen

    def after(self, n, stop=(), exc=True):
        """nodes reachable strictly after n (n only if in a cycle)"""
        starts = [v for v, f, k in self.succ[n] if (exc or k != 'x')]
        return self.reach(starts, stop, exc)

    def live(self, exc=True):
        return self.reach([self.entry], (), exc)

    def dominated(self, n, by, exc=False):
        """every path from entry to n passes a node of `by`"""
        by = set(by)
        if n in by:
            return True
        return n not in self.reach([self.entry], by, exc)

    def must_pass(self, a, b, via, exc=False):
        """every path from (after) a to b passes a node of via"""
        r = self.after(a, via, exc)
        return b not in r

    def path_counts(self, marks, start=None, end=None, exc=False, restrict=None):
        """set of possible numbers (capped at 2) of marked nodes on paths start->end"""
        marks = set(marks)
        start = self.entry if start is None else start
        end = self.exit if end is None else end
        seen = set()
        c0 = 1 if start in marks else 0
        st = [(start, c0)]
        seen.add((start, c0))
        res = set()
        while st:
            u, c = st.pop()
            if u == end and (u, c) != (start, c0) or (u == end and start == end):
                res.add(c)
                continue
            for v, f, k in self.succ[u]:
                if not exc and k == 'x':
                    continue
                if restrict is not None and v not in restrict:
                    continue
                d = min(2, c + (1 if v in marks else 0))
                if (v, d) not in seen:
                    seen.add((v, d))
                    st.append((v, d))
        return res

    # -- must facts ------------------------------------------------------------
    def expand(self, f, out):
        if f is None or not isinstance(f, Term):
            return
        if f in out:
            return
        out.add(f)
        if f.op == 'op' and f.args[0] == '&&':
            self.expand(f.args[1], out)
            self.expand(f.args[2], out)
        elif f.op == 'op' and f.args[0] == '!' and f.args[1].op == 'op' and f.args[1].args[0] == '||':
            self.expand(neg(f.args[1].args[1]), out)
            self.expand(neg(f.args[1].args[2]), out)
        elif f.op == 'op' and f.args[0] == '||':
            a, b = f.args[1], f.args[2]
            if neg(a) in out:
                self.expand(b, out)
            elif neg(b) in out:
                self.expand(a, out)
        elif f.op == 'op' and f.args[0] == '!' and f.args[1].op == 'op' and f.args[1].args[0] == '&&':
            a, b = f.args[1].args[1], f.args[1].args[2]
            if a in out:
                self.expand(neg(b), out)
            elif b in out:
                self.expand(neg(a), out)

    def facts(self):
        """node -> frozenset of conditions that hold whenever the node is reached (before it executes)"""
        if self._facts is not None:
            return self._facts
        binders = {}

        def bind(f):
            r = binders.get(f)
            if r is None:
                r = set()
                for s in subterms(f):
                    if s.op == 'phi':
                        r.add(('b', s.args[0], s.args[1]))
                    elif s.op in ('res', 'eff', 'obj', 'thread', 'lockobj'):
                        r.add(('n', s.args[0], s.args[1]))
                binders[f] = r
            return r
        IN = {self.entry: frozenset()}
        work = [self.entry]
        inw = {self.entry}
        import collections
        q = collections.deque(work)
        while q:
            u = q.popleft()
            inw.discard(u)
            cur = IN[u]
            n = self.nodes[u]
            if n.kind == 'block':
                kk = ('b', n.frame.id, n.block)
                cur = frozenset(f for f in cur if kk not in bind(f))
            elif n.kind == 'op' and n.op.nid is not None:
                kk = ('n', n.frame.id, n.op.nid)
                cur = frozenset(f for f in cur if kk not in bind(f))
            for v, f, k in self.succ[u]:
                out = cur
                if isinstance(f, Term):
                    s = set(cur)
                    self.expand(f, s)
                    out = frozenset(s)
                if v not in IN:
                    IN[v] = out
                else:
                    m = IN[v] & out
                    if m == IN[v]:
                        continue
                    IN[v] = m
                if v not in inw:
                    inw.add(v)
                    q.append(v)
        self._facts = IN
        return IN

    def facts_at(self, n):
        return {self.N(f) for f in self.facts().get(n, ())}

    # -- loops -------------------------------------------------------------------
    def loops(self, fr):
        """natural loops of a frame: list of Loop"""
        c = getattr(self, '_loops', None)
        if c is None:
            c = self._loops = {}
        if fr.id in c:
            return c[fr.id]
        succ = {b: [s for s, f in e if f != 'exc'] for b, (i, e) in fr.blocks.items()}
        entry = fr.fn['entry']
        # dominators
        order, seen = [], set()
        st = [(entry, iter(succ.get(entry, [])))]
        seen.add(entry)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen and v in succ:
                    seen.add(v)
                    st.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                st.pop()
        order.reverse()
        pred = {b: [] for b in order}
        for u in order:
            for v in succ[u]:
                if v in pred:
                    pred[v].append(u)
        dom = {b: set(order) for b in order}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == entry:
                    continue
                ps = [dom[p] for p in pred[b]]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        bodies = {}
        for u in order:
            for v in succ[u]:
                if v in dom[u]:
                    body = bodies.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(pred[x])
        out = [Loop(self, fr, h, b, dom) for h, b in bodies.items()]
        out.sort(key=lambda l: len(l.body))
        c[fr.id] = out
        return out

    def frames(self):
        seen, out = set(), []
        for n in self.nodes:
            if n.frame is not None and n.frame.id not in seen:
                seen.add(n.frame.id)
                out.append(n.frame)
        return out

    def enclosing_loops(self, n):
        """loops containing node n, innermost first, through the call chain"""
        node = self.nodes[n]
        fr, b = node.frame, node.block
        out = []
        while fr is not None:
            for l in self.loops(fr):
                if b in l.body:
                    out.append(l)
            if fr.pop is None or fr is self.root:
                break
            p = fr.pop
            # block of the call op in the parent
            pn = self.opnode.get(p)
            if pn is None:
                break
            if p.kind == 'maycall':
                out.append(None)
            fr, b = self.nodes[pn].frame, self.nodes[pn].block
        return out


def exit_parts(g, f):
    """the ways to leave on an edge taken when one of several conditions fails (a && b evaluated to one value)"""
    if not isinstance(f, Term):
        return [f]

    def conj(t):
        if t.op == 'op' and t.args[0] == '&&':
            return [y for x in t.args[1:] for y in conj(x)]
        if t.op == 'op' and t.args[0] == '!' and t.args[1].op == 'op' and t.args[1].args[0] == '||':
            return [y for x in t.args[1].args[1:] for y in conj(neg(x))]
        return [t]
    c = conj(g.N(neg(f)))
    c = [y for x in c for y in merged(g, x)]
    return [f] if len(c) == 1 else [neg(x) for x in c]


def merged(g, t, d=0):
    """a condition that was returned or stored on several paths, as conditions that all have to hold to stay"""
    flip = False
    p = t
    if p.op == 'op' and p.args[0] == '!':
        flip, p = True, p.args[1]
    if p.op != 'phi' or d > 3 or p not in g.I.phis or not isinstance(p.args[0], int):
        return [t]
    fr = next((x for x in g.I.frame_list if x.id == p.args[0]), None)
    if fr is None:
        return [t]
    out = []
    base = None
    for (b, i), v in g.I.phis[p].items():
        v = g.N(v)
        if flip:
            v = neg(v)
        if v == p or p in set(subterms(v)):
            return [t]
        if v.op == 'const':
            if v.args[0]:
                continue            # stays
            ns = [n for n in g.nodes if n.frame is fr and n.block == b]
            if not ns:
                return [t]
            fs = set(g.facts_at(ns[-1].i))
            e = fr.blocks[b][1]
            if i < len(e) and isinstance(e[i][1], Term):
                fs.add(g.N(e[i][1]))
            if base is None:
                hs = [n for n in g.nodes if n.frame is fr]
                base = set(g.facts_at(hs[0].i)) if hs else set()
            fs = [x for x in fs - base if isinstance(x, Term)]
            if not fs:
                return [t]
            r = fs[0]
            for x in fs[1:]:
                r = T('op', '&&', r, x)
            out.append(neg(r))
        else:
            out += merged(g, v, d + 1)
    return out or [t]


class Loop(object):
    def __init__(self, g, fr, head, body, dom):
        self.g = g
        self.fr = fr
        self.head = head
        self.body = body
        self.dom = dom
        self._ind = None

    @property
    def line(self):
        b = self.g.I.prep(self.fr.fn)['blocks'][self.head]
        if b.get('tl'):
            return b['tl']
        return self.fr.fn['line']

    @property
    def where(self):
        return '%s:%s' % (self.fr.fn['file'], self.line)

    def back_edges(self):
        return [b for b in self.body if any(s == self.head for s, f in self.fr.blocks[b][1])]

    def exits(self):
        """(block, index, succ, fact) leaving the body"""
        out = []
        for b in self.body:
            for i, (s, f) in enumerate(self.fr.blocks[b][1]):
                if f != 'exc' and s not in self.body:
                    out.append((b, i, s, f))
        return out

    def phis(self):
        return {p: d for p, d in self.g.I.phis.items()
                if p.args[0] == self.fr.id and p.args[1] == self.head}

    def inductions(self):
        """phi -> (init, step) for variables changed by a constant on every iteration"""
        if self._ind is not None:
            return self._ind
        out = {}
        N = self.g.N
        for p, d in self.phis().items():
            if N(p) is not p:
                continue
            init, steps, ok = None, set(), True
            for k, v in d.items():
                v = N(v)
                if k[0] in self.body:
                    for c in self._deltas(v, p, set()):
                        steps.add(c)
                else:
                    if init is not None and init is not v:
                        ok = False
                    init = v
            if ok and init is not None and len(steps) == 1:
                s = steps.pop()
                if isinstance(s, (int, float)) and s != 0:
                    out[p] = (init, s)
        self._ind = out
        return out

    def _deltas(self, v, p, seen):
        a, c = lin(v)
        if a == {p: 1}:
            return {c}
        # v = q + c with q a join phi inside the loop
        if len(a) == 1:
            (q, k), = a.items()
            if k == 1 and q.op == 'phi' and q.args[0] == self.fr.id and q in self.g.I.phis and q not in seen and \
                    q.args[1] in self.body and q.args[1] != self.head:
                r = set()
                for x in self.g.I.phis[q].values():
                    for y in self._deltas(self.g.N(x), p, seen | {q}):
                        r.add(y + c if isinstance(y, (int, float)) else None)
                return r
        return {None}

    def tests(self):
        """exit tests of the loop in terms of an induction variable.
        list of dict(block, phi, init, step, trips (lin form), cont(fact term), exitblk)"""
        out = []
        ind = self.inductions()
        for b, i, s, f in [(b, i, s, x) for b, i, s, f in self.exits() for x in exit_parts(self.g, f)]:
            d = dict(block=b, succ=s, fact=f, phi=None, trips=None)
            if isinstance(f, Term):
                cont = self.g.N(neg(f))
                d['cont'] = cont
                if cont.op == 'op' and cont.args[0] in ('<', '<=', '!=') and len(cont.args) == 3:
                    o, x, y = cont.args
                    for (u, w, flip) in ((x, y, False), (y, x, True)):
                        lu = lin(u)
                        cand = [p for p in lu[0] if p in ind]
                        if len(cand) != 1:
                            continue
                        p = cand[0]
                        if lu[0][p] != 1 or len(lu[0]) != 1:
                            continue
                        if any(q in ind or (q.op == 'phi' and q.args[:2] == (self.fr.id, self.head))
                               for q in subterms(w)):
                            continue
                        a = lu[1]
                        init, step = ind[p]
                        li = lin(init)
                        first = (li[0], li[1] + a)
                        lb = lin(w)
                        if o == '!=':
                            if step == 1:
                                trips = lin_sub(lb, first)
                            elif step == -1:
                                trips = lin_sub(first, lb)
                            else:
                                continue
                        elif (not flip and step == 1):      # phi + a < B
                            trips = lin_sub(lb, first)
                            if o == '<=':
                                trips = (trips[0], trips[1] + 1)
                        elif (flip and step == -1):         # B < phi + a
                            trips = lin_sub(first, lb)
                            if o == '<=':
                                trips = (trips[0], trips[1] + 1)
                        else:
                            continue
                        d.update(phi=p, init=init, step=step, trips=trips, bound=w)
                        break
                elif cont in ind:
                    pass
            out.append(d)
        return out

    def const_truth(self, phi, trips):
        return None

    def covers(self, t, test):
        """values of the index expression t over the iterations allowed by `test`:
        ('up', first) / ('down', first) as linear forms, or None"""
        ind = self.inductions()
        a, c = lin(self.g.N(t))
        ps = [p for p in a if p in ind]
        if len(ps) != 1:
            return None
        p = ps[0]
        k = a[p]
        init, step = ind[p]
        if abs(k * step) != 1:
            return None
        rest = {x: y for x, y in a.items() if x is not p}
        li = lin(init)
        first = dict(rest)
        for x, y in li[0].items():
            first[x] = first.get(x, 0) + k * y
            if first[x] == 0:
                del first[x]
        return ('up' if k * step == 1 else 'down', (first, c + k * li[1]))

    def top_tested(self, test, n):
        """node n in the body is only reached in an iteration through the continue edge of the test"""
        b = test['block']
        # any path head -> n inside the body avoiding block b's end?
        blk = self.g.nodes[n].block if self.g.nodes[n].frame is self.fr else None
        node = n
        fr = self.g.nodes[n].frame
        while fr is not self.fr and fr is not None and fr.pop is not None:
            node = self.g.opnode.get(fr.pop)
            fr = self.g.nodes[node].frame
        if fr is not self.fr:
            return False
        nb = self.g.nodes[node].block
        if nb == b:
            return False
        if b == self.head:
            return True
        return b in self.dom[nb]


# --------------------------------------------------------------------------
# locks


def lock_arg(t):
    while t.op == 'eff':
        t = t.args[3]
    return t


class Locks(object):
    """must/may lock sets along every path of a graph"""

    def __init__(self, g):
        self.g = g
        N = g.N
        self.acq = {}      # node -> list of mutex locs acquired
        self.rel = {}      # node -> list released
        self.multi = set()  # nodes acquiring several mutexes deadlock-free
        for n in g.nodes:
            if n.kind != 'op':
                continue
            o = n.op
            if o.kind == 'lock':
                r = o.res
                ms = [m for m in r.args[3] if is_loc(m) and not self.is_tag(m)]
                tags = [str(a) for a in o.args]
                if any('defer_lock' in t or 'adopt_lock' in t for t in tags):
                    continue
                ms = [m for m in ms]
                self.acq[n.i] = [N(m) for m in ms]
                if len(ms) > 1:
                    self.multi.add(n.i)
            elif o.kind == 'dtor' and o.val is not None:
                v = self.lockobj(o.val)
                if v is not None:
                    self.rel[n.i] = [N(m) for m in v.args[3] if is_loc(m) and not self.is_tag(m)]
            elif o.kind == 'call':
                nm = o.name or ''
                if nm in ('std::lock',):
                    ms = []
                    for a, l in zip(o.args, o.locs):
                        v = self.lockobj(a)
                        if v is not None:
                            ms += [N(m) for m in v.args[3] if is_loc(m) and not self.is_tag(m)]
                        elif is_loc(l):
                            ms.append(N(l))
                    self.acq[n.i] = ms
                    self.multi.add(n.i)
                elif nm.startswith('std::') and nm.endswith(('::lock', '::unlock', '::lock_shared', '::unlock_shared')) and \
                        o.obj is not None:
                    ms = self.mutexes(o)
                    if nm.endswith(('::lock', '::lock_shared')):
                        self.acq[n.i] = ms
                    else:
                        self.rel[n.i] = ms
        self._must = self._flow(True)
        self._may = self._flow(False)

    @staticmethod
    def is_tag(m):
        return m.op == 'glob'

    def lockobj(self, t):
        seen, todo, out = set(), [t], set()
        while todo:
            x = lock_arg(self.g.N(todo.pop()))
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                todo.extend(self.g.I.phis.get(x, {}).values())
            else:
                out.add(x)
        if len(out) == 1:
            x = out.pop()
            return x if x.op == 'lockobj' else None
        return None

    def mutexes(self, o):
        # unique_lock::lock() : the object location holds a lockobj; mutex::lock(): the object is the mutex
        nm = o.name or ''
        cls = nm.rsplit('::', 1)[0]
        if cls in ('std::unique_lock', 'std::shared_lock'):
            v = o.extra if isinstance(o.extra, Term) else None
            # the value is not recorded for opaque calls; look it up through the writes to the variable
            for n in self.g.nodes:
                if n.kind == 'op' and n.op.kind == 'write' and n.op.loc is o.obj and n.op.val is not None and \
                        n.op.val.op == 'lockobj':
                    return [self.g.N(m) for m in n.op.val.args[3] if is_loc(m) and not self.is_tag(m)]
            return []
        return [self.g.N(o.obj)] if is_loc(o.obj) else []

    def _flow(self, must):
        g = self.g
        IN = {g.entry: frozenset()}
        import collections
        q = collections.deque([g.entry])
        while q:
            u = q.popleft()
            s = set(IN[u])
            for m in self.rel.get(u, ()):
                s.discard(m)
            sx = frozenset(s)
            for m in self.acq.get(u, ()):
                s.add(m)
            sn = frozenset(s)
            for v, f, k in g.succ[u]:
                s = sx if k == 'x' else sn
                if v not in IN:
                    IN[v] = s
                else:
                    t = (IN[v] & s) if must else (IN[v] | s)
                    if t == IN[v]:
                        continue
                    IN[v] = t
                q.append(v)
        return IN

    def must(self, n):
        return self._must.get(n, frozenset())

    def may(self, n):
        return self._may.get(n, frozenset())
