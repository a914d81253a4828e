"""Shared context for the rules: entry points, memoised interpretations, reports."""
import os
import re
import facts as factsmod
from facts import AnalysisBroken, REPO
import interp
import graph
from interp import (Interp, Term, T, const, op2, neg, subterms, show, root, store_loc, is_loc, mem, addr, fld, rec_of,
                    targs_of, strip_type)
from graph import Graph, Locks, lin, lin_eq, lin_sub

NS = 'ldaplusplus::'
RULES = {}


def rule(pid, name, text):
    def deco(f):
        RULES.setdefault(pid, []).append((name, text, f))
        return f
    return deco


def rel(path):
    path = os.path.normpath(path)
    r = os.path.normpath(REPO)
    return path[len(r) + 1:] if path.startswith(r + os.sep) else path


class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.violations = []
        self.undecided = []
        self.obligations = {}      # rule -> [checked]
        self.samples = []
        self.functions = set()
        self.cur = None

    def ok(self, what, n=1):
        self.obligations.setdefault(self.cur, [0, 0])[0] += n
        if len(self.samples) < 40:
            self.samples.append('%s: %s' % (self.cur, what))

    def violation(self, fn, detail, file=None, line=None, key=None):
        """fn: function the breach is in; key: stable identity (no line numbers)"""
        self.obligations.setdefault(self.cur, [0, 0])[0] += 1
        v = dict(rule=self.cur, function=fn, detail=detail, file=rel(file) if file else None, line=line,
                 key='%s|%s|%s' % (self.cur, fn, key or detail))
        for w in self.violations:
            if w['key'] == v['key'] and w['line'] == v['line'] and w['file'] == v['file']:
                return
        self.violations.append(v)

    def at(self, node_or_op, detail, key=None, fn=None):
        op = getattr(node_or_op, 'op', node_or_op)
        if op is None or isinstance(op, str):
            n = node_or_op
            self.violation(fn or n.frame.fn['qname'], detail, n.frame.fn['file'], n.frame.fn['line'], key)
            return
        self.violation(fn or op.frame.fn['qname'], detail, op.frame.fn['file'], op.line, key)

    def unsure(self, what):
        self.obligations.setdefault(self.cur, [0, 0])[1] += 1
        s = '%s: %s' % (self.cur, what)
        if s not in self.undecided:
            self.undecided.append(s)


class Ctx(object):
    def __init__(self, tier):
        self.F = factsmod.load()
        self.tier = tier
        self.scalars = ['double', 'float'] if tier == 'thorough' else ['double']
        self._g = {}
        self._ov = None
        self.entries = set()
        self.base = Interp(self.F)

    # -- lookup
    def fns(self, qname, scalar=None, pred=None):
        out = []
        for k, f in self.F.functions.items():
            if f['qname'] != NS + qname and f['qname'] != qname:
                continue
            if scalar is not None and not self.scalar_ok(f, scalar):
                continue
            if pred is None or pred(f):
                out.append(f)
        return out

    @staticmethod
    def scalar_ok(f, scalar):
        """f is the instantiation for this scalar (or not a scalar template)"""
        other = 'float' if scalar == 'double' else 'double'
        ck = Interp.ckey(f)
        ta = targs_of(ck) + list(f.get('fa') or [])
        if scalar in ta:
            return True
        if other in ta:
            return False
        if ('<%s>' % other) in f['key'] and ('<%s>' % scalar) not in f['key']:
            return False
        return True

    def fn1(self, qname, scalar=None, pred=None):
        r = self.fns(qname, scalar, pred)
        if not r:
            raise AnalysisBroken('anchor %s not found' % qname)
        return r[0]

    def overrides(self, qname, scalar=None):
        """all functions in the repository overriding the virtual `qname` (with bodies)"""
        base = [k for k, f in self.F.functions.items() if f['qname'] == NS + qname]
        out = {}
        for f in self.F.functions.values():
            if self._overrides(f, NS + qname) and (scalar is None or self.scalar_ok(f, scalar)):
                out[f['key']] = f
        return list(out.values())

    def _overrides(self, f, q, seen=None):
        for o in f.get('overrides') or ():
            # key of the overridden function: compare without template arguments
            if self.key_qname(o) == q:
                return True
            g = self.F.functions.get(o)
            if g is not None and self._overrides(g, q):
                return True
        return False

    @staticmethod
    def key_qname(k):
        """qualified name without template arguments and parameters"""
        s = Interp.ckey({'key': k})
        # function name
        i = len(k)
        if k.endswith(' const'):
            i -= 6
        d, j = 0, i - 1
        while j >= 0:
            if k[j] == ')':
                d += 1
            elif k[j] == '(':
                d -= 1
                if d == 0:
                    break
            j -= 1
        name = k[len(s) + 2:j]
        name = re.sub(r'<.*>$', '', name)
        return rec_of(s) + '::' + name

    # -- interpretation
    def run(self, fn, this=None, args=None, state=None, opaque=(), throws=None, tag=None):
        k = (fn['key'], this, tuple(args) if args else None, tag, tuple(opaque), throws is not None)
        g = self._g.get(k)
        if g is None:
            I = Interp(self.F, opaque=opaque)
            fr = I.run(fn['key'], this=this, args=args, state=state)
            g = Graph(I, fr, throws)
            self._g[k] = g
        self.entries.add(fn['key'])
        return g


def fname(f):
    return f['qname'].replace(NS, '')


def fkey(f):
    return f['key'].replace(NS, '')


def strip_eff(t):
    while isinstance(t, Term) and t.op == 'eff':
        t = t.args[3]
    return t


def objid(t):
    """identity of the object whose value t is: strip modifications"""
    while isinstance(t, Term):
        if t.op == 'eff':
            t = t.args[3]
        elif t.op == 'init':
            return t.args[0]
        elif t.op == 'phi':
            return t.args[2]
        elif t.op in ('upd', 'cupd'):
            t = t.args[0]
        else:
            return t
    return t


def is_corpus_size(t):
    return t.op == 'call' and isinstance(t.args[0], str) and t.args[0].endswith('Corpus::size')


_cs = {}


def canon_size(t):
    """corpus->size() does not depend on what was done to the corpus"""
    if not isinstance(t, Term):
        return t
    r = _cs.get(t)
    if r is not None:
        return r
    if is_corpus_size(t):
        r = T('csize', objid(t.args[1]))
    elif t.op == 'op':
        r = op2(t.args[0], canon_size(t.args[1]), canon_size(t.args[2])) if len(t.args) == 3 else \
            T('op', *[canon_size(a) for a in t.args])
    else:
        r = t
    _cs[t] = r
    return r


def canon_lin(l):
    d = {}
    c = l[1]
    for k, v in l[0].items():
        k2 = canon_size(k)
        d[k2] = d.get(k2, 0) + v
    return d, c


def show_lin(l):
    s = ' + '.join(('%s' if v == 1 else '%d*%%s' % v) % show(k, 4) for k, v in l[0].items())
    if l[1] or not s:
        s += ('%+d' % l[1]) if s else str(l[1])
    return s


def nonempty_facts(v):
    """facts that mean: container value v is not empty"""
    sz = T('E', 'size', v)
    z = const(0)
    return {op2('!=', sz, z), op2('<', z, sz), op2('<=', const(1), sz)}


def empty_facts(v):
    sz = T('E', 'size', v)
    z = const(0)
    return {op2('==', sz, z), op2('<=', sz, z), op2('<', sz, const(1))}


PUSH = ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace', 'insert')


def short(name):
    return (name or '').split('::')[-1]


def is_container_call(o, names):
    return o.kind == 'call' and (o.name or '').startswith('std::') and short(o.name) in names and o.obj is not None
