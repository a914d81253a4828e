"""Interprocedural value-numbering dataflow over the extracted program.

A forward fixpoint over each function's control flow graph computes, for every
expression, a hash-consed *value term* (a value number) and for every control
flow edge the store (location -> value number).  Nothing is executed and no
paths are enumerated: states are merged at joins with phi terms and loops are
iterated to a fixpoint.  Calls whose target is in the repository are analysed
in their calling context; everything else is an opaque operation recorded with
its argument values.  The result is an interprocedural graph of operations
("ops") that the rules query.
"""
import re
import sys

sys.setrecursionlimit(20000)

# --------------------------------------------------------------------------
# terms


class Term(object):
    __slots__ = ('op', 'args', 'id')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_intern = {}


def T(op, *args):
    k = (op,) + args
    t = _intern.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_intern)
        _intern[k] = t
    return t


def const(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, str):
        try:
            v = int(v)
        except ValueError:
            try:
                v = float(v)
            except ValueError:
                return T('const', v)
    if isinstance(v, float) and v == v and abs(v) != float('inf') and v == int(v):
        v = int(v)
    if isinstance(v, float) and v != v:
        return T('const', 'nan')
    return T('const', v)


LOCK = frozenset(('var', 'mem', 'f', 'v', 'tmp', 'glob'))


def is_loc(t):
    return t.op in LOCK


def mem(p):
    if p.op == 'addr':
        return p.args[0]
    return T('mem', p)


def addr(l):
    if l.op == 'mem':
        return l.args[0]
    return T('addr', l)


def fld(base, name, cls):
    return T('f', base, name, cls)


def root(l):
    """Base object of a location (through fields and views)."""
    while l.op in ('f', 'v'):
        l = l.args[0]
    return l


def store_loc(l):
    """Location that actually holds the value: views removed."""
    while l.op == 'v':
        l = l.args[0]
    return l


_show_depth = [0]


def show(t, depth=6):
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return '..'
    o, a = t.op, t.args
    s = lambda x: show(x, depth - 1)
    if o == 'const':
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'op':
        if len(a) == 3:
            return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if o == 'E':
        return '%s.%s(%s)' % (s(a[1]) if len(a) > 1 else '', a[0], ', '.join(s(x) for x in a[2:]))
    if o == 'var':
        return '%s#%s' % (a[2], a[0])
    if o == 'mem':
        return '*%s' % s(a[0])
    if o == 'f':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'v':
        return '%s.%s[%s]' % (s(a[0]), a[1], ', '.join(s(x) for x in a[2:]))
    if o == 'param':
        return 'param:%s' % a[1]
    if o == 'this':
        return 'this:%s' % a[0].split('::')[-1]
    if o == 'init':
        return 'in(%s)' % s(a[0])
    if o == 'phi':
        return 'phi%s.%s(%s)' % (a[0], a[1], s(a[2]))
    if o == 'obj':
        return 'new<%s>@%s.%s' % (a[2].split('::')[-1], a[0], a[1])
    if o == 'res':
        return 'res:%s@%s.%s' % (str(a[2]).split('::')[-1], a[0], a[1])
    return '%s(%s)' % (o, ', '.join(s(x) if isinstance(x, Term) else
                                    ('(' + ','.join(s(y) if isinstance(y, Term) else str(y) for y in x) + ')'
                                     if isinstance(x, tuple) else str(x)) for x in a))


def subterms(t, seen=None):
    """All terms reachable through arguments (not through phis)."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
    return seen


# --------------------------------------------------------------------------


class Op(object):
    __slots__ = ('kind', 'frame', 'nid', 'line', 'name', 'obj', 'args', 'locs', 'res', 'val', 'loc', 'how',
                 'child', 'node', 'live', 'extra', 'gid', 'block', 'callee')

    def __init__(self, kind, frame, nid, line):
        self.kind = kind
        self.frame = frame
        self.nid = nid
        self.line = line
        self.name = self.obj = self.args = self.locs = self.res = self.val = self.loc = None
        self.how = self.child = self.node = self.live = self.extra = self.gid = self.block = self.callee = None

    @property
    def where(self):
        return '%s:%d' % (self.frame.fn['file'], self.line)

    def __repr__(self):
        return '<%s %s %s obj=%s args=%s loc=%s val=%s @%s>' % (
            self.kind, self.name, self.nid, self.obj, self.args, self.loc, self.val, self.where)


class Frame(object):
    __slots__ = ('id', 'fn', 'this', 'env', 'vals', 'parent', 'pop', 'depth', 'blocks', 'rets', 'thiscls', 'live',
                 'key', 'exit_state', 'ret', 'in_states', 'memo_in', 'memo_out', 'caps', 'nodeblock', 'lazy')


class State(dict):
    """location -> value; reads of missing locations give their initial value."""
    __slots__ = ()

    def copy(self):
        return State(self)


IDENT_VIEWS = {'array', 'matrix', 'noalias', 'derived', 'const_cast_derived', 'eval', 'nestedExpression', 'lazyAssign',
               'nested', 'asDiagonal_', 'forceAlignedAccess'}
VIEWS = {'col', 'row', 'block', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'head', 'tail', 'segment',
         'middleRows', 'middleCols', 'diagonal', 'transpose', 'colwise', 'rowwise', 'coeffRef', 'topLeftCorner',
         'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'reverse', 'x', 'y', 'z', 'w'}
E_MUT = {'fill', 'setZero', 'setConstant', 'setOnes', 'setRandom', 'setIdentity', 'resize', 'conservativeResize',
         'resizeLike', 'conservativeResizeLike', 'normalize', 'transposeInPlace', 'reverseInPlace', 'swap',
         'setLinSpaced', 'adjointInPlace'}
CMP = {'>': '<', '>=': '<='}
COMM = {'+', '*', '==', '!=', '&&', '||', '&', '|', '^', 'min', 'max'}
NEG = {'<': '<=', '<=': '<', '==': '!=', '!=': '=='}


def op2(o, a, b):
    if o in CMP:
        o, a, b = CMP[o], b, a
    if a.op == 'const' and b.op == 'const' and not isinstance(a.args[0], str) and not isinstance(b.args[0], str):
        x, y = a.args[0], b.args[0]
        try:
            if o == '+':
                return const(x + y)
            if o == '-':
                return const(x - y)
            if o == '*':
                return const(x * y)
            if o == '<':
                return const(int(x < y))
            if o == '<=':
                return const(int(x <= y))
            if o == '==':
                return const(int(x == y))
            if o == '!=':
                return const(int(x != y))
        except Exception:
            pass
    if o in ('==', '!='):
        for x, y in ((a, b), (b, a)):
            if y.op == 'const' and not isinstance(y.args[0], (str, float)) and y.args[0] in (0, 1) and boolish(x):
                return x if (y.args[0] == 1) == (o == '==') else neg(x)
    if o in ('+', '-') and b.op == 'const' and b.args[0] == 0:
        return a
    if o == '+' and a.op == 'const' and a.args[0] == 0:
        return b
    # fold constants of sums: (x + c1) + c2
    if o in ('+', '-') and b.op == 'const' and isinstance(b.args[0], int):
        c = b.args[0] if o == '+' else -b.args[0]
        x = a
        if x.op == 'op' and x.args[0] == '+' and len(x.args) == 3 and x.args[2].op == 'const' and \
                isinstance(x.args[2].args[0], int):
            c += x.args[2].args[0]
            x = x.args[1]
        if c == 0:
            return x
        return T('op', '+', x, const(c))
    if o in ('==', '<=') and a is b and a.op != 'const':
        pass
    if o == '!=' and b.op == 'const' and b.args[0] == 0 and a.op == 'op' and a.args[0] in (
            '<', '<=', '==', '!=', '&&', '||', '!'):
        return a
    if o in COMM and b < a and not (b.op == 'const'):
        if a.op != 'const' or True:
            a, b = b, a
    if o in COMM and a.op == 'const' and b.op != 'const':
        a, b = b, a
    return T('op', o, a, b)


def boolish(t):
    """is the value of the term a truth value"""
    if t.op == 'op':
        return t.args[0] in ('==', '!=', '<', '<=', '!', '&&', '||')
    return t.op == 'call' and isinstance(t.args[0], str) and t.args[0].split('::')[-1] in ('good', 'fail', 'eof', 'bad', 'asBool', 'is_open')


def neg(t):
    if t.op == 'const' and not isinstance(t.args[0], str):
        return const(0 if t.args[0] else 1)
    if t.op == 'op' and t.args[0] == '!':
        return t.args[1]
    if t.op == 'op' and t.args[0] in ('==', '!=') and len(t.args) == 3:
        return T('op', NEG[t.args[0]], t.args[1], t.args[2])
    if t.op == 'op' and t.args[0] in ('<', '<=') and len(t.args) == 3:
        # !(a<b) == b<=a  (not for NaN; the rules that care look at the source op)
        return T('op', NEG[t.args[0]], t.args[2], t.args[1])
    return T('op', '!', t)


def strip_type(t):
    t = t.strip()
    while t.startswith('const '):
        t = t[6:]
    while t.endswith('&') or t.endswith('*'):
        t = t[:-1]
        if t.endswith('const'):
            t = t[:-5].strip()
    return t


def rec_of(t):
    """record name without template arguments of a type string"""
    t = strip_type(t)
    out = []
    d = 0
    for c in t:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out)


def targs_of(t):
    t = strip_type(t)
    i = t.find('<')
    if i < 0:
        return []
    body = t[i + 1:t.rfind('>')]
    out, d, cur = [], 0, ''
    for c in body:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    out.append(cur)
    return [x.strip() for x in out]


MUTATING_STD = {
    'push_back', 'emplace_back', 'push_front', 'emplace_front', 'pop_front', 'pop_back', 'clear', 'erase', 'insert',
    'emplace', 'resize', 'assign', 'swap', 'reserve', 'splice', 'remove', 'remove_if', 'merge', 'sort', 'reverse', 'unique', 'push',
    'pop', 'shrink_to_fit'}
ACCESS_STD = {'operator[]', 'at', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data',
              'find', 'count', 'size', 'empty', 'get', 'c_str'}
CONT = ('std::vector', 'std::list', 'std::deque', 'std::array', 'std::map', 'std::unordered_map', 'std::set',
        'std::unordered_set', 'std::basic_string', 'std::initializer_list', 'std::queue', 'std::stack',
        'std::forward_list', 'std::multimap', 'std::multiset')
ITER = ('std::_List_iterator', 'std::_List_const_iterator', '__gnu_cxx::__normal_iterator', 'std::_Deque_iterator',
        'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator',
        'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base', 'std::reverse_iterator',
        'std::move_iterator', 'std::_Fwd_list_iterator')
SMART = ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr', 'std::weak_ptr',
         'std::__weak_ptr')
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')


class Interp(object):
    MAXDEPTH = 24

    def __init__(self, facts, opaque=(), fresh_virtual=None):
        self.F = facts
        self.fns = facts.functions
        self.opaque = set(opaque)      # qnames never inlined
        self.frames = {}
        self.frame_list = []
        self.phis = {}                 # phi term -> {pred: value}
        self.resinfo = {}              # res term -> Op
        self.cur = None                # current block item list
        self.stack = []
        self.extra_calls = []
        self.warnings = []
        self.obj_types = {}
        self.iterations = 0
        self.record_reads = True
        self._sticky = set()
        self.dead = False
        # overriding: overridden key -> set of overriding keys (transitive)
        ov = {}
        for k, f in self.fns.items():
            for o in f.get('overrides', ()) or ():
                ov.setdefault(o, set()).add(k)
        self.ov = ov
        self.bases = {n: r['bases'] for n, r in facts.records.items()}
        self.ctors = {}
        self.dtors = {}
        for k, f in self.fns.items():
            if f.get('ctor'):
                self.ctors.setdefault(self.ckey(f), []).append(f)
            if f.get('dtor'):
                self.dtors[self.ckey(f)] = f

    # -- program structure -------------------------------------------------
    @staticmethod
    def ckey(f):
        """Class type (with template arguments) a method belongs to."""
        k = f['key']
        # cut the parameter list
        d = 0
        i = len(k)
        if k.endswith(' const'):
            i -= 6
        # find matching '(' of the last ')'
        j = i - 1
        d = 0
        while j >= 0:
            if k[j] == ')':
                d += 1
            elif k[j] == '(':
                d -= 1
                if d == 0:
                    break
            j -= 1
        head = k[:j]
        # strip trailing ::name (name may itself have template args)
        d = 0
        p = len(head)
        j = len(head) - 1
        while j > 0:
            c = head[j]
            if c == '>':
                if j > 0 and head[j - 1] in '-=':
                    pass
                else:
                    d += 1
            elif c == '<':
                d -= 1
            elif c == ':' and head[j - 1] == ':' and d == 0:
                return head[:j - 1]
            j -= 1
        return head

    def all_bases(self, cls):
        out, st = [], [cls]
        while st:
            c = st.pop(0)
            if c in out:
                continue
            out.append(c)
            st.extend(self.bases.get(c, ()))
        return out

    def overriders(self, key):
        out, st = set(), [key]
        while st:
            k = st.pop()
            for x in self.ov.get(k, ()):
                if x not in out:
                    out.add(x)
                    st.append(x)
        return out

    def resolve_virtual(self, key, dyn):
        """function key that a virtual call to `key` reaches for dynamic class dyn, or None"""
        rec = rec_of(dyn)
        ta = targs_of(dyn)
        cands = {key} | self.overriders(key)
        for c in self.all_bases(rec):
            for k in cands:
                f = self.fns.get(k)
                if f is not None and f.get('cls') == c:
                    t2 = targs_of(self.ckey(f))
                    if t2 and ta and t2[0] != ta[0]:
                        continue
                    return k
        return None

    def dyn_class(self, p):
        """dynamic class of the object a pointer term points to, or None"""
        if p.op == 'obj':
            return p.args[2]
        if p.op == 'this':
            return p.args[0]
        if p.op == 'addr':
            l = p.args[0]
            ct = self.obj_types.get(l)
            return ct
        return None

    # -- state -------------------------------------------------------------
    def read(self, st, l):
        if not is_loc(l):
            return l
        if l.op == 'v':
            return self.view(self.read(st, l.args[0]), l.args[1], l.args[2:])
        v = st.get(l)
        if v is not None:
            return v
        if l.op == 'f':
            # a field of a value-like base (e.g. a returned struct)
            b = l.args[0]
            if b.op in ('var', 'tmp') and b in st:
                bv = st[b]
                if bv.op != 'init':
                    if bv.op == 'obj':
                        return self.read(st, fld(mem(bv), l.args[1], l.args[2]))
                    return T('fld', bv, l.args[1])
        if l.op == 'mem' and l.args[0].op in ('obj', 'this'):
            return l.args[0]
        return T('init', l)

    def view(self, v, name, args):
        if name == 'at' and v.op == 'upd':
            # reading exactly what was written last
            old, path, how, val = v.args
            if path == (('at',) + tuple(args),) and how == '=':
                return val
        if name == 'at' and v.op == 'filled':
            return v.args[0]
        if name == 'get' and v.op == 'tuple' and len(args) == 1 and isinstance(args[0], Term) and \
                args[0].op == 'const' and isinstance(args[0].args[0], int) and args[0].args[0] < len(v.args):
            return v.args[args[0].args[0]]
        if name == 'at' and v.op in ('list', 'tuple_list') and args and args[0].op == 'const' and \
                isinstance(args[0].args[0], int) and 0 <= args[0].args[0] < len(v.args):
            return v.args[args[0].args[0]]
        if name == 'transpose' and v.op == 'E' and v.args[0] == 'transpose':
            return v.args[1]
        return T('E', name, v, *args)

    def havoc(self, st, l, fr, nid, i):
        """the callee at nid may change what l holds in a way that is not modelled"""
        v = T('eff', fr.id, nid, i, self.read(st, l))
        if l.op == 'v':
            self.write(st, l, v, '=', fr, nid, emit=False)
        else:
            st[l] = v

    def write(self, st, l, val, how, frame, nid, emit=True, plain=None):
        """how: '=' or an augmented operator such as '+='"""
        path = []
        b = l
        while b.op == 'v':
            path.append((b.args[1],) + tuple(b.args[2:]))
            b = b.args[0]
        path = tuple(reversed(path))
        old = self.read(st, b)
        if path:
            nv = T('upd', old, path, how, val)
        elif how == '=':
            nv = val
        else:
            nv = op2(how[:-1], old, val) if plain is None else plain(old, val)
        if b.op not in ('var', 'mem', 'f', 'tmp', 'glob'):
            return None
        st[b] = nv
        if emit:
            o = self.emit('write', frame, nid)
            o.loc = l
            o.val = val
            o.how = how
            o.obj = old
            o.res = nv
            return o

    def emit(self, kind, frame, nid, line=None):
        n = frame.fn['nodes'].get(nid) if isinstance(nid, int) else None
        o = Op(kind, frame, nid, line if line is not None else (n['l'] if n else frame.fn['line']))
        o.node = n
        o.live = frame.live
        self.cur.append(o)
        return o

    # -- frames ------------------------------------------------------------
    def frame_for(self, key, parent, nid, fn, this):
        k = (parent.id if parent else -1, nid, key)
        fr = self.frames.get(k)
        if fr is None:
            fr = Frame()
            fr.id = len(self.frame_list)
            self.frame_list.append(fr)
            self.frames[k] = fr
            fr.fn = fn
            fr.parent = parent
            fr.depth = parent.depth + 1 if parent else 0
            fr.key = k
            fr.memo_in = None
            fr.vals = {}
            fr.lazy = set()
            fr.blocks = {}
            fr.env = {}
            fr.caps = {}
            fr.in_states = {}
            fr.live = ()
            fr.nodeblock = None
            fr.pop = None
        fr.this = this
        return fr

    def varloc(self, fr, vid, name):
        return T('var', fr.id, vid, name)

    def bind_params(self, fr, fn, args, st, caller, lam=None):
        """args: list of terms (locations or values); missing ones use defaults"""
        for i, p in enumerate(fn['params']):
            if i < len(args) and args[i] is not None:
                a = args[i]
            elif 'def' in p:
                a = None
            else:
                a = T('param', fn['key'], p['name'] or str(i))
            loc = self.varloc(fr, p['id'], p['name'] or 'arg%d' % i)
            if a is None:
                fr.env[p['id']] = loc
                v = self.eval_tree(fr, p['def'], st)
                if is_loc(v) and p['rk'] in ('r', 'cr', 'rr'):
                    fr.env[p['id']] = v
                else:
                    st[loc] = self.read(st, v)
                continue
            if p['rk'] in ('r', 'cr', 'rr'):
                if is_loc(a):
                    fr.env[p['id']] = a
                else:
                    st[loc] = a
                    fr.env[p['id']] = loc
            else:
                if p['t'] and rec_of(p['t']) == 'Eigen::Ref' and is_loc(a):
                    fr.env[p['id']] = a
                elif self.is_record_type(p['t']) and is_loc(a):
                    fr.env[p['id']] = a
                elif p['t'] and rec_of(p['t']).startswith('Eigen::') and a.op == 'v' and \
                        not rec_of(p['t']).startswith(('Eigen::Matrix', 'Eigen::Array')):
                    fr.env[p['id']] = a
                else:
                    st[loc] = self.read(st, a)
                    fr.env[p['id']] = loc

    def is_record_type(self, t):
        return bool(t) and rec_of(t) in self.F.records and not t.endswith('*')

    def eval_tree(self, fr, nid, st):
        """Evaluate an expression tree that is not in the CFG (default arguments)."""
        n = fr.fn['nodes'].get(nid)
        if n is None:
            return T('unknown', fr.fn['key'], nid)
        for c in list(n.get('c', ())) + ([n['o']] if 'o' in n else []) + list(n.get('a', ())):
            if isinstance(c, int) and c >= 0 and fr.vals.get(c) is None:
                self.eval_tree(fr, c, st)
        v = self.eval(fr, nid, st)
        fr.vals[nid] = v
        fr.lazy.add(nid)
        return v

    # -- entry -------------------------------------------------------------
    def run(self, key, this=None, args=None, state=None):
        """Analyse function `key` as an entry point. Returns its frame."""
        fn = self.fns[key]
        st = State() if state is None else state.copy()
        if this is None and fn.get('cls') and not fn.get('static') and not fn.get('lambda'):
            this = T('this', self.ckey(fn))
        self.cur = []
        fr = self.frame_for(key, None, len(self.frame_list), fn, this)
        a = []
        for i, p in enumerate(fn['params']):
            if args is not None and i < len(args) and args[i] is not None:
                a.append(args[i])
                continue
            pt = T('param', key, p['name'] or str(i))
            if p['rk'] in ('r', 'cr', 'rr'):
                a.append(T('mem', pt))
            else:
                a.append(pt)
        self.bind_params(fr, fn, a, st, None)
        self.interp_frame(fr, st)
        return fr

    def run_lambda(self, f, args=None, state=None):
        """Analyse a lambda value as an entry point (the body of a thread)."""
        fn = self.fns[f.args[0]]
        st = State() if state is None else state.copy()
        self.cur = []
        fr = self.frame_for(fn['key'], None, len(self.frame_list), fn, f.args[1])
        for (vid, how, t) in f.args[2]:
            if how == 'r':
                fr.env[vid] = t.args[0] if t.op == 'addr' else mem(t)
            else:
                l = T('tmp', -7, (f.id, vid))
                st[l] = t
                fr.env[vid] = l
        a = []
        for i, p in enumerate(fn['params']):
            pt = T('param', fn['key'], p['name'] or str(i))
            a.append(T('mem', pt) if p['rk'] in ('r', 'cr', 'rr') else pt)
        self.bind_params(fr, fn, a, st, None)
        self.interp_frame(fr, st)
        return fr

    # -- fixpoint ----------------------------------------------------------
    def prep(self, fn):
        p = fn.get('_prep')
        if p is not None:
            return p
        blocks = {b['id']: b for b in fn['blocks']}
        succ = {}
        for b in blocks.values():
            succ[b['id']] = [s for s in b['succ']]
        # exception edges: blocks lexically inside a try body -> handlers
        exc = {}
        for b in blocks.values():
            if b.get('term') == 'CXXTryStmt':
                tn = b['tn']
                trynode = fn['nodes'][tn]
                body = trynode['c'][0] if trynode['c'] else None
                inside = self.descendants(fn, body)
                hs = [s for s in b['succ'] if s is not None and
                      blocks[s].get('label') is not None and
                      fn['nodes'].get(blocks[s]['label'], {}).get('k') == 'CXXCatchStmt']
                for c in blocks.values():
                    if c is b:
                        continue
                    if any(isinstance(e, int) and e in inside for e in c['els']):
                        exc.setdefault(c['id'], [])
                        for h in hs:
                            if h not in exc[c['id']]:
                                exc[c['id']].append(h)
        # reverse postorder
        entry = fn['entry']
        order, seen, onst, back = [], set(), set(), set()

        def allsucc(b):
            return [s for s in succ[b] if s is not None] + exc.get(b, [])

        stack = [(entry, iter(allsucc(entry)))]
        seen.add(entry)
        onst.add(entry)
        while stack:
            b, it = stack[-1]
            nxt = None
            for s in it:
                if s in onst:
                    back.add((b, s))
                elif s not in seen:
                    nxt = s
                    break
            if nxt is None:
                order.append(b)
                onst.discard(b)
                stack.pop()
            else:
                seen.add(nxt)
                onst.add(nxt)
                stack.append((nxt, iter(allsucc(nxt))))
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        heads = {t for (_, t) in back}
        p = dict(blocks=blocks, succ=succ, exc=exc, order=order, rpo=rpo, heads=heads, back=back)
        fn['_prep'] = p
        return p

    def descendants(self, fn, nid):
        out, st = set(), [nid]
        while st:
            x = st.pop()
            if x in out or not isinstance(x, int) or x < 0:
                continue
            out.add(x)
            n = fn['nodes'].get(x)
            if not n:
                continue
            st.extend(n.get('c', ()))
            st.extend(n.get('a', ()) or ())
            if 'o' in n:
                st.append(n['o'])
            for v in n.get('vars', ()) or ():
                if 'init' in v:
                    st.append(v['init'])
            for c in n.get('caps', ()) or ():
                if 'init' in c:
                    st.append(c['init'])
        return out

    def merge(self, fr, bid, incoming, head):
        """incoming: list of (pred, state)"""
        if len(incoming) == 1 and not head:
            return incoming[0][1].copy()
        keys = set()
        for _, s in incoming:
            keys.update(s.keys())
        out = State()
        for l in keys:
            vals = []
            missing_local = False
            for p, s in incoming:
                v = s.get(l)
                if v is None:
                    if l.op in ('var', 'tmp'):
                        missing_local = True
                        continue
                    r = root(l)
                    if r.op in ('var', 'tmp') and l.op == 'f' and r not in s and \
                            not any(isinstance(k, Term) and root(k) is r for k in s):
                        missing_local = True
                        continue
                    v = self.read(s, l)
                vals.append((p, v))
            phi = T('phi', fr.id, bid, l)
            if not vals:
                continue
            first = vals[0][1]
            same = all(v is first for _, v in vals)
            if first.op == 'iter' and all(v.op == 'iter' and v.args[0] is first.args[0] for _, v in vals):
                # an iterator into one container: merge its position
                ix = T('phi', fr.id, bid, T('ix', l))
                if head and ix in self._sticky or not same:
                    self.phis[ix] = {p: v.args[1] for p, v in vals}
                    if head:
                        self._sticky.add(ix)
                    out[l] = T('iter', first.args[0], ix)
                else:
                    out[l] = first
                continue
            if head and phi in self.phis and phi in self._sticky:
                out[l] = phi
                self.phis[phi] = dict(vals)
                continue
            if same:
                if missing_local and not head:
                    # variable not live on every path: keep the value (it is out of scope elsewhere)
                    out[l] = first
                else:
                    out[l] = first
                continue
            self.phis[phi] = dict(vals)
            if head:
                self._sticky.add(phi)
            out[l] = phi
        return out


    def retloc(self, fr):
        return T('tmp', fr.id, 'ret')

    def interp_frame(self, fr, st0):
        """Interpret fr.fn from state st0; returns (exit state or None, return term)."""
        fn = fr.fn
        P = self.prep(fn)
        if not fn['blocks']:
            return st0, None
        entry, exitb = fn['entry'], fn['exit']
        edges = {(-1, 0): (entry, st0)}
        into = {entry: [(-1, 0)]}
        pending = {entry}
        seen_in = {}
        fr.blocks = {}
        visits = {}
        saved = self.cur
        fr.live = ()
        live_in = {entry: ()}
        exit_state = None
        while pending:
            b = min(pending, key=lambda x: P['rpo'].get(x, 1 << 30))
            pending.discard(b)
            inc = [(k, edges[k][1]) for k in into[b]]
            ins = self.merge(fr, b, inc, b in P['heads'])
            if b in seen_in and seen_in[b] == ins:
                continue
            seen_in[b] = ins.copy()
            visits[b] = visits.get(b, 0) + 1
            self.iterations += 1
            if visits[b] > 40:
                self.warnings.append('no fixpoint in %s' % fn['key'])
                continue
            items = []
            self.cur = items
            fr.live = live_in.get(b, ())
            outs, fact_edges = self.exec_block(fr, b, ins, P)
            fr.blocks[b] = (items, fact_edges)
            for i, (s, stt, fact) in enumerate(outs):
                k = (b, i)
                old = edges.get(k)
                if s not in live_in:
                    live_in[s] = fr.live
                if old is None or old[1] != stt or old[0] != s:
                    if old is not None and old[0] != s:
                        into[old[0]].remove(k)
                        old = None
                    edges[k] = (s, stt)
                    if old is None:
                        into.setdefault(s, []).append(k)
                    pending.add(s)
            # edges that disappeared (a condition became constant) stay: monotone
        self.cur = saved
        if exitb in seen_in:
            exit_state = seen_in[exitb]
        ret = None
        if exit_state is not None:
            ret = exit_state.get(self.retloc(fr))
        fr.exit_state = exit_state
        fr.ret = ret
        fr.in_states = seen_in
        return exit_state, ret

    def exec_block(self, fr, b, st, P):
        fn = fr.fn
        blk = P['blocks'][b]
        dead = False
        for x in fr.lazy:
            fr.vals.pop(x, None)
        fr.lazy.clear()
        handlers = P['exc'].get(b, [])
        st_in = st.copy() if handlers else None
        lab = blk.get('label')
        if lab is not None:
            n = fn['nodes'].get(lab)
            if n and n['k'] == 'CXXCatchStmt':
                o = self.emit('catch', fr, lab)
                if 'cvv' in n:
                    l = self.varloc(fr, n['cvv'], 'exc')
                    fr.env[n['cvv']] = l
                    st[l] = T('res', fr.id, lab, 'exception')
        for e in blk['els']:
            if isinstance(e, dict):
                if e['e'] == 'init':
                    self.exec_init(fr, e, st)
                elif e['e'] == 'dtor':
                    self.exec_dtor(fr, e, st, b)
                continue
            if e < 0:
                continue
            n = fn['nodes'].get(e)
            if n is None:
                continue
            self.dead = False
            v = self.eval(fr, e, st)
            if v is not None:
                fr.vals[e] = v
            if self.dead:
                dead = True
                self.dead = False
                break
        outs, facts = [], []
        if not dead:
            succ = P['succ'][b]
            term = blk.get('term')
            live = [s for s in succ if s is not None]
            if term == 'CXXTryStmt':
                pass
            elif term == 'SwitchStmt' and 'cond' in blk:
                c = self.read(st, self.val(fr, blk['cond'], st))
                for s in succ:
                    if s is None:
                        continue
                    cases = P['blocks'][s].get('cases') or []
                    fact = None
                    vals = [self.val(fr, x, st) for x in cases if isinstance(x, int) and x >= 0]
                    if len(vals) == 1 and len(cases) == 1:
                        fact = op2('==', c, vals[0])
                        if fact.op == 'const' and fact.args[0] == 0:
                            continue
                    outs.append((s, st.copy(), fact))
            elif len(succ) == 2 and 'cond' in blk:
                c = self.val(fr, blk['cond'], st)
                c = self.read(st, c)
                o = self.emit('branch', fr, blk['cond'], blk.get('tl'))
                o.val = c
                o.how = term
                for i, s in enumerate(succ):
                    if s is None:
                        continue
                    fact = c if i == 0 else neg(c)
                    if fact.op == 'const' and fact.args[0] in (0,):
                        continue
                    outs.append((s, st.copy() if i == 0 else st, fact))
            else:
                for i, s in enumerate(live):
                    outs.append((s, st.copy() if i else st, None))
        facts = [(s, f) for s, _, f in outs]
        for h in handlers:
            outs.append((h, st_in.copy(), None))
            outs.append((h, st.copy(), None))
            facts.append((h, 'exc'))
        return outs, facts

    def exec_init(self, fr, e, st):
        x = e['x']
        v = self.val(fr, x, st)
        if 'base' in e or 'deleg' in e:
            return
        base = mem(fr.this) if fr.this is not None else T('mem', T('this', '?'))
        l = fld(base, e['field'], e['mcls'])
        if e['mrk'] in ('r', 'cr', 'rr'):
            if not is_loc(v):
                t = T('tmp', fr.id, ('ri', x))
                st[t] = v
                v = t
            val = addr(v)
        else:
            val = self.read(st, v)
        st[l] = val
        o = self.emit('write', fr, x, e.get('l'))
        o.loc = l
        o.val = val
        o.how = 'init'
        o.res = val
        o.extra = v

    def exec_dtor(self, fr, e, st, b):
        l = fr.env.get(e['v'])
        if l is None:
            return
        fr.live = tuple(x for x in fr.live if x[0] != e['v'])
        t = e['t'] or ''
        v = self.read(st, l)
        ck = strip_type(t)
        d = self.dtors.get(ck)
        if d is not None and v.op == 'obj' and not t.endswith('&'):
            self.call_fn(fr, ('dtor', e['v'], b), d, v, [], st, line=fr.fn['line'])
            return
        rn = rec_of(t)
        if rn in LOCKS or rn in ('std::thread',) or rn in self.F.records or rn in (
                'std::basic_fstream', 'std::basic_ofstream', 'std::basic_ifstream', 'std::vector', 'std::unique_ptr'):
            o = self.emit('dtor', fr, None, fr.fn['line'])
            o.loc = l
            o.val = v
            o.name = rn
            o.extra = t

    # -- calls ---------------------------------------------------------------
    def in_chain(self, fr, key):
        n = 0
        while fr is not None:
            if fr.fn['key'] == key:
                n += 1
            fr = fr.parent
        return n

    def call_fn(self, fr, nid, fn, this, args, st, line=None, caps=None, kind='call', name=None):
        o = self.emit(kind, fr, nid, line)
        o.name = name or fn['qname']
        o.callee = fn['key']
        o.obj = this
        o.args = [self.read(st, a) if a is not None else None for a in args]
        o.locs = list(args)
        if self.in_chain(fr, fn['key']) >= 1 or fr.depth > self.MAXDEPTH or fn['qname'] in self.opaque:
            o.extra = 'recursive' if fn['qname'] not in self.opaque else 'opaque'
            if fn['qname'] in self.opaque and fn['rk'] in ('r', 'cr'):
                r = T('mem', T('call', fn['qname'], this, *o.args))
                o.res = r
                return r
            out = [i for i, (a, p) in enumerate(zip(args, fn['params'])) if a is not None and is_loc(a) and
                   (p['rk'] in ('r', 'rr') or p['t'] and rec_of(p['t']) == 'Eigen::Ref' and 'const' not in targs_of(p['t'])[0][:6])]
            if fn.get('const') and fn['qname'] in self.opaque and not out:
                o.res = T('call', fn['qname'], self.read(st, mem(this)) if this is not None else None, *o.args)
                return o.res
            for i in out:
                self.havoc(st, args[i], fr, nid, i)
            r = T('res', fr.id, nid, fn['qname'])
            self.resinfo[r] = o
            o.res = r
            return r
        ch = self.frame_for(fn['key'], fr, nid, fn, this)
        o.child = ch
        ch.pop = o
        ch.env = {}
        ch.caps = caps or {}
        for vid, l in ch.caps.items():
            ch.env[vid] = l
        stc = st.copy()
        self.bind_params(ch, fn, args, stc, fr)
        ex, ret = self.interp_frame(ch, stc)
        if ex is None:
            self.dead = True
            o.res = None
            return T('unknown', fn['key'], 'noreturn')
        self.dead = False
        st.clear()
        for k, v in ex.items():
            r = root(k)
            if r.op in ('var', 'tmp') and r.args[0] == ch.id:
                continue
            st[k] = v
        if ret is not None and fn['rk'] in ('r', 'cr', 'rr'):
            ret = mem(ret)
        if ret is None:
            ret = T('void')
        o.res = ret
        return ret

    def call_value(self, fr, nid, f, args, st, kind='call', sub=''):
        """Call a callable value (lambda, bind, function pointer). None if unknown."""
        key = (nid, sub) if sub else nid
        if f.op == 'lam':
            fn = self.fns.get(f.args[0])
            if fn is None:
                return None
            caps = {}
            for (vid, how, t) in f.args[2]:
                if how == 'r':
                    caps[vid] = t.args[0] if t.op == 'addr' else mem(t)
                else:
                    l = T('tmp', -7, (f.id, vid))
                    if l not in st:
                        st[l] = t
                    caps[vid] = l
            return self.call_fn(fr, key, fn, f.args[1], args, st, caps=caps, kind=kind)
        if f.op == 'fn':
            fn = self.fns.get(f.args[0])
            if fn is None:
                return None
            if fn.get('cls') and not fn.get('static') and args:
                return self.call_fn(fr, key, fn, self.read(st, args[0]), args[1:], st, kind=kind)
            return self.call_fn(fr, key, fn, None, args, st, kind=kind)
        if f.op == 'bind':
            g = f.args[0]
            bound = []
            for a in f.args[1:]:
                if a.op == 'glob' and 'placeholders::_' in a.args[0]:
                    i = int(a.args[0].split('_')[-1]) - 1
                    bound.append(args[i] if i < len(args) else None)
                else:
                    bound.append(a)
            return self.call_value(fr, nid, g, bound, st, kind=kind, sub=sub)
        if f.op == 'obj':
            # functor object: find operator()
            ck = strip_type(f.args[2])
            for k, fn in self.fns.items():
                if fn.get('cls') == rec_of(ck) and fn['qname'].endswith('::operator()') and self.ckey(fn) == ck:
                    return self.call_fn(fr, key, fn, f, args, st, kind=kind)
        return None

    def maycall(self, fr, nid, f, st, nargs=4, args=None):
        """A callback that an opaque library call may invoke any number of times."""
        if f.op not in ('lam', 'bind', 'obj', 'fn'):
            return
        if f.op == 'fn' and self.fns.get(f.args[0]) is None:
            return
        for _ in range(3):
            before = st.copy()
            mark = len(self.cur)
            a = args or [T('res', fr.id, (nid, 'cb', i), 'callback argument') for i in range(nargs)]
            self.call_value(fr, nid, f, a, st, kind='maycall', sub='cb')
            self.dead = False
            m = self.merge(fr, ('cb', nid), [(0, before), (1, st.copy())], True)
            same = m == before
            st.clear()
            st.update(m)
            if same:
                break
            del self.cur[mark:]
        else:
            self.call_value(fr, nid, f, args or [T('res', fr.id, (nid, 'cb', i), 'callback argument')
                                                  for i in range(nargs)], st, kind='maycall', sub='cb')
            self.dead = False

    # -- expressions ---------------------------------------------------------
    def val(self, fr, nid, st):
        v = fr.vals.get(nid)
        if v is None:
            v = self.eval_tree(fr, nid, st)
        return v

    def rd(self, fr, nid, st):
        v = self.val(fr, nid, st)
        if is_loc(v):
            self.note_read(fr, nid, v)
            return self.read(st, v)
        return v

    def note_read(self, fr, nid, l):
        r = root(l)
        if self.record_reads and not (r.op in ('var', 'tmp') and l.op in ('var', 'tmp')):
            o = self.emit('read', fr, nid)
            o.loc = l

    def objloc(self, st, l):
        """Redirect a location holding a by-value record object to that object."""
        if l.op in ('var', 'tmp', 'f', 'v'):
            v = st.get(l) if l.op != 'v' else None
            if v is not None and v.op == 'obj':
                return mem(v)
        if not is_loc(l):
            if l.op == 'obj':
                return mem(l)
        return l

    def eval(self, fr, nid, st):
        n = fr.fn['nodes'][nid]
        k = n['k']
        if 'cv' in n and k not in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') or                 ('cv' in n and k == 'BinaryOperator' and '=' != n.get('op')) or                 ('cv' in n and k == 'UnaryOperator' and n.get('op') not in ('++', '--')):
            return const(n['cv'])
        m = getattr(self, 'ev_' + k, None)
        if m is not None:
            return m(fr, nid, n, st)
        if 'ck' in n:
            return self.ev_cast(fr, nid, n, st)
        c = n.get('c', ())
        if 't' in n and len(c) == 1:
            return self.val(fr, c[0], st)
        if 't' in n:
            return T('unknown', fr.fn['key'], nid)
        return None

    def ev_DeclRefExpr(self, fr, nid, n, st):
        if 'v' in n:
            l = fr.env.get(n['v'])
            if l is None:
                l = self.varloc(fr, n['v'], n.get('name', '?'))
            return l
        if 'g' in n:
            g = self.F.globals.get(n['g'])
            l = T('glob', n['g'])
            return l
        if 'f' in n:
            return T('fn', n['f'], n['n'])
        if 'e' in n:
            return T('enum', n['e'])
        return T('unknown', fr.fn['key'], nid)

    def ev_CXXThisExpr(self, fr, nid, n, st):
        return fr.this if fr.this is not None else T('this', '?')

    def ev_MemberExpr(self, fr, nid, n, st):
        if 'g' in n:
            return T('glob', n['g'])
        if 'mcls' not in n:
            return None
        b = self.val(fr, n['c'][0], st)
        if n.get('ar'):
            p = self.rd(fr, n['c'][0], st) if is_loc(b) else b
            base = mem(p)
        else:
            base = b
        base = self.objloc(st, base)
        if not is_loc(base):
            v = T('fld', base, n['m'])
            return v
        l = fld(base, n['m'], n['mcls'])
        if n.get('mrk') in ('r', 'cr', 'rr'):
            self.note_read(fr, nid, l)
            l = mem(self.read(st, l))
        return l

    def ev_cast(self, fr, nid, n, st):
        ck = n['ck']
        c = n['c'][0]
        v = self.val(fr, c, st)
        if ck == 'LValueToRValue':
            if is_loc(v):
                self.note_read(fr, nid, v)
                return self.read(st, v)
            return v
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return op2('!=', self.read(st, v), const(0))
        if ck == 'FloatingToIntegral':
            v = self.read(st, v)
            return v if v.op == 'const' else T('op', 'trunc', v)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return const(0)
        if ck == 'ArrayToPointerDecay':
            return T('addr', v) if is_loc(v) else v
        if ck == 'ToVoid':
            return v
        if ck in ('BaseToDerived', 'Dynamic'):
            o = self.emit('cast', fr, nid)
            o.name = ck
            o.val = v
            o.extra = n['t']
            return T('dyncast', n['t'], v) if ck == 'Dynamic' and not is_loc(v) else v
        if n.get('ex') and ck in ('BitCast', 'LValueBitCast'):
            return v
        return v

    def passthru(self, fr, nid, n, st):
        c = n['c']
        return self.val(fr, c[0], st) if c else None

    ev_ExprWithCleanups = ev_CXXBindTemporaryExpr = ev_ParenLike = ev_ConstantExpr = passthru
    ev_CXXDefaultInitExpr = ev_CXXDefaultArgExpr = ev_SubstNonTypeTemplateParmExpr = passthru
    ev_CXXStdInitializerListExpr = ev_CXXFunctionalCastExpr_ = passthru

    def ev_CXXDefaultArgExpr(self, fr, nid, n, st):
        return self.eval_tree(fr, n['c'][0], st)

    ev_CXXDefaultInitExpr = ev_CXXDefaultArgExpr

    def ev_MaterializeTemporaryExpr(self, fr, nid, n, st):
        v = self.val(fr, n['c'][0], st)
        if v is None:
            return None
        if is_loc(v):
            return v
        if v.op == 'obj':
            return mem(v)
        l = T('tmp', fr.id, nid)
        st[l] = v
        return l

    def ev_IntegerLiteral(self, fr, nid, n, st):
        return const(n['v'])

    ev_CXXBoolLiteralExpr = ev_CharacterLiteral = ev_IntegerLiteral

    def ev_FloatingLiteral(self, fr, nid, n, st):
        return const(n.get('cv', '0'))

    def ev_StringLiteral(self, fr, nid, n, st):
        return T('str', n['s'])

    def ev_CXXNullPtrLiteralExpr(self, fr, nid, n, st):
        return const(0)

    ev_ImplicitValueInitExpr = ev_CXXScalarValueInitExpr = ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_UnaryOperator(self, fr, nid, n, st):
        op = n['op']
        c = n['c'][0]
        v = self.val(fr, c, st)
        if op == '&':
            if is_loc(v):
                return addr(v)
            return v if v.op == 'fn' else T('addr', v)
        if op == '*':
            return mem(self.rd(fr, c, st))
        if op in ('++', '--'):
            old = self.rd(fr, c, st)
            if is_loc(v):
                self.write(st, v, const(1), '+=' if op == '++' else '-=', fr, nid)
            return old if n.get('post') else v
        r = self.rd(fr, c, st)
        if op == '!':
            return neg(r)
        if op == '-':
            if r.op == 'const' and not isinstance(r.args[0], str):
                return const(-r.args[0])
            return T('op', 'neg', r)
        if op == '+':
            return r
        return T('op', op, r)

    def ev_BinaryOperator(self, fr, nid, n, st):
        op = n['op']
        a, b = n['c'][0], n['c'][1]
        if op == '=':
            l = self.val(fr, a, st)
            v = self.rd(fr, b, st)
            if is_loc(l):
                self.write(st, l, v, '=', fr, nid)
            return l
        if op == ',':
            return self.val(fr, b, st)
        if op in ('&&', '||'):
            x = self.read(st, self.val(fr, a, st))
            y = self.read(st, self.val(fr, b, st))
            for p, q in ((x, y), (y, x)):
                if p.op == 'const' and not isinstance(p.args[0], str):
                    if op == '&&':
                        return q if p.args[0] else const(0)
                    return const(1) if p.args[0] else q
            return T('op', op, x, y)
        x = self.rd(fr, a, st)
        y = self.rd(fr, b, st)
        if op in ('.*', '->*'):
            return T('mem', T('op', op, x, y))
        r = op2(op, x, y)
        if op in ('/', '%'):
            o = self.emit('div', fr, nid)
            o.name = op
            o.args = [x, y]
            o.res = r
            o.extra = n['t']
        return r

    def ev_CompoundAssignOperator(self, fr, nid, n, st):
        l = self.val(fr, n['c'][0], st)
        v = self.rd(fr, n['c'][1], st)
        if is_loc(l):
            self.note_read(fr, nid, l)
            if n['op'] in ('/=', '%='):
                o = self.emit('div', fr, nid)
                o.name = n['op'][:-1]
                o.args = [self.read(st, l), v]
                o.extra = n['t']
            self.write(st, l, v, n['op'], fr, nid)
        return l

    def ev_ArraySubscriptExpr(self, fr, nid, n, st):
        p = self.rd(fr, n['c'][0], st)
        i = self.rd(fr, n['c'][1], st)
        l = T('v', mem(p), 'at', i)
        o = self.emit('index', fr, nid)
        o.loc = l
        o.args = [i]
        return l

    def ev_ConditionalOperator(self, fr, nid, n, st):
        c, a, b = n['c']
        cv = self.read(st, self.val(fr, c, st))
        if cv.op == 'const':
            return self.val(fr, a if cv.args[0] else b, st)
        x = fr.vals.get(a)
        y = fr.vals.get(b)
        if x is None:
            x = self.val(fr, a, st)
        if y is None:
            y = self.val(fr, b, st)
        x, y = self.read(st, x), self.read(st, y)
        if x is y:
            return x
        return T('ite', cv, x, y)

    def ev_InitListExpr(self, fr, nid, n, st):
        vals = [self.read(st, self.val(fr, c, st)) for c in n['c']]
        t = n['t']
        if len(vals) == 1 and not self.is_record_type(t) and '[' not in t and 'initializer_list' not in t and                 not rec_of(t).startswith('std::'):
            return vals[0]
        if self.is_record_type(t):
            o = T('obj', fr.id, nid, strip_type(t))
            rec = self.F.records[rec_of(t)]
            for f, v in zip(rec['fields'], vals):
                st[fld(mem(o), f['name'], rec['name'])] = v
            return o
        return T('list', *vals)

    def ev_LambdaExpr(self, fr, nid, n, st):
        caps = []
        this = None
        for c in n['caps']:
            if c.get('this'):
                this = fr.this
                continue
            if 'v' not in c:
                continue
            l = fr.env.get(c['v'])
            if l is None:
                l = self.varloc(fr, c['v'], c['name'])
            if c.get('ref'):
                caps.append((c['v'], 'r', addr(l)))
            else:
                v = None
                if 'init' in c:
                    v = self.val(fr, c['init'], st)
                v = self.read(st, v if v is not None else l)
                caps.append((c['v'], 'v', v))
        return T('lam', n['lam'], this, tuple(caps))

    def ev_CXXThrowExpr(self, fr, nid, n, st):
        o = self.emit('throw', fr, nid)
        if n['c']:
            o.val = self.val(fr, n['c'][0], st)
            o.extra = fr.fn['nodes'][n['c'][0]]['t']
        self.dead = True
        return None

    def ev_ReturnStmt(self, fr, nid, n, st):
        o = self.emit('ret', fr, nid)
        if n['c']:
            v = self.val(fr, n['c'][0], st)
            if v is not None:
                if fr.fn['rk'] in ('r', 'cr', 'rr'):
                    if not is_loc(v):
                        l = T('tmp', fr.id, ('rr', nid))
                        st[l] = v
                        v = l
                    o.loc = v
                    v = addr(v)
                else:
                    if is_loc(v):
                        self.note_read(fr, nid, v)
                    o.loc = v
                    v = self.read(st, v)
                o.val = v
                st[self.retloc(fr)] = v
        return None

    def ev_DeclStmt(self, fr, nid, n, st):
        for v in n['vars']:
            l = self.varloc(fr, v['id'], v['name'])
            t = v['t'] or ''
            rn = rec_of(t)
            if v.get('static'):
                x = self.read(st, self.val(fr, v['init'], st)) if 'init' in v else const(0)
                o = self.emit('static', fr, nid)
                o.name = v['name']
                o.val = x
                o.extra = t
                o.how = bool(v.get('tls'))
                sl = T('glob', 'static %s::%s' % (fr.fn['qname'], v['name']))
                o.loc = sl
                fr.env[v['id']] = sl
                if t.startswith('const '):
                    st[sl] = x
                continue
            if 'init' not in v:
                fr.env[v['id']] = l
                st[l] = T('uninit', fr.id, v['id'], v['name'])
                continue
            x = self.val(fr, v['init'], st)
            if x is None:
                x = T('unknown', fr.fn['key'], v['init'])
            if rn in LOCKS or rn == 'std::thread' or strip_type(t) in self.dtors:
                if all(q[0] != v['id'] for q in fr.live):
                    fr.live = fr.live + ((v['id'], strip_type(t), fr.id, nid),)
            if v['rk'] in ('r', 'cr', 'rr'):
                if not is_loc(x):
                    if x.op == 'obj':
                        x = mem(x)
                    else:
                        st[l] = x
                        x = l
                fr.env[v['id']] = x
                o = self.emit('bindref', fr, nid)
                o.name = v['name']
                o.loc = x
                continue
            if x.op == 'obj' and self.is_record_type(t):
                fr.env[v['id']] = mem(x)
                continue
            if is_loc(x) and rn.startswith('Eigen::') and not rn.startswith(
                    ('Eigen::Matrix', 'Eigen::Array')) or (
                    is_loc(x) and rn in ('Eigen::MatrixWrapper', 'Eigen::ArrayWrapper')):
                fr.env[v['id']] = x
                o = self.emit('bindref', fr, nid)
                o.name = v['name']
                o.loc = x
                continue
            fr.env[v['id']] = l
            if is_loc(x):
                self.note_read(fr, nid, x)
            val = self.read(st, x)
            if rn == 'Eigen::Matrix' or rn == 'Eigen::Array':
                pass
            st[l] = val
            o = self.emit('write', fr, nid)
            o.loc = l
            o.val = o.res = val
            o.how = 'init'
            o.name = v['name']
            o.extra = t
        return None

    def ev_CXXNewExpr(self, fr, nid, n, st):
        t = n.get('nt_') or ''
        for c in n['c']:
            v = self.val(fr, c, st)
            if v is not None and v.op == 'obj':
                return v
        o = T('obj', fr.id, nid, strip_type(t))
        if n['c'] and v is not None and v.op == 'new':
            st[mem(o)] = v
        return o

    def ev_CXXDeleteExpr(self, fr, nid, n, st):
        o = self.emit('call', fr, nid)
        o.name = 'operator delete'
        o.args = [self.rd(fr, n['c'][0], st)]
        return None

    # -- construction ----------------------------------------------------------
    def base_inits(self, fn):
        s = fn.get('_binit')
        if s is None:
            s = set()
            for b in fn['blocks']:
                for e in b['els']:
                    if isinstance(e, dict) and e['e'] == 'init' and ('base' in e or 'deleg' in e):
                        x = e['x']
                        while True:
                            n = fn['nodes'].get(x)
                            if n is None:
                                break
                            if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                                s.add(x)
                                break
                            if not n.get('c'):
                                break
                            x = n['c'][0]
            fn['_binit'] = s
        return s

    def ev_CXXConstructExpr(self, fr, nid, n, st):
        return self.construct(fr, nid, n, st)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def construct(self, fr, nid, n, st):
        cls = n.get('cls') or ''
        args = [self.val(fr, a, st) for a in n['a']]
        name = n['n']
        t = n['t']
        ev = fr.fn['nodes']

        def vals():
            return [self.rd(fr, a, st) for a in n['a']]
        if cls in self.F.records:
            if nid in self.base_inits(fr.fn):
                this = fr.this
                fn = self.fns.get(n['f'])
                if fn is None:
                    return this
                self.call_fn(fr, nid, fn, this, args, st)
                return this
            fn = self.fns.get(n['f'])
            if n.get('cm') and fn is None:
                v = self.read(st, args[0])
                if n['cm'] == 'copy' and v.op == 'obj' and is_loc(args[0]) and args[0].op != 'tmp':
                    return self.copy_obj(fr, nid, v, st)
                if is_loc(args[0]) and args[0].op in ('mem', 'var', 'f') and v.op != 'obj':
                    return args[0]
                return v
            return self.new_obj(fr, nid, strip_type(t), fn, args, st, name)
        if cls.startswith('lambda@'):
            return self.read(st, args[0]) if args else T('unknown', fr.fn['key'], nid)
        if cls in SMART or cls in ('std::function',):
            if not args:
                return const(0)
            return self.read(st, args[0])
        if cls.startswith('Eigen::'):
            if not args:
                return T('E0', strip_type(t))
            if cls == 'Eigen::Ref' and len(args) == 2:
                # the second parameter is the enable_if dummy of Eigen's converting constructors
                args = args[:1]
            if len(args) == 1:
                at = ev[n['a'][0]]['t']
                if not self.is_int_type(at):
                    if cls in ('Eigen::Ref', 'Eigen::Map', 'Eigen::Block', 'Eigen::VectorBlock') or                             not cls.startswith(('Eigen::Matrix', 'Eigen::Array')):
                        return args[0]
                    if is_loc(args[0]):
                        self.note_read(fr, nid, args[0])
                    return self.read(st, args[0])
            v = vals()
            if all(self.is_int_type(ev[a]['t']) for a in n['a']):
                return T('alloc', strip_type(t), *v)
            return T('E', 'ctor:' + cls, *v)
        if cls == 'std::thread':
            if not args:
                return T('thread0')
            if n.get('cm') or (len(args) == 1 and strip_type(ev[n['a'][0]]['t']) == 'std::thread'):
                return self.read(st, args[0])
            v = vals()
            o = self.emit('spawn', fr, nid)
            o.args = v
            o.locs = args
            r = T('thread', fr.id, nid)
            o.res = r
            return r
        if cls in ('std::tuple', 'std::pair'):
            if n.get('cm') or (len(args) == 1 and rec_of(ev[n['a'][0]]['t']) in ('std::tuple', 'std::pair')):
                if is_loc(args[0]):
                    self.note_read(fr, nid, args[0])
                return self.read(st, args[0])
            return T('tuple', *vals())
        if cls == 'std::basic_string':
            v = vals()
            if not v:
                return T('str', '')
            if len(v) == 1 or (len(v) == 2 and rec_of(ev[n['a'][1]]['t']) == 'std::allocator'):
                return v[0]
            return T('call', 'std::string', *v)
        if cls in CONT:
            v = vals()
            v = [x for x, a in zip(v, n['a']) if rec_of(ev[a]['t']) not in ('std::allocator',)]
            if not v:
                return T('list')
            if n.get('cm') or rec_of(ev[n['a'][0]]['t']) in ('std::initializer_list', cls):
                return v[0]
            if len(v) == 1:
                return T('sized', v[0])
            if len(v) == 2 and self.is_int_type(ev[n['a'][0]]['t']):
                return T('sized', v[0], v[1])
            o = self.emit('call', fr, nid)
            o.name = name
            o.args = v
            o.locs = args
            return T('call', cls, *v)
        if cls in ITER and args:
            return self.read(st, args[0])
        v = vals()
        o = self.emit('call', fr, nid)
        o.name = name
        o.args = v
        o.locs = args
        if cls in LOCKS:
            if n.get('cm') == 'move':
                return v[0]
            r = T('lockobj', fr.id, nid, cls, tuple(args))
            o.res = r
            o.kind = 'lock'
            return r
        if n.get('cm'):
            o.res = v[0]
            return v[0]
        r = T('new', cls, *v)
        for i, a in enumerate(args):
            pk = n['pk'][i] if i < len(n['pk']) else 'v'
            if pk in ('r',) and is_loc(a):
                self.havoc(st, a, fr, nid, i)
        o.res = r
        return r

    @staticmethod
    def is_int_type(t):
        return strip_type(t) in ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long',
                                 'short', 'unsigned short', 'char', 'signed char', 'unsigned char', 'bool')

    def copy_obj(self, fr, nid, v, st):
        o = T('obj', fr.id, nid, v.args[2])
        a, b = mem(v), mem(o)
        for k in list(st):
            if k.op == 'f' and k.args[0] is a:
                st[fld(b, k.args[1], k.args[2])] = st[k]
        return o

    def new_obj(self, fr, nid, t, fn, args, st, name):
        o = T('obj', fr.id, nid, t)
        base = mem(o)
        for k in [k for k in st if k.op == 'f' and root(k) is base]:
            del st[k]
        if fn is not None:
            self.call_fn(fr, nid, fn, o, args, st)
        else:
            e = self.emit('call', fr, nid)
            e.name = name
            e.obj = o
            e.args = [self.read(st, a) for a in args]
            e.locs = args
            # implicit default constructor: construct the bases that have bodies
            for b in self.F.records.get(rec_of(t), {}).get('bases', ()):
                for c in self.all_bases(b):
                    ta = targs_of(t)
                    for ck, fs in self.ctors.items():
                        if rec_of(ck) == c and (not targs_of(ck) or not ta or targs_of(ck)[0] == ta[0]):
                            for f in fs:
                                if not f['params'] and self.in_chain(fr, f['key']) == 0:
                                    self.call_fn(fr, (nid, ck), f, o, [], st)
        return o

    def pick_ctor(self, t, fa, nargs):
        """constructor chosen by make_shared<t>(args of types fa)"""
        ck = strip_type(t)
        best, score = None, None
        for f in self.ctors.get(ck, []):
            ps = f['params']
            if len(ps) < nargs:
                continue
            if any('def' not in p for p in ps[nargs:]):
                continue
            s = 0
            for p, a in zip(ps, fa):
                pt, at = strip_type(p['t'] or ''), strip_type(a)
                if pt == at:
                    s += 4
                elif rec_of(pt) == rec_of(at):
                    s += 3
                elif rec_of(pt).startswith('Eigen::') and rec_of(at).startswith('Eigen::'):
                    s += 2
                elif rec_of(pt).startswith('Eigen::') != rec_of(at).startswith('Eigen::'):
                    s -= 6
                elif ('shared_ptr' in pt) != ('shared_ptr' in at):
                    s -= 6
                elif self.is_int_type(pt) and self.is_int_type(at):
                    s += 2
            s -= abs(len(ps) - nargs) * 0.1
            if score is None or s > score:
                best, score = f, s
        return best

    # -- calls -------------------------------------------------------------------
    def ev_CXXMemberCallExpr(self, fr, nid, n, st):
        return self.ev_call(fr, nid, n, st)

    ev_CXXOperatorCallExpr = ev_CallExpr = ev_CXXMemberCallExpr
    ev_UserDefinedLiteral = ev_CXXMemberCallExpr

    def ev_call(self, fr, nid, n, st):
        name = n.get('n', '?')
        cls = n.get('cls') or ''
        args = [self.val(fr, a, st) for a in n['a']]
        args = [a if a is not None else T('unknown', fr.fn['key'], nid) for a in args]
        obj = None
        if 'o' in n:
            o = self.val(fr, n['o'], st)
            if o is None:
                o = T('unknown', fr.fn['key'], nid)
            if n.get('ar') and n['k'] == 'CXXMemberCallExpr':
                p = self.rd(fr, n['o'], st)
                obj = mem(p)
            else:
                obj = o
            obj = self.objloc(st, obj)
        short = name.split('::')[-1]
        key = n.get('f')
        fn = self.fns.get(key) if key else None
        # calls through values
        if name == '?' and 'ce' in n:
            f = self.rd(fr, n['ce'], st)
            r = self.call_value(fr, nid, f, args, st)
            if r is not None:
                return r
            return self.opaque_call(fr, nid, n, st, obj, args)
        if short == 'operator()' and obj is not None:
            f = self.read(st, obj)
            if f.op in ('lam', 'bind', 'fn') or (f.op == 'obj' and cls == 'std::function'):
                r = self.call_value(fr, nid, f, args, st)
                if r is not None:
                    return r
        if fn is not None or (key and (n.get('virt') or n.get('mv'))):
            this = addr(obj) if obj is not None and is_loc(obj) else obj
            if this is not None and this.op == 'addr' and fn is not None:
                self.obj_types.setdefault(this.args[0], None)
            if n.get('virt') and this is not None:
                dyn = self.dyn_class(this)
                if dyn is not None:
                    k2 = self.resolve_virtual(key, dyn)
                    fn2 = self.fns.get(k2) if k2 else None
                    if fn2 is not None:
                        return self.call_fn(fr, nid, fn2, this, args, st, name=name)
                    if fn is None:
                        return self.opaque_call(fr, nid, n, st, obj, args)
                elif fn is None or self.overriders(key):
                    return self.opaque_call(fr, nid, n, st, obj, args)
            if fn is not None:
                return self.call_fn(fr, nid, fn, this, args, st)
            return self.opaque_call(fr, nid, n, st, obj, args)
        if cls in self.F.records and short == 'operator=':
            v = self.read(st, args[0])
            if obj is not None and is_loc(obj):
                self.write(st, obj, v, '=', fr, nid)
            return obj
        r = self.model(fr, nid, n, st, name, short, cls, obj, args)
        if r is not NotImplemented:
            return r
        return self.opaque_call(fr, nid, n, st, obj, args)

    IMPURE = {'std::time', 'time', 'rand', 'std::rand', 'clock', 'std::clock', 'random', 'std::this_thread::get_id',
              'std::chrono::_V2::system_clock::now', 'std::chrono::system_clock::now'}

    ALGO = {'iota': 0, 'shuffle': 0, 'random_shuffle': 0, 'sort': 0, 'stable_sort': 0, 'partial_sort': 0, 'reverse': 0,
            'rotate': 0, 'next_permutation': 0, 'prev_permutation': 0, 'fill': 0, 'fill_n': 0, 'generate': 0,
            'generate_n': 0, 'replace': 0, 'unique': 0, 'remove': 0, 'remove_if': 0, 'partition': 0, 'nth_element': 0,
            'copy': 2, 'copy_n': 2, 'transform': 'last', 'partial_sum': 2, 'swap_ranges': 0}

    def writable_ref(self, fr, n, i):
        """argument i is an Eigen::Ref that the callee can write through"""
        t = fr.fn['nodes'][n['a'][i]]['t'] if i < len(n['a']) else None
        return bool(t) and rec_of(t) == 'Eigen::Ref' and bool(targs_of(t)) and not targs_of(t)[0].startswith('const')

    def opaque_call(self, fr, nid, n, st, obj, args):
        name = n.get('n', '?')
        o = self.emit('call', fr, nid)
        o.name = name
        o.callee = n.get('f')
        o.obj = obj
        o.locs = args
        for a in n['a']:
            if is_loc(self.val(fr, a, st)):
                self.note_read(fr, a, self.val(fr, a, st))
        vals = [self.read(st, a) for a in args]
        o.args = vals
        o.extra = 'virt' if n.get('virt') else None
        pk = n.get('pk', [])
        # callbacks handed to library code
        if name.startswith('std::') and not name.startswith(('std::thread', 'std::bind', 'std::function')):
            for v in vals:
                if v.op in ('lam', 'bind', 'obj'):
                    self.maycall(fr, nid, v, st)
        impure = name in self.IMPURE or (name.startswith('std::') and ('random_device' in name or '::now' in name))
        objv = None
        if obj is not None:
            objv = self.read(st, obj)
            if not n.get('mc') and not n.get('ms'):
                impure = True
                if is_loc(obj):
                    self.havoc(st, obj, fr, nid, -1)
        for i, a in enumerate(args):
            k = pk[i] if i < len(pk) else 'v'
            if k in ('r', 'rr') and is_loc(a):
                impure = True
                self.havoc(st, a, fr, nid, i)
            elif k == 'v' and a is not None and is_loc(a) and self.writable_ref(fr, n, i):
                impure = True
                self.havoc(st, a, fr, nid, i)
            elif k == 'p' and a is not None:
                v = vals[i]
                if v.op == 'addr' or v.op in ('obj',):
                    l = mem(v)
                    self.havoc(st, l, fr, nid, i)
                impure = True
        short = name.split('::')[-1]
        if name.startswith('std::') and short in self.ALGO:
            # algorithms that change the range they are given
            k = self.ALGO[short]
            its = [i for i, v in enumerate(vals) if v.op == 'iter']
            i = its[-1] if k == 'last' and its else k if k != 'last' else -1
            if i in its:
                l = vals[i].args[0]
                self.write(st, l, T('algo', short, self.read(st, l), *[v for v in vals]), '=', fr, nid)
        rt = n.get('rt')
        if impure or n.get('virt') and not n.get('mc'):
            r = T('res', fr.id, nid, name)
            self.resinfo[r] = o
        else:
            r = T('call', name, *(([objv] if objv is not None else []) + vals))
        o.res = r
        short = name.split('::')[-1]
        if n.get('rk') in ('r', 'cr', 'rr'):
            if short in ('operator=', 'operator<<', 'operator>>', 'operator+=', 'operator-=', 'write', 'read', 'flush',
                         'put', 'seekg', 'seekp', 'getline', 'append', 'assign', 'insert', 'replace', 'erase'):
                if obj is not None and is_loc(obj):
                    return obj
                if args and is_loc(args[0]):
                    return args[0]
            return mem(r)
        return r

    # -- library models ----------------------------------------------------------
    PURE_MATH = {'exp', 'log', 'sqrt', 'fabs', 'abs', 'pow', 'floor', 'ceil', 'lgamma', 'tgamma', 'isnan', 'isinf',
                 'isfinite', 'round', 'max', 'min', 'log1p', 'expm1', 'fmod', 'cos', 'sin', 'tanh', 'trunc', 'fmax',
                 'fmin', 'nearbyint', 'lround', 'digamma_'}

    def model(self, fr, nid, n, st, name, short, cls, obj, args):
        rd = lambda a: (self.note_read(fr, nid, a), self.read(st, a))[1] if is_loc(a) else a
        if cls.startswith('Eigen::') or name.startswith('Eigen::'):
            return self.eigen(fr, nid, n, st, name, short, cls, obj, args)
        nodes = fr.fn['nodes']
        if name in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::move_if_noexcept'):
            if name == 'std::move' and is_loc(args[0]):
                o = self.emit('move', fr, nid)
                o.loc = args[0]
                o.extra = nodes[n['a'][0]]['t']
            return args[0]
        if name in ('std::addressof', 'std::__addressof'):
            return addr(args[0]) if is_loc(args[0]) else T('addr', args[0])
        if name in ('std::make_shared', 'std::make_unique', 'std::allocate_shared'):
            t = n['fa'][0]
            at = [nodes[a]['t'] for a in n['a']]
            if rec_of(t) in self.F.records:
                fn = self.pick_ctor(t, at, len(args))
                return self.new_obj(fr, nid, strip_type(t), fn, args, st, rec_of(t) + '::ctor')
            r = T('obj', fr.id, nid, strip_type(t))
            v = [rd(a) for a in args]
            o = self.emit('call', fr, nid)
            o.name = rec_of(t) + '::' + rec_of(t).split('::')[-1]
            o.obj = r
            o.args = v
            o.locs = args
            if rec_of(t).startswith('std::') and rec_of(t) not in CONT:
                st[mem(r)] = T('new', rec_of(t), *v)
            return r
        if name in ('std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::const_pointer_cast',
                    'std::reinterpret_pointer_cast'):
            v = rd(args[0])
            o = self.emit('cast', fr, nid)
            o.name = short
            o.val = v
            o.extra = n['fa'][0]
            o.args = [nodes[n['a'][0]]['t']]
            o.res = v
            if short.startswith('dynamic'):
                return T('dyncast', n['fa'][0], v)
            return v
        if cls in SMART:
            if short in ('operator->', 'get'):
                return rd(obj)
            if short == 'operator*':
                return mem(rd(obj))
            if short == 'operator bool':
                return op2('!=', rd(obj), const(0))
            if short == 'operator=':
                self.write(st, obj, rd(args[0]), '=', fr, nid)
                return obj
            if short == 'reset':
                self.write(st, obj, rd(args[0]) if args else const(0), '=', fr, nid)
                return T('void')
            if short == 'swap' and is_loc(obj) and is_loc(args[0]):
                a, b = rd(obj), rd(args[0])
                self.write(st, obj, b, '=', fr, nid)
                self.write(st, args[0], a, '=', fr, nid)
                return T('void')
            return NotImplemented
        if cls == 'std::function':
            if short == 'operator=':
                self.write(st, obj, rd(args[0]), '=', fr, nid)
                return obj
            if short == 'operator bool':
                return op2('!=', rd(obj), const(0))
            return NotImplemented
        if name == 'std::bind':
            return T('bind', *[rd(a) for a in args])
        if name == 'std::tie':
            return T('tie', *[addr(a) if is_loc(a) else a for a in args])
        if name in ('std::make_tuple', 'std::make_pair', 'std::forward_as_tuple'):
            return T('tuple', *[rd(a) for a in args])
        if name == 'std::get':
            i = n['fa'][0]
            try:
                ix = const(int(i))
            except ValueError:
                ix = T('str', i)
            if is_loc(args[0]):
                return T('v', args[0], 'get', ix)
            return self.view(args[0], 'get', (ix,))
        if cls in ('std::tuple', 'std::pair') and short == 'operator=':
            v = rd(args[0])
            tgt = self.read(st, obj)
            if tgt.op == 'tie':
                for i, a in enumerate(tgt.args):
                    if a.op == 'glob' or not (a.op == 'addr' or is_loc(mem(a))):
                        continue
                    self.write(st, mem(a), self.view(v, 'get', (const(i),)), '=', fr, nid)
            elif is_loc(obj):
                self.write(st, obj, v, '=', fr, nid)
            return obj
        if short in self.PURE_MATH and (name.startswith('std::') or '::' not in name):
            v = [rd(a) for a in args]
            o = self.emit('math', fr, nid)
            o.name = short
            o.args = v
            if short in ('max', 'min', 'fmax', 'fmin') and len(v) == 2:
                if v[0].op == 'const' and v[1].op != 'const' or (v[0].op == v[1].op and v[1] < v[0]):
                    v = [v[1], v[0]]
                o.res = T('op', short[-3:], v[0], v[1])
                return o.res
            o.res = T('call', short, *v)
            return o.res
        if cls in ITER or any(self.is_iter(self.read(st, a)) for a in ([obj] if obj is not None else []) + args
                              if a is not None) and n.get('op') and cls not in CONT:
            r = self.iter_op(fr, nid, n, st, short, obj, args)
            if r is not NotImplemented:
                return r
        if name in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size'):
            return self.container(fr, nid, n, st, short, args[0], [])
        if name in ('std::next', 'std::prev'):
            v = rd(args[0])
            if self.is_iter(v):
                by = rd(args[1]) if len(args) > 1 else const(1)
                return T('iter', v.args[0], op2('+' if short == 'next' else '-', v.args[1], by))
        if cls in CONT or cls in ('std::_Vector_base',) or (cls.startswith('std::') and obj is not None and
                                                             rec_of(nodes[n['o']]['t'] if 'o' in n else '') in CONT):
            r = self.container(fr, nid, n, st, short, obj, args)
            if r is not NotImplemented:
                return r
        if name in ('std::swap',) and len(args) == 2 and is_loc(args[0]) and is_loc(args[1]):
            a, b = rd(args[0]), rd(args[1])
            self.write(st, args[0], b, '=', fr, nid)
            self.write(st, args[1], a, '=', fr, nid)
            return T('void')
        if cls == 'std::thread':
            if short == 'operator=':
                v = rd(args[0])
                self.write(st, obj, v, '=', fr, nid)
                return obj
            return NotImplemented
        if n.get('op') in ('==', '!=', '<', '<=', '>', '>=') and len(args) + (obj is not None) == 2:
            v = [rd(a) for a in ([obj] if obj is not None else []) + args]
            o = self.emit('call', fr, nid)
            o.name = name
            o.args = v
            o.locs = args
            o.res = op2(n['op'], v[0], v[1])
            return o.res
        if n.get('op') == '!' and obj is not None:
            o = self.emit('call', fr, nid)
            o.name = name
            o.obj = obj
            o.args = []
            o.locs = []
            o.res = neg(T('call', cls + '::good', rd(obj)))
            return o.res
        if short == 'operator bool' and obj is not None:
            o = self.emit('call', fr, nid)
            o.name = name
            o.obj = obj
            o.args = []
            o.locs = []
            o.res = T('call', cls + '::good', rd(obj))
            return o.res
        if n.get('op') == '=' and obj is not None and is_loc(obj) and len(args) == 1:
            v = rd(args[0])
            self.write(st, obj, v, '=', fr, nid)
            return obj
        if n.get('op') == '+' and (cls == 'std::basic_string' or name == 'std::operator+'):
            v = [rd(a) for a in ([obj] if obj is not None else []) + args]
            return T('call', 'concat', *v)
        if name in ('std::for_each',) and len(args) == 3:
            return NotImplemented
        return NotImplemented

    @staticmethod
    def is_iter(v):
        return v.op == 'iter'

    def iter_op(self, fr, nid, n, st, short, obj, args):
        vs = ([obj] if obj is not None else []) + args
        rv = [self.read(st, a) for a in vs]
        a = rv[0]
        op = n.get('op')
        if op in ('==', '!=', '<', '<=', '>', '>=') and len(rv) == 2:
            b = rv[1]
            if a.op == 'iter' and b.op == 'iter' and a.args[0] is b.args[0]:
                return op2(op, a.args[1], b.args[1])
            return op2(op, a, b)
        if op == '*' and len(rv) == 1:
            if a.op == 'iter':
                return T('v', a.args[0], 'at', a.args[1])
            return mem(a)
        if op == '->':
            if a.op == 'iter':
                return addr(T('v', a.args[0], 'at', a.args[1]))
            return a
        if op in ('++', '--'):
            d = '+' if op == '++' else '-'
            if is_loc(vs[0]):
                o = self.emit('iter', fr, nid)
                o.name = op
                o.loc = vs[0]
                o.val = a
                if a.op == 'iter':
                    nv = T('iter', a.args[0], op2(d, a.args[1], const(1)))
                elif a.op == 'phi':
                    nv = T('iternext', op, a)
                else:
                    nv = T('iternext', op, a)
                st[store_loc(vs[0])] = nv
                o.res = nv
            return a if len(rv) == 2 else vs[0]
        if op in ('+', '-') and len(rv) == 2:
            b = rv[1]
            if a.op == 'iter' and b.op == 'iter':
                return op2('-', a.args[1], b.args[1])
            if a.op == 'iter':
                return T('iter', a.args[0], op2(op, a.args[1], b))
            return T('op', 'iter' + op, a, b)
        if op in ('+=', '-=') and a.op == 'iter' and is_loc(vs[0]):
            st[store_loc(vs[0])] = T('iter', a.args[0], op2(op[0], a.args[1], rv[1]))
            return vs[0]
        if op == '[]' and a.op == 'iter':
            return T('v', a.args[0], 'at', op2('+', a.args[1], rv[1]))
        if op == '=' and is_loc(vs[0]):
            self.write(st, vs[0], rv[1], '=', fr, nid)
            return vs[0]
        return NotImplemented

    def size_of(self, v):
        while v.op in ('upd', 'algo'):
            v = v.args[0] if v.op == 'upd' else v.args[1]
        if v.op == 'sized':
            return v.args[0]
        if v.op == 'list':
            return const(len(v.args))
        if v.op == 'cupd' and v.args[1] == 'resize':
            return v.args[2]
        if v.op == 'str':
            return const(len(v.args[0]))
        return T('E', 'size', v)

    def container(self, fr, nid, n, st, short, obj, args):
        rd = lambda a: (self.note_read(fr, nid, a), self.read(st, a))[1] if is_loc(a) else a
        l = obj
        isl = is_loc(l)
        if short in ('begin', 'cbegin'):
            if isl:
                self.note_read(fr, nid, l)
            return T('iter', l, const(0))
        if short in ('end', 'cend'):
            if isl:
                self.note_read(fr, nid, l)
            return T('iter', l, self.size_of(self.read(st, l)))
        if short in ('size', 'length'):
            return self.size_of(rd(l))
        if short == 'empty':
            return op2('==', self.size_of(rd(l)), const(0))
        if short in ('operator[]', 'at'):
            i = rd(args[0])
            o = self.emit('index', fr, nid)
            o.name = short
            x = T('v', l, 'at', i) if isl else self.view(l, 'at', (i,))
            o.loc = x
            o.args = [i]
            return x
        if short == 'front':
            if isl:
                self.note_read(fr, nid, l)
            o = self.emit('index', fr, nid)
            o.name = short
            x = T('v', l, 'at', const(0)) if isl else self.view(l, 'at', (const(0),))
            o.loc = x
            o.args = [const(0)]
            return x
        if short == 'back':
            if isl:
                self.note_read(fr, nid, l)
            i = op2('-', self.size_of(self.read(st, l)), const(1))
            return T('v', l, 'at', i) if isl else self.view(l, 'at', (i,))
        if short == 'data':
            return T('addr', l) if isl else T('call', 'data', l)
        if short == 'c_str':
            return rd(l)
        if short in ('find', 'count', 'lower_bound', 'upper_bound') and n.get('cls') != 'std::basic_string':
            v = rd(l)
            a = [rd(x) for x in args]
            if short == 'count':
                return T('call', 'count', v, *a)
            return T('iter', l, T('call', short, v, *a))
        if short == 'operator=' and isl:
            self.write(st, l, rd(args[0]), '=', fr, nid)
            return l
        if short in MUTATING_STD and isl:
            o = self.emit('call', fr, nid)
            o.name = n['n']
            o.obj = l
            o.locs = args
            vals = [rd(a) for a in args]
            o.args = vals
            old = self.read(st, l)
            sl = store_loc(l)
            et = targs_of(n.get('ot') or (fr.fn['nodes'][n['o']]['t'] if 'o' in n else ''))
            elem = et[0] if et else ''
            if short in ('emplace_back', 'emplace_front', 'emplace', 'push_back', 'push_front', 'push'):
                if rec_of(elem) in ('std::tuple', 'std::pair') and len(vals) != 1:
                    v = T('tuple', *vals)
                elif rec_of(elem) == 'std::thread' and not (len(vals) == 1 and vals[0].op in ('thread', 'thread0')):
                    s = self.emit('spawn', fr, nid)
                    s.args = vals
                    s.locs = args
                    v = T('thread', fr.id, nid)
                    s.res = v
                elif len(vals) == 1:
                    v = vals[0]
                elif rec_of(elem) in self.F.records:
                    at = [fr.fn['nodes'][a]['t'] for a in n['a']]
                    v = self.new_obj(fr, nid, strip_type(elem), self.pick_ctor(elem, at, len(args)), args, st,
                                     rec_of(elem) + '::ctor')
                else:
                    v = T('tuple', *vals)
                o.val = v
                nv = T('cupd', old, 'push_front' if 'front' in short else 'push_back', v)
            elif short == 'clear':
                nv = T('list')
            else:
                nv = T('cupd', old, short, *vals)
            if short == 'swap' and is_loc(args[0]):
                st[store_loc(args[0])] = old
                nv = vals[0]
            elif short == 'splice' and len(args) >= 2 and is_loc(args[1]):
                if len(args) == 2:
                    src = vals[1]
                    st[store_loc(args[1])] = T('list')
                    nv = src if old.op == 'list' and not old.args else T('cupd', old, 'splice', src)
            if l.op == 'v':
                st[sl] = T('upd', self.read(st, sl), ((l.args[1],) + tuple(l.args[2:]),), '=', nv)
            else:
                st[sl] = nv
            o.res = nv
            if short == 'erase':
                if vals and vals[0].op == 'iter':
                    o.res = T('iter', l, vals[0].args[1])
                else:
                    o.res = T('res', fr.id, nid, n['n'])
                return o.res
            if short in ('insert', 'emplace'):
                return T('res', fr.id, nid, n['n'])
            return T('void')
        return NotImplemented

    def dims(self, v, which):
        """structural simplification of rows()/cols()/size()"""
        while v.op == 'upd':
            v = v.args[0]
        if v.op == 'filled' and len(v.args) > 1:
            return self.dims(v.args[1], which)
        t = None
        if v.op == 'alloc':
            t, a = v.args[0], v.args[1:]
        elif v.op == 'S':
            t, a = v.args[0], v.args[2:]
            if v.args[1] == 'Constant':
                a = a[:-1]
        if t is not None:
            ta = targs_of(t)
            if len(a) == 2:
                if which == 'rows':
                    return a[0]
                if which == 'cols':
                    return a[1]
            elif len(a) == 1 and len(ta) >= 3:
                if ta[2] == '1':
                    return {'rows': a[0], 'cols': const(1), 'size': a[0]}[which]
                if ta[1] == '1':
                    return {'cols': a[0], 'rows': const(1), 'size': a[0]}[which]
        return T('E', which, v)

    def eigen(self, fr, nid, n, st, name, short, cls, obj, args):
        nodes = fr.fn['nodes']
        rd = lambda a: (self.note_read(fr, nid, a), self.read(st, a))[1] if is_loc(a) else a
        op = n.get('op')
        if n.get('ms') or obj is None and op is None:
            v = [rd(a) for a in args]
            if short in ('Random',):
                o = self.emit('call', fr, nid)
                o.name = name
                o.args = v
                o.locs = args
                r = T('res', fr.id, nid, name)
                self.resinfo[r] = o
                return r
            if n.get('ms'):
                return T('S', strip_type(n['t']) if 'CwiseNullaryOp' not in n['t'] else self.nullary_type(n['t']),
                         short, *v)
            o = self.emit('ecall', fr, nid)
            o.name = name
            o.args = v
            o.locs = args
            o.res = T('E', short, *v)
            return o.res
        if op in ('=', '+=', '-=', '*=', '/=') and obj is not None:
            v = rd(args[0])
            if op != '=' and is_loc(obj):
                self.note_read(fr, nid, obj)
            if op in ('/=',):
                o = self.emit('div', fr, nid)
                o.name = '/'
                o.args = [self.read(st, obj) if is_loc(obj) else obj, v]
                o.extra = n['t']
                o.how = 'eigen'
            if is_loc(obj):
                w = self.write(st, obj, v, op, fr, nid)
                if w is not None:
                    w.extra = 'eigen'
            return obj
        if op is not None and short.startswith('operator') and short not in ('operator()', 'operator[]'):
            vs = ([obj] if obj is not None else []) + args
            if op == '<<' and is_loc(vs[0]):
                self.write(st, vs[0], T('list', *[rd(a) for a in vs[1:]]), '=', fr, nid)
                return vs[0]
            if op == ',':
                return vs[0]
            v = [rd(a) for a in vs]
            if len(v) == 1:
                r = T('op', 'neg' if op == '-' else op, v[0])
            elif op == '*' and 'Eigen::Product' in n['t'][:20]:
                r = T('op', '@', v[0], v[1])
            else:
                r = op2(op, v[0], v[1])
            o = self.emit('div' if op == '/' else 'eop', fr, nid)
            o.name = op
            o.args = v
            o.res = r
            o.extra = n['t']
            o.how = 'eigen'
            o.locs = vs
            return r
        if obj is None:
            return NotImplemented
        if short in IDENT_VIEWS:
            return obj
        if short in ('cast', 'operator const Eigen::Matrix', 'real', 'lhs', 'rhs_', 'template cast'):
            return rd(obj) if short == 'cast' else T('E', short, rd(obj))
        if short in ('operator()', 'operator[]', 'coeff', 'coeffRef') and args and                 all(self.is_int_type(nodes[a]['t']) for a in n['a']):
            a = tuple(rd(x) for x in args)
            o = self.emit('index', fr, nid)
            o.name = short
            o.args = list(a)
            l = T('v', obj, 'at', *a) if is_loc(obj) else self.view(obj, 'at', a)
            o.loc = l
            o.how = 'eigen'
            return l
        if short in VIEWS:
            a = tuple(rd(x) for x in args)
            o = self.emit('view', fr, nid)
            o.name = short
            o.args = list(a)
            l = T('v', obj, short, *a) if is_loc(obj) else self.view(obj, short, a)
            o.loc = l
            return l
        if short in ('rows', 'cols', 'size'):
            return self.dims(rd(obj), short)
        if short in E_MUT and not n.get('mc') or short in ('swap', 'fill', 'setZero', 'setConstant'):
            v = [rd(a) for a in args]
            if is_loc(obj):
                if short in ('fill', 'setConstant') and len(v) == 1 or short == 'setZero' and not v or                         short == 'setOnes' and not v:
                    c = v[0] if v else const(0 if short == 'setZero' else 1)
                    b = store_loc(obj)
                    if b is obj:
                        w = self.write(st, obj, T('filled', c, self.read(st, obj)), '=', fr, nid)
                    else:
                        w = self.write(st, obj, c, '=', fr, nid)
                elif short == 'swap' and args and is_loc(args[0]):
                    a, b = self.read(st, obj), v[0]
                    self.write(st, obj, b, '=', fr, nid)
                    self.write(st, args[0], a, '=', fr, nid)
                    w = None
                else:
                    w = self.write(st, obj, T('M', short, self.read(st, obj), *v), '=', fr, nid)
                if w is not None:
                    w.extra = 'eigen'
                    w.name = short
            return obj
        v = [rd(a) for a in args]
        ov = rd(obj)
        o = self.emit('ecall', fr, nid)
        o.name = short
        o.obj = obj
        o.args = v
        o.locs = args
        o.val = ov
        pk = n.get('pk', [])
        if short in ('unaryExpr', 'binaryExpr', 'visit'):
            f = v[-1]
            if f.op in ('lam', 'obj'):
                self.maycall(fr, nid, f, st, args=[T('elem', ov)] + [T('elem', x) for x in v[:-1]])
            r = T('E', short, ov, *v)
            o.res = r
            return r
        for i, a in enumerate(v):
            if i < len(pk) and pk[i] == 'p' and (a.op == 'addr'):
                w = self.write(st, mem(a), T('E', 'arg' + short, ov, const(i)), '=', fr, nid)
        if short == 'data':
            r = T('addr', obj) if is_loc(obj) else T('call', 'data', obj)
            o.res = r
            return r
        r = T('E', short, ov, *v)
        o.res = r
        return r

    @staticmethod
    def nullary_type(t):
        ta = targs_of(t)
        return ta[-1] if ta else t
