"""C10, C25: the console applications.

Each application is one program: its main() is interpreted with everything it calls inlined.  The usage text is parsed like docopt does
and gives, per command, the options and arguments it declares.  A command is the part of main() reachable when its own command word is
set and the others are not.  Reading an option is a lookup in the map docopt returned; the settings are the calls of the builder, the
listeners and the file functions, and the rules compare which option stands at each of their arguments with the documented one."""
import os
import re
from common import *
from rules.r_params import E_ROLES, M_ROLES

REAL = {'--e_step_tolerance', '--m_step_tolerance', '--supervised_weight', '--compute_likelihood', '--regularization_penalty',
        '--momentum', '--learning_rate', '--beta_weight'}
ROLE_OPT = {'iterations': '--e_step_iterations', 'tolerance': '--e_step_tolerance', 'fixed_point': '--fixed_point_iterations',
            'likelihood': '--compute_likelihood', 'seed': '--random_state', 'supervised_weight': '--supervised_weight',
            'm_iterations': '--m_step_iterations', 'm_tolerance': '--m_step_tolerance', 'regularization': '--regularization_penalty',
            'minibatch': '--batch_size', 'momentum': '--momentum', 'learning_rate': '--learning_rate', 'beta_weight': '--beta_weight'}
SINKS = {'set_iterations': ['--iterations'], 'set_workers': ['--workers'],
         'initialize_topics_random': [None, '--topics', '--random_state'],
         'initialize_topics_seeded': [None, '--topics', None, '--random_state']}
STEPS = {}
for _k, _r in list(E_ROLES.items()) + list(M_ROLES.items()):
    STEPS[_k] = STEPS[_k.replace('get_', 'set_')] = [ROLE_OPT.get(x) for x in _r]
SINKS.update(STEPS)
FLAGS = {'--quiet', '--initialize_random', '--initialize_seeded'}
INT_CONV = {'docopt::value::asLong', 'std::stol', 'std::stoi', 'std::stoul', 'std::stoll', 'std::stoull', 'std::atoi', 'std::atol', 'atoi',
            'atol', 'std::atoll', 'std::strtol', 'strtol'}
REAL_CONV = {'std::stof', 'std::stod', 'std::stold', 'std::atof', 'atof', 'std::strtod', 'strtod', 'std::strtof', 'strtof'}


class Usage(object):
    def __init__(self, text):
        self.commands = {}       # name -> {'opts': set, 'groups': [set], 'args': [..]}
        self.options = {}        # canonical -> (takes value, default or None)
        alias = {}
        m = re.search(r'usage:', text, re.I)
        rest = text[m.end():]
        lines = rest.split('\n')
        pats, cur = [], None
        prog = None
        i = 0
        for i, l in enumerate(lines):
            s = l.strip()
            if not s:
                if cur is not None:
                    break
                continue
            w = s.split()[0]
            if prog is None:
                prog = w
            if w == prog:
                cur = s[len(w):]
                pats.append(cur)
            else:
                pats[-1] += ' ' + s
        desc, blocks = lines[i:], []
        for l in desc:
            s = l.strip()
            if s.startswith('-'):
                blocks.append(s)
            elif s and blocks and blocks[-1] is not None:
                blocks[-1] += '\n' + l
            elif not s:
                blocks.append(None)
        for b in blocks:
            if not b:
                continue
            head, _, tail = b.partition('  ')
            names = [x for x in re.split(r'[,\s]+', head) if x.startswith('-')]
            canon = max((n.split('=')[0] for n in names), key=len)
            val = any('=' in n for n in names) or any(re.match(r'^[A-Z<]', x) for x in re.split(r'[,\s]+', head) if not x.startswith('-'))
            d = re.search(r'\[default: (.*?)\]', tail, re.I | re.S)
            self.options[canon] = (val, d.group(1) if d else None)
            for n in names:
                alias[n.split('=')[0]] = canon
        for p in pats:
            toks = re.findall(r'\[|\]|\(|\)|\||[^\s\[\]()|]+', p)
            cmd = None
            opts, args = {}, []
            for t in toks:
                if t in '[]()|':
                    continue
                if t.startswith('-'):
                    n, _, v = t.partition('=')
                    n = alias.get(n, n)
                    opts[n] = bool(v)
                    if n not in self.options:
                        self.options[n] = (bool(v), None)
                elif re.match(r'^(<.*>|[A-Z][A-Z0-9_]*)$', t):
                    args.append(t)
                elif cmd is None:
                    cmd = t
                else:
                    args.append(t)
            if cmd is None:
                continue
            c = self.commands.setdefault(cmd, dict(opts=set(), args=[]))
            c['opts'] |= set(opts)
            c['args'] += [a for a in args if a not in c['args']]


class App(object):
    def __init__(self, C, unit):
        self.unit = unit
        self.name = rel(unit)
        D = Ctx.__new__(Ctx)
        D.__dict__.update(C.__dict__)
        D.F = C.F.app(unit)
        D._g = {}
        D.base = Interp(D.F)
        self.C = D
        self.main = [f for f in D.F.functions.values() if f['qname'] == 'main'][0]
        self.g = D.run(self.main)
        C.entries.add(self.main['key'])
        self.docopt = None
        for n in self.g.ops('call'):
            if n.op.name == 'docopt::docopt':
                self.docopt = n.op
                break
        if self.docopt is None:
            raise AnalysisBroken('%s does not call docopt' % unit)
        t = self.docopt.args[0]
        self.text = None
        for s in subterms(t):
            if s.op == 'str':
                self.text = s.args[0]
            elif s.op == 'glob' and s.args[0] in D.F.globals and 's' in D.F.globals[s.args[0]]:
                self.text = D.F.globals[s.args[0]]['s']
        if self.text is None:
            raise AnalysisBroken('usage text of %s not found' % unit)
        self.usage = Usage(self.text)
        self._memo = {}

    # -- option terms
    def is_args(self, t):
        return any(s.op in ('call', 'res') and (s.args[0] == 'docopt::docopt' or s == self.docopt.res) for s in subterms(t))

    def opt_of(self, t):
        """the option looked up by t itself"""
        if t.op == 'E' and t.args[0] in ('at', '[]') and len(t.args) > 2 and t.args[2].op == 'str' and self.is_args(t.args[1]):
            return t.args[2].args[0]
        return None

    def expand(self, t):
        seen = 0
        while isinstance(t, Term) and t.op == 'res' and t in self.g.I.resinfo and seen < 5:
            o = self.g.I.resinfo[t]
            t = T('call', o.name, *[a for a in (o.args or [])])
            seen += 1
        return t

    def opts(self, t, depth=12):
        """options the value depends on"""
        r = self._memo.get(t)
        if r is not None:
            return r
        self._memo[t] = set()
        out = set()
        if isinstance(t, Term) and depth:
            for s in subterms(t):
                o = self.opt_of(s)
                if o:
                    out.add(o)
                elif s.op == 'res' and s in self.g.I.resinfo:
                    for a in self.g.I.resinfo[s].args or []:
                        out |= self.opts(a, depth - 1)
        self._memo[t] = out
        return out

    def value(self, t):
        """(option, conversion) when t is exactly the converted value of one option, else None"""
        t = self.expand(t)
        if t.op == 'init' and t.args[0].op == 'mem':
            t = self.expand(t.args[0].args[0])
        if t.op == 'call':
            n = t.args[0]
            a = t.args[1] if len(t.args) > 1 else None
            if n in ('docopt::value::asLong', 'docopt::value::asBool', 'docopt::value::asString', 'docopt::value::good'):
                o = self.opt_of(a) if isinstance(a, Term) else None
                if o is None and isinstance(a, Term) and a.op == 'init' and a.args[0].op == 'mem':
                    o = self.opt_of(a.args[0].args[0])
                return (o, {'asLong': 'int', 'asBool': 'bool', 'asString': 'str', 'good': 'given'}[n.split('::')[-1]]) if o else None
            if n in INT_CONV or n in REAL_CONV:
                v = self.value(a) if isinstance(a, Term) else None
                if v and v[1] == 'str':
                    return v[0], 'int' if n in INT_CONV else 'real'
            if n in ('std::string', 'std::basic_string::c_str', 'std::move', 'std::basic_string::data') and isinstance(a, Term):
                return self.value(a)
        if t.op == 'E' and t.args[0] in ('c_str', 'data') and len(t.args) == 2:
            return self.value(t.args[1])
        return None

    def truth(self, fact):
        """[(option, what, bool)] decided by a fact"""
        neg = False
        t = fact
        while t.op == 'op' and t.args[0] == '!':
            neg, t = not neg, t.args[1]
        if t.op == 'op' and t.args[0] == '&&' and not neg:
            return sum((self.truth(x) for x in t.args[1:]), [])
        if t.op == 'op' and t.args[0] == '||' and neg:
            return sum((self.truth(T('op', '!', x)) for x in t.args[1:]), [])
        if t.op == 'op' and t.args[0] in ('==', '!=') and len(t.args) == 3:
            for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if b.op == 'const' and b.args[0] in (0, 1) and self.value(a) and self.value(a)[1] == 'bool':
                    v = (b.args[0] == 1) == (t.args[0] == '==')
                    return [(self.value(a)[0], 'bool', v != neg)]
        v = self.value(t)
        if v and v[1] in ('bool', 'given'):
            return [(v[0], v[1], not neg)]
        if t.op == 'op' and t.args[0] in ('<', '<='):
            a, b = t.args[1], t.args[2]
            for x, k, side in ((b, a, 'r'), (a, b, 'l')):
                v = self.value(x)
                if v and v[1] == 'int' and k.op == 'const' and isinstance(k.args[0], (int, float)):
                    c = k.args[0]
                    if side == 'r':      # c < x or c <= x
                        lo = c + 1 if t.args[0] == '<' else c
                    else:                # x < c : false means x >= c
                        lo = c if t.args[0] == '<' else c + 1
                        neg = not neg
                    if lo == 1:
                        return [(v[0], 'positive', not neg)]
                    return [(v[0], 'atleast%s' % lo, not neg)]
        return []

    def edge_ok(self, assume):
        """assume: {(option, what): bool}"""
        def ok(u, v, fact, kind):
            if fact is None:
                return True
            for o, w, b in self.truth(fact):
                if (o, w) in assume and assume[(o, w)] != b:
                    return False
            return True
        return ok

    def command(self, c, **more):
        a = {(k, 'bool'): k == c for k in self.usage.commands}
        a.update(more.get('assume', {}))
        return self.g.reach([self.g.entry], (), False, self.edge_ok(a)), a

    def passes(self, a, marks, ends):
        """every path under assumption a that reaches one of ends goes through marks"""
        r = self.g.reach([self.g.entry], marks, False, self.edge_ok(a))
        return not (r & set(ends))

    def passes_from(self, starts, marks, ends, a):
        r = self.g.reach([s for s in starts if s not in set(marks)], marks, False, self.edge_ok(a))
        return not (r & set(ends))

    def calls(self, nodes, pred):
        return [n for n in self.g.ops('call') if n.i in nodes and pred(n.op)]


def apps(C):
    c = getattr(C, '_apps', None)
    if c is None:
        c = C._apps = [App(C, u) for u in sorted(C.F.apps)]
    return c


def short_name(op):
    return (op.name or '').split('::')[-1]


def is_builder(op):
    return 'LDABuilder' in (op.name or '')


def is_lda(op, names):
    return (op.name or '').replace(NS, '').startswith('LDA::') and short_name(op) in names


def outer(nodes):
    """one node per call (a call is represented by its entry and exit)"""
    seen, out = set(), []
    for n in nodes:
        k = id(n.op)
        if k not in seen:
            seen.add(k)
            out.append(n)
    return out


def in_frame(fr, top):
    while fr is not None:
        if fr is top:
            return True
        fr = fr.parent
    return False


def made_in(g, t, op):
    """is the object, local or merged value t created inside the call op"""
    if op.child is None:
        return t == op.res
    t = objid(t) if t.op not in ('obj', 'phi', 'alloc') else t
    if t is None or t.op not in ('obj', 'phi', 'alloc'):
        return False
    fid = t.args[0]
    if not isinstance(fid, int) or fid >= len(g.I.frame_list):
        return False
    return in_frame(g.I.frame_list[fid], op.child)


def from_file(g, t):
    """the value was made while reading an input file"""
    if t.op not in ('phi', 'alloc', 'obj') or not isinstance(t.args[0], int) or t.args[0] >= len(g.I.frame_list):
        return False
    fr = g.I.frame_list[t.args[0]]
    while fr is not None:
        if fr.fn['qname'].startswith('io::load') or fr.fn['qname'].startswith('io::parse') or 'NumpyInput' in fr.fn['qname']:
            return True
        fr = fr.parent
    return False


def listener_class(C, op):
    """class of the listener object registered by an add_listener call"""
    if short_name(op) != 'add_listener' or not op.args or op.args[0] is None:
        return None
    t = op.args[0]
    if t.op != 'obj':
        return None
    return rec_of(t.args[2])


def prints(C, cls):
    """does a listener class write to the terminal"""
    c = C.__dict__.setdefault('_prints', {})
    if cls not in c:
        c[cls] = False
        for f in C.F.functions.values():
            if f.get('cls') and rec_of(f['cls']).split('::')[-1] == cls.split('::')[-1] or \
                    f['qname'].rsplit('::', 1)[0].split('::')[-1] == cls.split('::')[-1]:
                for nd in f['nodes'].values():
                    if nd.get('name') in ('cout', 'cerr', 'clog') or nd.get('qname') in ('std::cout', 'std::cerr', 'std::clog') or \
                            nd.get('name') in ('printf', 'puts', 'putchar'):
                        c[cls] = True
    return c[cls]


class Cmd(object):
    """one command of one application"""
    def __init__(self, A, name):
        self.A, self.name = A, name
        self.d = A.usage.commands[name]
        self.nodes, self.assume = A.command(name)
        g = A.g
        cl = A.calls(self.nodes, lambda o: True)
        self.cl = cl
        self.fits = outer([n for n in cl if is_lda(n.op, ('fit', 'partial_fit')) and not is_lda_inner(n)])
        self.transforms = outer([n for n in cl if is_lda(n.op, ('transform', 'predict', 'decision_function', 'transform_predict')) and
                                 not is_lda_inner(n)])
        self.ends = [n.i for n in self.fits + self.transforms]
        self.training = name.endswith('train')
        self.mixed = bool(self.fits) and bool(self.transforms)

    def label(self):
        return '%s %s' % (os.path.basename(self.A.unit).rsplit('.', 1)[0], self.name)

    def named(self, *names):
        return outer([n for n in self.cl if short_name(n.op) in names])

    def entry(self, op):
        return [n.i for n in self.cl if n.op is op]


def is_lda_inner(n):
    fr = n.frame
    while fr is not None:
        if fr.fn['qname'].startswith(NS + 'LDA::'):
            return True
        fr = fr.parent
    return False


def commands(C, R, only=None):
    for A in apps(C):
        if not A.usage.commands:
            R.unsure('no command in the usage text of %s' % A.name)
        for c in sorted(A.usage.commands):
            X = Cmd(A, c)
            if X.mixed or not X.ends:
                if X.mixed:
                    R.unsure('%s: the commands cannot be told apart' % X.label())
                else:
                    R.violation('main', 'the command "%s" neither fits nor transforms' % X.label(), A.main['file'], A.main['line'],
                                key='dead:' + X.label())
                continue
            yield A, X


def reads(A, nodes):
    """{option: op} looked up by name in the reachable part"""
    out = {}
    for n in A.g.nodes:
        if n.i not in nodes or n.kind != 'op':
            continue
        o = n.op
        for t in list(o.args or []) + [o.val, o.obj]:
            if isinstance(t, Term):
                for x in A.opts(t):
                    out.setdefault(x, o)
    return out


def strings(A, nodes):
    out = set()
    for n in A.g.nodes:
        if n.i in nodes and n.kind == 'op':
            for t in list(n.op.args or []) + [n.op.val]:
                if isinstance(t, Term) and t is not A.docopt.args[0]:
                    for s in subterms(t):
                        if s.op == 'str':
                            out.add(s.args[0])
    return out


def describe(A, t):
    o = A.opts(t)
    if o:
        return 'a value of ' + ', '.join(sorted(o))
    return show(t, 4)


@rule('C10', 'declared', 'each command reads exactly the options and arguments its usage line declares, and reads an option without a '
      'default only after testing that it was given')
def r_declared(C, R):
    for A, X in commands(C, R):
        rd = reads(A, X.nodes)
        names = strings(A, X.nodes)
        decl = set(X.d['opts']) | set(X.d['args'])
        for o, op in sorted(rd.items()):
            if o in A.usage.commands or o in decl:
                continue
            R.at(op, 'the command "%s" reads "%s", which its usage text does not declare' % (X.label(), o), key='undeclared:%s:%s' % (X.label(), o))
        alt = [set(re.findall(r'(--?[a-zA-Z_]+)', m)) for m in re.findall(r'\[([^\[\]]*\|[^\[\]]*)\]', A.text)]
        for o in sorted(decl):
            if o in ('-h', '--help', '--version') or o in rd or o in names:
                R.ok('%s reads %s' % (X.label(), o))
                continue
            if any(o in g and (g & (set(rd) | names)) for g in alt):
                R.ok('%s reads an alternative of %s' % (X.label(), o))
                continue
            R.violation('main', 'the command "%s" declares "%s" and never reads it' % (X.label(), o), A.main['file'], A.main['line'],
                        key='unread:%s:%s' % (X.label(), o))
        # options without a default are tested before they are converted
        for n in A.g.nodes:
            if n.i not in X.nodes or n.kind != 'op' or n.frame.fn['unit'] != A.unit or n.op.kind not in ('call', 'ecall', 'branch', 'write'):
                continue
            op = n.op
            found = {}
            for t in list(op.args or []) + [op.val]:
                for s in subterms(t) if isinstance(t, Term) else ():
                    if s.op == 'call' and s.args[0] in ('docopt::value::asLong', 'docopt::value::asString'):
                        v = A.value(s)
                        if v and v[0].startswith('-') and v[0] in A.usage.options:
                            found[v[0]] = s.args[0]
            for o, how in found.items():
                check_default(R, A, X, n, o, how)


def check_default(R, A, X, n, o, how):
    op = n.op
    val, dflt = A.usage.options[o]
    if dflt is None:
        assume = dict(X.assume)
        assume[(o, 'given')] = False
        if n.i in A.g.reach([A.g.entry], (), False, A.edge_ok(assume)):
            guard = any(o in A.opts(f) for f in A.g.facts_at(n.i))
            if guard:
                R.unsure('%s: guard of %s' % (X.label(), o))
            else:
                R.at(op, '"%s" has no default and is converted without testing that it was given' % o, key='default:%s:%s' % (X.label(), o))
            return
    elif how.endswith('asLong') and not re.match(r'^[+-]?\d+$', dflt):
        R.at(op, '"%s" is read as an integer but its default is "%s"' % (o, dflt), key='int:%s:%s' % (X.label(), o))
    R.ok('%s: %s has a value when it is converted' % (X.label(), o))


def check_value(R, X, op, pos, t, want):
    """the argument is exactly the converted value of the option"""
    A = X.A
    v = A.value(t)
    what = '%s argument %d' % (short_name(op), pos + 1)
    key = '%s:%s:%d' % (X.label(), short_name(op).replace('get_', 'set_'), pos)
    if want in X.d['opts'] or want in X.d['args']:
        if v and v[0] == want:
            if want in REAL and v[1] == 'int':
                R.at(op, '%s: the real valued "%s" is read as an integer' % (what, want), key=key)
            elif v[1] in ('bool', 'given'):
                R.at(op, '%s: the flag of "%s" is used instead of its value' % (what, want), key=key)
            else:
                R.ok('%s: %s is %s' % (X.label(), what, want))
            return True
        os_ = A.opts(t)
        if want not in os_:
            if os_ or t.op in ('const', 'str'):
                R.at(op, 'in the command "%s", %s is %s instead of the value of "%s"' % (X.label(), what, describe(A, t), want), key=key)
            else:
                R.unsure('%s: %s is %s' % (X.label(), what, show(t, 3)))
            return True
        if len(os_) > 1 or (t.op == 'op' and (t.args[0] in '+-*/%neg' or t.args[0] == 'min')):
            R.at(op, 'in the command "%s", %s is changed on its way from "%s": %s' % (X.label(), what, want, describe(A, t)), key=key)
        else:
            R.unsure('%s: %s is computed from %s' % (X.label(), what, want))
        return True
    os_ = A.opts(t) - {want}
    if os_:
        R.at(op, 'in the command "%s", %s is fed by "%s"' % (X.label(), what, sorted(os_)[0]), key=key)
    return False


@rule('C10', 'settings', 'the argument of every setting is the unmodified value of the option documented for it')
def r_settings(C, R):
    for A, X in commands(C, R):
        sunk = {}
        for n in outer(X.cl):
            op = n.op
            nm = short_name(op)
            if not is_builder(op) or nm not in SINKS:
                continue
            if nm.startswith('get_') and any(x.op.child is n.frame and short_name(x.op) == nm.replace('get_', 'set_') for x in X.cl):
                continue
            if nm.startswith('initialize') and is_builder_frame(n.frame):
                continue
            want = SINKS[nm]
            args = [a for a in (op.args or [])]
            for i, w in enumerate(want):
                if i >= len(args) or args[i] is None:
                    continue
                if w is None:
                    os_ = A.opts(args[i])
                    if {x for x in os_ if x.startswith('-')} and nm != 'set_fast_supervised_online_m_step':
                        R.at(op, 'in the command "%s", argument %d of %s is fed by "%s"' % (X.label(), i + 1, nm, sorted(os_)[0]),
                             key='%s:%s:%d' % (X.label(), nm, i))
                    continue
                check_value(R, X, op, i, args[i], w)
                sunk.setdefault(w, []).append(n)
        for o in sorted(X.d['opts']):
            if not any(o in w for w in SINKS.values()):
                continue
            ss = sunk.get(o)
            if not ss:
                R.violation('main', 'in the command "%s" the value of "%s" reaches no setting' % (X.label(), o), A.main['file'],
                            A.main['line'], key='sink:%s:%s' % (X.label(), o))
                continue
            a = dict(X.assume)
            for k in ('--continue', '--continue_from_unsupervised'):
                if k in X.d['opts'] and o in ('--topics', '--random_state'):
                    a[(k, 'given')] = False
            marks = sum((X.entry(n.op) for n in ss), [])
            if not A.passes(a, marks, X.ends):
                R.at(ss[0].op, 'in the command "%s" there is a way to the training or transform on which "%s" is never set' %
                     (X.label(), o), key='path:%s:%s' % (X.label(), o))
            else:
                R.ok('%s: %s is set on every path' % (X.label(), o))


def is_builder_frame(fr):
    while fr is not None:
        if 'LDABuilder::' in fr.fn['qname']:
            return True
        fr = fr.parent
    return False


def loaded_from(A, X, t):
    """path term of the load_lda call that created the model t, or None"""
    for n in outer(X.cl):
        if short_name(n.op) == 'load_lda' and made_in(A.g, t, n.op):
            return n.op.args[0]
    return None


@rule('C10', 'initialization', 'the initialization options select their documented initialization, and continued models are loaded from '
      'the given path')
def r_init(C, R):
    for A, X in commands(C, R):
        inits = [n for n in outer(X.cl) if is_builder(n.op) and short_name(n.op).startswith('initialize_topics') and
                 not is_builder_frame(n.frame)]
        etas = [n for n in outer(X.cl) if is_builder(n.op) and short_name(n.op).startswith('initialize_eta') and
                not is_builder_frame(n.frame)]
        cases = []
        base = {}
        opts = X.d['opts']
        if not X.training:
            cases.append(({}, 'from_model', 'MODEL', 'transform'))
        else:
            if '--continue' in opts:
                b = {('--continue', 'given'): True}
                if '--continue_from_unsupervised' in opts:
                    b[('--continue_from_unsupervised', 'given')] = False
                cases.append((b, 'from_model', '--continue', '--continue'))
                base[('--continue', 'given')] = False
            if '--continue_from_unsupervised' in opts:
                b = dict(base)
                b[('--continue_from_unsupervised', 'given')] = True
                cases.append((b, 'from_model', '--continue_from_unsupervised', '--continue_from_unsupervised'))
                base[('--continue_from_unsupervised', 'given')] = False
            if '--initialize_random' in opts:
                for v in (True, False):
                    b = dict(base)
                    b[('--initialize_random', 'bool')] = v
                    if '--initialize_seeded' in opts and v:
                        b[('--initialize_seeded', 'bool')] = False
                    cases.append((b, 'random' if v else 'seeded', None, '--initialize_random' if v else 'no --initialize_random'))
        for assume, kind, path, what in cases:
            a = dict(X.assume)
            a.update(assume)
            r = A.g.reach([A.g.entry], (), False, A.edge_ok(a))
            if not (r & set(X.ends)):
                R.violation('main', 'the command "%s" with %s never trains' % (X.label(), what), A.main['file'], A.main['line'],
                            key='init:%s:%s' % (X.label(), what))
                continue
            here = [n for n in inits if n.i in r]
            good = []
            for n in here:
                k = short_name(n.op)[len('initialize_topics_'):]
                if k != kind:
                    R.at(n.op, 'in the command "%s" with %s the topics are initialized by %s' % (X.label(), what, short_name(n.op)),
                         key='init:%s:%s' % (X.label(), what))
                    continue
                if path is not None and n.op.args:
                    p = loaded_from(A, X, n.op.args[0])
                    if p is None:
                        R.unsure('%s: origin of the model %s' % (X.label(), show(n.op.args[0], 3)))
                    else:
                        v = A.value(p)
                        if v and v[0] != path:
                            R.at(n.op, 'in the command "%s" with %s the model is loaded from "%s"' % (X.label(), what, v[0]),
                                 key='init-path:%s:%s' % (X.label(), what))
                        elif v is None:
                            if path not in A.opts(p):
                                R.at(n.op, 'in the command "%s" with %s the model is not loaded from "%s"' % (X.label(), what, path),
                                     key='init-path:%s:%s' % (X.label(), what))
                            else:
                                R.unsure('%s: path %s' % (X.label(), show(p, 3)))
                        else:
                            R.ok('%s with %s starts from the model in %s' % (X.label(), what, path))
                good += X.entry(n.op)
            if good and not A.passes(a, good, X.ends):
                R.violation('main', 'in the command "%s" with %s there is a way to train without the documented initialization' %
                            (X.label(), what), A.main['file'], A.main['line'], key='init-path:%s:%s' % (X.label(), what))
            elif not good and not here:
                R.violation('main', 'the command "%s" with %s never initializes the topics' % (X.label(), what), A.main['file'],
                            A.main['line'], key='init:%s:%s' % (X.label(), what))
            else:
                R.ok('%s with %s initializes by %s' % (X.label(), what, kind))
            # supervised parameters
            eh = [n for n in etas if n.i in r]
            sup = X.named(*[k for k in STEPS if 'supervised' in k and '_m_step' in k]) or what == 'transform'
            for n in eh:
                k = short_name(n.op)[len('initialize_eta_'):]
                if what == '--continue' or what == 'transform':
                    if k == 'from_model' and n.op.args:
                        p = loaded_from(A, X, n.op.args[0])
                        v = p is not None and A.value(p)
                        if v and v[0] != path:
                            R.at(n.op, 'in the command "%s" with %s the supervised parameters are loaded from "%s"' %
                                 (X.label(), what, v[0]), key='eta:%s:%s' % (X.label(), what))
                        else:
                            R.ok('%s with %s continues the supervised parameters' % (X.label(), what))
                    elif k != 'from_model' and sup:
                        R.at(n.op, 'in the command "%s" with %s the supervised parameters are not taken from the model' % (X.label(), what),
                             key='eta:%s:%s' % (X.label(), what))
                elif k == 'from_model':
                    R.at(n.op, 'in the command "%s" with %s the supervised parameters are taken from a model' % (X.label(), what),
                         key='eta:%s:%s' % (X.label(), what))
            if etas and not eh:
                R.violation('main', 'in the command "%s" with %s the supervised parameters are not initialized' % (X.label(), what),
                            A.main['file'], A.main['line'], key='eta:%s:%s' % (X.label(), what))


@rule('C10', 'listeners', 'terminal listeners are added exactly without --quiet, snapshots exactly with a positive --snapshot_every and '
      'whatever --quiet says')
def r_listeners(C, R):
    for A, X in commands(C, R):
        L = []
        for n in outer(X.cl):
            c = listener_class(A.C, n.op)
            if c:
                L.append((n, c))
        if '--quiet' in X.d['opts']:
            a = dict(X.assume)
            a[('--quiet', 'bool')] = True
            rq = A.g.reach([A.g.entry], (), False, A.edge_ok(a))
            a[('--quiet', 'bool')] = False
            rn = A.g.reach([A.g.entry], (), False, A.edge_ok(a))
            pr = [(n, c) for n, c in L if prints(C, c)]
            for n, c in pr:
                if n.i in rq:
                    R.at(n.op, 'in the command "%s" the listener %s, which writes to the terminal, is added with --quiet' % (X.label(), c),
                         key='quiet:%s:%s' % (X.label(), c))
                elif n.i not in rn:
                    R.at(n.op, 'in the command "%s" the listener %s is never added' % (X.label(), c), key='quiet:%s:%s' % (X.label(), c))
                else:
                    R.ok('%s: %s is silenced by --quiet' % (X.label(), c))
            if not pr:
                R.violation('main', 'in the command "%s" no progress is shown, with or without --quiet' % X.label(), A.main['file'],
                            A.main['line'], key='progress:' + X.label())
            for n in outer(X.cl):
                if n.i in rq and n.frame.fn['qname'] == 'main' and any(
                        isinstance(t, Term) and any(s.op == 'glob' and s.args[0] in ('std::cout', 'std::cerr') for s in subterms(t))
                        for t in list(n.op.args or []) + [n.op.obj]):
                    R.at(n.op, 'the command "%s" writes to the terminal with --quiet' % X.label(), key='cout:' + X.label())
        if '--snapshot_every' in X.d['opts']:
            sn = [(n, c) for n, c in L if not prints(C, c)]
            ctors = [n for n in outer(X.cl) if any(c.split('::')[-1] == short_name(n.op) for m, c in sn) and len(n.op.args or []) == 2]
            for n in ctors:
                check_value(R, X, n.op, 0, n.op.args[0], 'MODEL')
                check_value(R, X, n.op, 1, n.op.args[1], '--snapshot_every')
            if not sn:
                R.violation('main', 'in the command "%s" no snapshots are taken' % X.label(), A.main['file'], A.main['line'],
                            key='snap:' + X.label())
            for q in (True, False):
                for pos in (True, False):
                    a = dict(X.assume)
                    a[('--quiet', 'bool')] = q
                    a[('--snapshot_every', 'positive')] = pos
                    r = A.g.reach([A.g.entry], (), False, A.edge_ok(a))
                    for n, c in sn:
                        key = 'snap:%s' % X.label()
                        if pos and not A.passes(a, X.entry(n.op), X.ends):
                            if any('--snapshot_every' in A.opts(f) and not A.truth(f) for f in A.g.facts_at(n.i)):
                                R.unsure('%s: guard of the snapshots' % X.label())
                                continue
                            R.at(n.op, 'in the command "%s" with a positive --snapshot_every training can start without the snapshot '
                                 'listener%s' % (X.label(), ' when --quiet is given' if q else ''), key=key)
                        elif not pos and n.i in r:
                            if any('--snapshot_every' in A.opts(f) and not A.truth(f) for f in A.g.facts_at(n.i)):
                                R.unsure('%s: guard of the snapshots' % X.label())
                                continue
                            R.at(n.op, 'in the command "%s" the snapshot listener is added for values of --snapshot_every that are not '
                                 'positive' % X.label(), key=key)
                        else:
                            R.ok('%s: snapshots depend on --snapshot_every only' % X.label())


# -- C25 --------------------------------------------------------------------------

CUTS = {'transpose', 'block', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'col', 'row', 'head', 'tail', 'segment', 'middleRows',
        'middleCols', 'reverse', 'colwise', 'rowwise', 'array'}


def parsed(A, X):
    """[(call, [content after the call, per matrix argument])]"""
    out = []
    for n in outer(X.cl):
        if short_name(n.op) == 'parse_input_data' and n.op.child is not None and n.op.child.exit_state is not None:
            st = n.op.child.exit_state
            out.append((n, [st.get(l) for l in (n.op.locs or [])[1:]]))
    return out


def same_data(R, X, op, what, got, want, others, key):
    """is the argument exactly the wanted content"""
    if got == want:
        R.ok('%s: %s is the data that was read' % (X.label(), what))
        return
    if got in others:
        R.at(op, 'in the command "%s" %s is another array than the one that was read for it' % (X.label(), what), key=key)
        return
    t = got
    while t.op == 'E' and len(t.args) > 1 and isinstance(t.args[1], Term) and t.args[0] in CUTS - {'array'}:
        t = t.args[1]
    if t == want and got != want or (got.op in ('upd', 'cupd') and want in set(subterms(got))) or got.op in ('S', 'E0') or \
            (got.op == 'op' and got.args[0] in ('+', '-', '*', '/') and want in set(subterms(got))):
        R.at(op, 'in the command "%s" %s is not the array that was read but %s' % (X.label(), what, show(got, 3)), key=key)
        return
    R.unsure('%s: %s is %s' % (X.label(), what, show(got, 3)))


def model_of(A, fit):
    """the model object an LDA object holds"""
    op = fit.op
    if op.child is None or op.child.exit_state is None or op.obj is None:
        return None
    c = []
    for k, v in op.child.exit_state.items():
        if k.op == 'f' and k.args[0].op == 'mem' and k.args[0].args[0] == op.obj and isinstance(v, Term) and v.op == 'obj' and \
                'ModelParameters' in str(v.args[2]):
            c.append(v)
    return c[0] if len(set(c)) == 1 else None


@rule('C25', 'inputs', 'the data are read from DATA and passed to fit or transform unchanged, words as words and labels as labels')
def r_inputs(C, R):
    for A, X in commands(C, R):
        P = parsed(A, X)
        if not P:
            R.unsure('%s: the data are not read by parse_input_data' % X.label())
            continue
        for n, mats in P:
            check_value(R, X, n.op, 0, n.op.args[0], 'DATA')
        if len(P) > 1:
            R.unsure('%s reads %d data files' % (X.label(), len(P)))
            continue
        n0, mats = P[0]
        for n in X.fits + X.transforms:
            if not A.passes(X.assume, X.entry(n0.op), X.entry(n.op)):
                R.at(n.op, 'the command "%s" can start without having read its data' % X.label(), key='order:' + X.label())
            args = [a for a in (n.op.args or []) if a is not None]
            if n in X.fits and len(mats) > 1 and len(args) == 1 and args[0] == mats[0]:
                R.at(n.op, 'in the command "%s" the labels that were read are not given to %s' % (X.label(), short_name(n.op)),
                     key='data:%s:1' % X.label())
            for i, a in enumerate(args[:2]):
                if i < len(mats) and mats[i] is not None:
                    same_data(R, X, n.op, 'argument %d of %s' % (i + 1, short_name(n.op)), a, mats[i],
                              [m for j, m in enumerate(mats) if j != i], 'data:%s:%d' % (X.label(), i))
                elif i >= len(mats):
                    R.at(n.op, 'in the command "%s" labels are used that were never read' % X.label(), key='data:%s:%d' % (X.label(), i))


@rule('C25', 'trained model', 'on every path a training command fits, then saves the model that was fitted to MODEL, and does not change '
      'it in between')
def r_trained(C, R):
    for A, X in commands(C, R):
        if not X.training:
            continue
        g = A.g
        if not X.fits:
            R.violation('main', 'the command "%s" never fits a model' % X.label(), A.main['file'], A.main['line'], key='fit:' + X.label())
            continue
        for n in X.fits:
            if short_name(n.op) == 'partial_fit' and len(X.fits) == 1:
                if [l for l in g.enclosing_loops(n.i) if l is not None]:
                    R.unsure('%s: passes' % X.label())
                else:
                    R.at(n.op, 'the command "%s" makes a single pass over the data whatever --iterations says' % X.label(), key='passes:' + X.label())
        saves = [n for n in outer(X.cl) if short_name(n.op) == 'save_lda']
        if not saves:
            R.violation('main', 'the command "%s" never saves the model' % X.label(), A.main['file'], A.main['line'], key='save:' + X.label())
            continue
        fi = sum((X.entry(n.op) for n in X.fits), [])
        si = sum((X.entry(n.op) for n in saves), [])
        models = {model_of(A, n) for n in X.fits}
        final = []
        for n in saves:
            v = A.value(n.op.args[0])
            if v and v[0] == 'MODEL':
                final.append(n)
        if not final:
            check_value(R, X, saves[-1].op, 0, saves[-1].op.args[0], 'MODEL')
            continue
        fin = sum((X.entry(n.op) for n in final), [])
        if A.passes(X.assume, fin, [g.exit]):
            R.ok('%s: saved on every path' % X.label())
        else:
            R.at(final[0].op, 'the command "%s" can end without having saved the model to MODEL' % X.label(), key='save:' + X.label())
        for n in final:
            if not A.passes(X.assume, fi, X.entry(n.op)):
                R.at(n.op, 'in the command "%s" the model can be saved before it has been fitted' % X.label(), key='order:' + X.label())
                continue
            posts = [m.i for m in g.nodes if m.kind == 'post' and m.op is n.op] or X.entry(n.op)
            aft = g.reach(posts, (), False, A.edge_ok(X.assume))
            if any(i in aft for i in fi) and not A.passes_from(posts, fin, [g.exit], X.assume):
                R.at(n.op, 'in the command "%s" the model is fitted further after it has been saved' % X.label(), key='order:' + X.label())
                continue
            m = n.op.args[1] if len(n.op.args) > 1 else None
            if None in models or len(models) != 1 or m is None:
                R.unsure('%s: fitted model' % X.label())
            elif m in models:
                R.ok('%s: the fitted model is saved' % X.label())
            elif m.op == 'obj':
                R.at(n.op, 'in the command "%s" the saved object is not the model that was fitted but %s' % (X.label(), show(m, 2)),
                     key='object:' + X.label())
            else:
                R.unsure('%s: saved object %s' % (X.label(), show(m, 3)))
        # nothing changes the model between the fit and the save
        m = list(models)[0]
        if m is not None:
            posts = [x.i for x in g.nodes if x.kind == 'post' and x.op in [y.op for y in X.fits]]
            between = g.reach(posts, (), False, A.edge_ok(X.assume))
            for x in g.ops('write'):
                if x.i in between and x.op.loc is not None and any(s.op == 'mem' and s.args[0] == m for s in subterms(x.op.loc)) and \
                        not is_lda_inner(x):
                    R.at(x.op, 'in the command "%s" the model is changed after the fit' % X.label(), key='between:' + X.label())


@rule('C25', 'transform output', 'on every path a transform command writes the result of transforming DATA with MODEL to OUTPUT')
def r_output(C, R):
    for A, X in commands(C, R):
        if X.training:
            continue
        g = A.g
        if not X.transforms:
            R.violation('main', 'the command "%s" never transforms' % X.label(), A.main['file'], A.main['line'], key='transform:' + X.label())
            continue
        saves = [n for n in outer(X.cl) if (n.op.name or '').endswith('numpy_format::save') and 'numpy_format' not in n.frame.fn['qname'] and
                 len(n.op.args or []) == 2]
        if not saves:
            R.unsure('%s does not write through numpy_format::save' % X.label())
            continue
        for n in saves:
            check_value(R, X, n.op, 0, n.op.args[0], 'OUTPUT')
            t = n.op.args[1]
            tr = [m for m in X.transforms if made_in(g, t, m.op)]
            if tr:
                if short_name(tr[0].op) != 'transform':
                    R.at(n.op, 'the command "%s" writes the result of %s' % (X.label(), short_name(tr[0].op)), key='value:' + X.label())
                else:
                    R.ok('%s writes the result of transform' % X.label())
            else:
                u = t
                while u.op == 'E' and len(u.args) > 1 and isinstance(u.args[1], Term) and u.args[0] in CUTS:
                    u = u.args[1]
                P = [c for _, ms in parsed(A, X) for c in ms]
                if t.op in ('upd', 'cupd', 'S', 'E0') or t in P or from_file(g, t) or (u is not t and any(made_in(g, u, m.op) for m in X.transforms)):
                    R.at(n.op, 'the command "%s" does not write the result of the transform but %s' % (X.label(), show(t, 3)),
                         key='value:' + X.label())
                elif t.op == 'op' and any(made_in(g, s, m.op) for m in X.transforms for s in subterms(t) if s.op in ('obj', 'phi', 'alloc')):
                    R.at(n.op, 'the command "%s" changes the result of the transform before it is written: %s' % (X.label(), show(t, 3)),
                         key='value:' + X.label())
                else:
                    R.unsure('%s writes %s' % (X.label(), show(t, 3)))
        si = sum((X.entry(n.op) for n in saves), [])
        if A.passes(X.assume, si, [g.exit]):
            R.ok('%s: written on every path' % X.label())
        else:
            R.at(saves[0].op, 'the command "%s" can end without having written its output' % X.label(), key='save:' + X.label())
        # the model
        for n in X.named('initialize_topics_from_model', 'initialize_eta_from_model'):
            if is_builder_frame(n.frame) or not n.op.args:
                continue
            p = loaded_from(A, X, n.op.args[0])
            if p is None:
                R.unsure('%s: origin of the model' % X.label())
            else:
                check_value(R, X, n.op, 0, p, 'MODEL')


def affine(t, base):
    """k when t = init(base) + k"""
    if t.op == 'init' and t.args[0] == base:
        return 0
    if t.op == 'op' and t.args[0] in ('+', '-') and len(t.args) == 3:
        a, b = t.args[1], t.args[2]
        if b.op == 'const':
            k = affine(a, base)
            return None if k is None else k + (b.args[0] if t.args[0] == '+' else -b.args[0])
        if a.op == 'const' and t.args[0] == '+':
            k = affine(b, base)
            return None if k is None else k + a.args[0]
    return None


@rule('C25', 'snapshots', 'the snapshot listener saves the model of the epoch event, at every Nth epoch and no other, to a path that '
      'differs between snapshots')
def r_snapshots(C, R):
    seen = set()
    for A in apps(C):
        for n in A.g.ops('call'):
            c = listener_class(A.C, n.op)
            if c and not prints(C, c):
                seen.add(c)
    for c in sorted(seen):
        fs = [f for f in C.F.functions.values() if f['qname'] == c + '::on_event']
        ct = [f for f in C.F.functions.values() if f['qname'].startswith(c + '::') and f['qname'].split('::')[-1] == c.split('::')[-1] and
              len(f['params']) == 2]
        if not fs or not ct:
            R.unsure('%s: no on_event or constructor' % c)
            continue
        f = fs[0]
        gc = C.run(ct[0])
        this = gc.root.this
        ini = {k: v for k, v in gc.root.exit_state.items() if k.op == 'f' and k.args[0] == mem(this)}
        pint = [T('param', ct[0]['key'], p['name']) for p in ct[0]['params']]
        g = C.run(f, this=this)
        ev = T('param', f['key'], f['params'][0]['name'])
        saves = [n for n in g.ops('call') if short_name(n.op) == 'save_lda' or (n.op.name or '').endswith('numpy_format::save')]
        saves = [n for n in saves if not any(m is not n and m.op.child is not None and in_frame(n.frame, m.op.child) for m in saves)]
        if not saves:
            R.violation(f['qname'], 'the snapshot listener never saves a model', f['file'], f['line'], key='snap-save')
            continue
        for n in saves:
            # the model of the event
            m = n.op.args[1] if len(n.op.args) > 1 else None
            if m is not None and m.op == 'init' and ev in set(subterms(m)):
                R.ok('%s saves the model of the event' % c)
            elif m is not None and (m.op == 'obj' or (m.op == 'init' and this in set(subterms(m)))):
                R.at(n.op, 'the snapshot is not taken of the model the epoch event carries', key='snap-model')
            else:
                R.unsure('%s: saved model %s' % (c, show(m, 3) if m is not None else None))
            # every Nth epoch
            step, guard = {}, None
            for w in g.ops('write'):
                l = w.op.loc
                if l is not None and l.op == 'f' and l.args[0] == mem(this):
                    step.setdefault(l, []).append(w)
            facts = g.facts_at(n.i)
            ok = None
            for fct in facts:
                t, neg = fct, False
                while t.op == 'op' and t.args[0] == '!':
                    t, neg = t.args[1], not neg
                mod = [s for s in subterms(t) if s.op == 'op' and s.args[0] == '%']
                if not mod:
                    continue
                md = mod[0]
                every = None
                for k, v in ini.items():
                    if md.args[2] == T('init', k):
                        every = v
                if every is None or every not in pint:
                    R.unsure('%s: modulus %s' % (c, show(md.args[2], 3)))
                    ok = False
                    continue
                iszero = t == T('op', '==', md, T('const', 0)) or t == T('op', '==', T('const', 0), md) or (t == md and neg)
                nonzero = t.op == 'op' and t.args[0] == '!=' or (t == md and not neg) or (t.op == 'op' and t.args[0] == '==' and neg)
                if not iszero and nonzero:
                    R.at(n.op, 'a snapshot is taken at the epochs that are not a multiple of the period', key='snap-every')
                    ok = False
                    continue
                if not iszero:
                    R.unsure('%s: guard %s' % (c, show(t, 3)))
                    ok = False
                    continue
                for l, ws in step.items():
                    k = affine(md.args[1], l)
                    if k is None or ini.get(l) is None or ini[l].op != 'const':
                        continue
                    s = {affine(g.root.exit_state.get(l, T('init', l)), l)} - {None}
                    incs = [affine_step(w.op, l) for w in ws]
                    if None in incs or len(incs) != 1:
                        R.unsure('%s: counter is written %d times' % (c, len(incs)))
                        ok = False
                        break
                    st = incs[0]
                    if (st, ini[l].args[0] + k) != (1, 1):
                        R.at(n.op, 'the snapshot counter starts at %s, is advanced by %s per epoch and is tested as counter%+d: the '
                             'snapshots are not taken every N epochs' % (ini[l].args[0], st, k), key='snap-every')
                        ok = False
                        break
                    # advanced at every epoch, not only at some
                    idf = [x for x in g.facts_at(n.i) if any(s.op == 'str' for s in subterms(x)) and x.op == 'op' and x.args[0] == '==']
                    start = [v for u in range(len(g.nodes)) for v, fa, kk in g.succ[u]
                             if fa is not None and any(s.op == 'str' for s in subterms(g.N(fa))) and g.N(fa) in idf]
                    wi = [w.i for w in ws]
                    if start and g.exit in g.reach([v for v in start if v not in wi], wi, False):
                        R.at(ws[0].op, 'the snapshot counter is not advanced at every epoch', key='snap-count')
                        ok = False
                        break
                    ok = True
            if ok:
                R.ok('%s saves at every Nth epoch' % c)
            elif ok is None:
                eq = [x for x in facts if any(any(s == T('init', k) and v in pint for k, v in ini.items()) for s in subterms(x))]
                once = [x for x in eq if x.op == 'op' and x.args[0] == '==' and any(
                    s == T('init', l) for l in step for s in subterms(x)) and all(
                        affine_step(w.op, l) not in (None, 0) for l in step if T('init', l) in set(subterms(x)) for w in step[l])]
                if once:
                    R.at(n.op, 'a snapshot is taken only once, when the counter equals the period', key='snap-every')
                elif eq:
                    R.unsure('%s: the period is tested by %s' % (c, show(eq[0], 4)))
                else:
                    R.at(n.op, 'the snapshots do not depend on the period given to the listener', key='snap-every')
            # distinct paths
            deps = set(subterms(n.op.args[0]))
            before = {x.i for x in g.ops('call')}
            for x in g.ops('call'):
                if short_name(x.op).startswith('operator<<') or short_name(x.op) in ('append', 'operator+=', 'to_string', 'concat') or \
                        short_name(x.op).startswith('operator+') or short_name(x.op) in ('snprintf', 'sprintf'):
                    if n.i in g.after(x.i) and not any(fr is x.frame for fr in []):
                        for a in x.op.args or []:
                            if isinstance(a, Term):
                                deps |= set(subterms(a))
            has_path = any(T('init', k) in deps for k, v in ini.items() if v in pint and 'string' in str(v) or v in pint[:1])
            if not has_path:
                R.at(n.op, 'the path of a snapshot does not contain the path given to the listener', key='snap-path')
            cnt = [l for l, ws in step.items() if any(T('init', l) == d for d in deps)]
            lossy = [d for d in deps if d.op == 'op' and d.args[0] in ('%', '/') and d.args[2].op == 'const' and
                     any(T('init', l) in set(subterms(d.args[1])) for l in step)]
            whole = [a for x in g.ops('call') if n.i in g.after(x.i) for a in (x.op.args or []) if isinstance(a, Term) and
                     any(affine(a, l) is not None for l in step)]
            if lossy and not whole:
                R.at(n.op, 'the number in the path of a snapshot is %s, which repeats' % show(lossy[0], 3), key='snap-path')
            elif cnt:
                R.ok('%s: numbered paths' % c)
            elif not any(d.op in ('res', 'phi') for d in deps):
                R.at(n.op, 'every snapshot is written to the same path', key='snap-path')
            else:
                R.unsure('%s: snapshot path' % c)


def affine_step(op, l):
    """constant increment performed by a write, or None"""
    if op.how in ('+=', '-=') and op.val is not None and op.val.op == 'const':
        return op.val.args[0] * (1 if op.how == '+=' else -1)
    if op.val is not None and op.how in ('=', 'init', None):
        return affine(op.val, l)
    return None
