"""C12, C13, C14: files.

C12 walks the sequence of stream operations of the functions that save and load models and data: every block of raw data written names
the array it comes from, every array loaded names the read it was converted from, and the two sequences are compared.  C13 rebuilds the
header the writer produces (literal pieces, sizes and the padding condition) and compares the offsets, sizes and tests of the reader
with it, and checks the placement polynomial of the elements.  C14 requires that whatever a read produced is used only where the success
of that read is a known fact, and that a function that creates a file cannot return without having seen the stream good after closing."""
from common import *
from rules.r_apps import short_name, outer, made_in, in_frame
from rules.r_params import poly

ARRAYS = ['alpha', 'beta', 'eta']


def field_of(t):
    """last member name in a location or address term"""
    for s in subterms(t):
        if s.op == 'f':
            return s.args[1]
    return None


def functions(C, name):
    return sorted((f for f in C.F.functions.values() if f['qname'].split('::')[-1] == name and '/applications/' in f['file']),
                  key=lambda f: f['key'])


def order(g, nodes):
    """nodes sorted by dominance, or None when two of them are not ordered"""
    out = []
    for n in nodes:
        k = sum(1 for m in nodes if m is not n and g.dominated(n.i, [m.i]))
        out.append((k, n))
    out.sort(key=lambda x: x[0])
    if [k for k, n in out] != list(range(len(out))):
        return None
    return [n for k, n in out]


def stream_reads(g):
    """calls of operator>> that read one array: [(node, stream location, object)]"""
    out = []
    for n in outer(g.ops('call')):
        o = n.op
        if short_name(o) == 'operator>>' and 'numpy_format' in (o.name or '') and len(o.args or []) == 2:
            out.append((n, (o.locs or [None])[0], o.args[1]))
    return out


def stream_root(l):
    while l is not None and l.op in ('mem', 'addr') and l.args and isinstance(l.args[0], Term) and l.args[0].op in ('addr', 'mem', 'var'):
        l = l.args[0]
    return l


def read_index(C, R, g, val, reads):
    """index of the stream read whose array the value was converted from"""
    conv = [n for n in outer(g.ops('call')) if 'operator' in short_name(n.op) and 'Matrix' in (n.op.name or '') and n.op.child is not None and
            made_in(g, val, n.op)]
    if not conv:
        conv = [n for n in outer(g.ops('call')) if short_name(n.op) == 'load' and n.op.child is not None and made_in(g, val, n.op)]
        if not conv:
            return None
        inner = [i for i, (r, s, o) in enumerate(reads) if in_frame(r.frame, conv[0].op.child)]
        return inner[0] if len(inner) == 1 else None
    c = conv[-1]
    last = None
    for i, (r, s, o) in enumerate(reads):
        if o == c.op.obj and g.dominated(c.i, [r.i]):
            last = i
    return last


@rule('C12', 'model order', 'a model is written as prior, topics, supervised parameters and each array is loaded into the parameter it was '
      'written from')
def r_model_order(C, R):
    for f in functions(C, 'save_lda'):
        g = C.run(f)
        ws = []
        for n in outer(g.ops('call')):
            o = n.op
            if short_name(o) == 'write' and len(o.args or []) == 2 and o.args[0].op == 'addr':
                fl = field_of(o.args[0])
                if fl in ARRAYS:
                    ws.append((n, fl))
        seq = order(g, [n for n, _ in ws])
        if not ws or seq is None:
            R.unsure('%s: the arrays are not written by a fixed sequence of writes' % f['qname'])
            continue
        names = [dict((id(n), a) for n, a in ws)[id(n)] for n in seq]
        if names != ARRAYS:
            bad = [n for n, w in zip(seq, names + [None] * 3)]
            R.at(g_top(seq[0]), 'the arrays are written in the order %s instead of %s' % (', '.join(names), ', '.join(ARRAYS)), key='order',
                 fn=f['qname'])
        else:
            R.ok('%s writes alpha, beta, eta' % f['qname'])
        missing = [i for i, n in enumerate(seq) if not g.dominated(g.exit, [n.i])]
        for i in missing:
            R.at(g_top(seq[i]), 'the array %s is not written on every path' % names[i], key='skip:' + names[i], fn=f['qname'])
        streams = {stream_root(n.op.obj) for n in seq}
        if len(streams) > 1:
            R.at(g_top(seq[1]), 'the arrays of one model are written to different streams', key='stream', fn=f['qname'])
        else:
            R.ok('one stream')
    for f in functions(C, 'load_lda'):
        g = C.run(f)
        rd = stream_reads(g)
        seq = order(g, [r[0] for r in rd])
        if not rd or seq is None:
            R.unsure('%s: no fixed sequence of reads' % f['qname'])
            continue
        rd.sort(key=lambda r: seq.index(r[0]))
        if len({stream_root(s) for _, s, _ in rd}) > 1:
            R.at(rd[1][0], 'the arrays of one model are read from different streams', key='stream', fn=f['qname'])
        ret = g.root.ret
        obj = objid(ret) if isinstance(ret, Term) else None
        vals = {}
        for k, v in g.root.exit_state.items():
            if k.op == 'f' and k.args[1] in ARRAYS and k.args[0].op == 'mem' and (obj is None or k.args[0].args[0] == obj or obj.op != 'obj'):
                vals[k.args[1]] = v
        for i, a in enumerate(ARRAYS):
            v = vals.get(a)
            if v is None:
                R.unsure('%s: value of %s' % (f['qname'], a))
                continue
            if v.op == 'E0':
                R.violation(f['qname'], 'the parameter %s is not loaded' % a, f['file'], f['line'], key='load:' + a)
                continue
            k = read_index(C, R, g, v, rd)
            if k is None:
                R.unsure('%s: origin of %s: %s' % (f['qname'], a, show(v, 3)))
            elif k != i:
                R.violation(f['qname'], 'the parameter %s is loaded from array %d of the file, it is written as array %d' % (a, k + 1, i + 1),
                            f['file'], f['line'], key='load:' + a)
            else:
                R.ok('%s is loaded from array %d' % (a, i + 1))


def g_top(n):
    """the operation in the root frame that a node belongs to"""
    fr, op = n.frame, n.op
    while fr.parent is not None and fr.pop is not None:
        op = fr.pop
        fr = fr.parent
    return op


@rule('C12', 'data order', 'a data file is read from one stream, words first and labels second')
def r_data_order(C, R):
    for f in functions(C, 'parse_input_data'):
        g = C.run(f)
        rd = stream_reads(g)
        seq = order(g, [r[0] for r in rd])
        if not rd or seq is None:
            R.unsure('%s: no fixed sequence of reads' % f['key'])
            continue
        rd.sort(key=lambda r: seq.index(r[0]))
        if len({stream_root(s) for _, s, _ in rd}) > 1:
            R.at(rd[1][0], 'the arrays of one data file are read from different streams', key='stream:%d' % len(f['params']), fn=f['qname'])
        for i, p in enumerate(f['params'][1:]):
            pt = T('param', f['key'], p['name'])
            v = g.root.exit_state.get(mem(pt))
            what = ['words', 'labels'][i] if i < 2 else 'array'
            if v is None:
                R.violation(f['qname'], 'the %s are never stored' % what, f['file'], f['line'], key='data:%d:%d' % (len(f['params']), i))
                continue
            k = read_index(C, R, g, v, rd)
            if k is None:
                R.unsure('%s: origin of the %s: %s' % (f['qname'], what, show(v, 3)))
            elif k != i:
                R.violation(f['qname'], 'the %s are taken from array %d of the file, they are array %d' % (what, k + 1, i + 1), f['file'],
                            f['line'], key='data:%d:%d' % (len(f['params']), i))
            else:
                R.ok('%s: %s are array %d' % (f['qname'], what, i + 1))
        # the stream is the file that was asked for
        opens = [n for n in outer(g.ops('call')) if short_name(n.op) in ('basic_fstream', 'basic_ifstream', 'open') and n.op.args]
        pp = T('param', f['key'], f['params'][0]['name'])
        for n in opens:
            if pp not in set(subterms(n.op.args[0])):
                R.at(n, 'the file that is opened is not the one asked for', key='path:%d' % len(f['params']), fn=f['qname'])
            else:
                R.ok('%s opens the given path' % f['qname'])


APP, ATE, IN, OUT, TRUNC = 1, 2, 8, 16, 32


@rule('C12', 'files', 'a file is written from its beginning, replacing what it held, and nothing moves the position between two arrays')
def r_files(C, R):
    for q in ('save_lda', 'load_lda', 'parse_input_data'):
        for f in functions(C, q):
            g = C.run(f)
            arrays = [n for n in outer(g.ops('call')) if short_name(n.op) in ('read', 'write') and
                      (n.op.name or '').startswith(('std::basic_istream::', 'std::basic_ostream::'))]
            for n in outer(g.ops('call')):
                nm = short_name(n.op)
                if nm in ('basic_fstream', 'basic_ofstream', 'open') and n.op.args and (n.op.name or '').startswith('std::basic_'):
                    m = n.op.args[1] if len(n.op.args) > 1 else None
                    if m is None or m.op != 'const':
                        if m is not None:
                            R.unsure('%s: mode %s' % (q, show(m, 3)))
                        continue
                    m = m.args[0]
                    writes = m & OUT or 'ofstream' in n.op.name
                    if writes and m & APP or m & APP:
                        R.at(n, 'the file is appended to, what is read back is what it held before', key='append', fn=f['qname'])
                    elif writes and m & IN and m & ATE and not m & TRUNC:
                        R.at(n, 'the file is written after what it held before', key='append', fn=f['qname'])
                    elif not writes and m & ATE:
                        R.at(n, 'the file is read from its end', key='append', fn=f['qname'])
                    else:
                        R.ok('%s: opened at its beginning' % q)
                elif nm in ('seekg', 'seekp', 'ignore', 'unget', 'putback') and n.op.obj is not None and n.frame.fn['file'].startswith(REPO) and \
                        any(a.i in g.after(n.i) for a in arrays):
                    a = n.op.args[0] if n.op.args else None
                    while a is not None and a.op in ('new', 'call', 'obj') and isinstance(a.args[-1], Term) and len(
                            [x for x in a.args if isinstance(x, Term)]) == 1:
                        a = a.args[-1]
                    if a is not None and a.op == 'const' and not (len(n.op.args) > 1 and a.args[0] == 0 and nm != 'ignore'):
                        R.at(n, 'the position in the file is changed by %s before an array is %s' %
                             (nm, 'written' if q == 'save_lda' else 'read'), key='seek', fn=f['qname'])
                    else:
                        R.unsure('%s: %s' % (q, nm))


# -- C14 ------------------------------------------------------------------------

@rule('C14', 'handlers', 'no handler on the way from a file to the caller swallows more than the exception that ends the list of dimensions')
def r_handlers(C, R):
    for f in readers(C):
        g = C.run(f)
        for n in g.ops('catch'):
            if not n.frame.fn['file'].startswith(REPO):
                continue
            nd = n.frame.fn['nodes'].get(n.op.nid) or {}
            ct = rec_of((nd.get('ct') or '...').replace('const ', '').replace('&', '').strip())
            if g.exit not in g.after(n.i, exc=False):
                R.ok('%s: handler of %s does not return' % (fname(f), ct))
            elif ct == 'std::invalid_argument':
                R.ok('%s: only %s is swallowed' % (fname(f), ct))
            elif ct in ('...', 'std::exception', 'std::logic_error', 'std::runtime_error', 'std::out_of_range', 'std::length_error', 'std::bad_alloc',
                        'std::ios_base::failure'):
                R.at(n, 'an error that is reported by %s is swallowed and the array is accepted' % ct, key='catch', fn=f['qname'])
            else:
                R.unsure('%s: handler of %s' % (fname(f), ct))
        R.ok('%s: handlers' % fname(f))


def readers(C):
    fs = [f for f in C.F.functions.values() if f['qname'] == NS + 'numpy_format::operator>>' and
          (C.tier != 'quick' or scalar_of(f['key'], 'NumpyInput') in ('double', 'int'))]
    fs += functions(C, 'load_lda') + functions(C, 'parse_input_data')
    fs += [f for f in C.F.functions.values() if f['qname'] == NS + 'numpy_format::load']
    return sorted(fs, key=lambda f: f['key'])


@rule('C13', 'version', 'an array of a version whose header length has another size is rejected')
@rule('C14', 'version', 'an array of a version whose header length has another size is rejected')
def r_version(C, R):
    from rules.r_corpus import label_edges
    for f in readers(C):
        if f['qname'] != NS + 'numpy_format::operator>>':
            continue
        g = C.run(f)
        rd = [n for n in outer(g.ops('call')) if (n.op.name or '').startswith('std::basic_istream::') and short_name(n.op) == 'read']
        sq = order(g, rd)
        if not sq or len(sq) < 2 or sq[0].op.args[1] != T('const', 8) or sq[1].op.args[1] != T('const', 2):
            R.unsure('%s: reads' % fname(f))
            continue
        xs = set()
        for n in g.ops('branch'):
            for t in subterms(n.op.val) if n.op.val is not None else ():
                if t.op == 'E' and t.args[0] == 'at' and t.args[2] == T('const', 6) and t.args[1].op == 'eff' and \
                        (t.args[1].args[0], t.args[1].args[1]) == (sq[0].op.frame.id, sq[0].op.nid):
                    xs.add(t)
        if len(xs) != 1:
            whole = any(s.op == 'const' and s.args[0] == 8 or s.op == 'str' and len(s.args[0]) > 6 for n in g.ops('branch') if n.op.val is not None
                        for s in subterms(n.op.val))
            if not xs and not whole:
                R.violation(f['qname'], 'the version of the format is not looked at', f['file'], f['line'], key='version')
            else:
                R.unsure('%s: version' % fname(f))
            continue
        x, = xs
        for v in (2, 3):
            if g.exit in g.reach([g.entry], exc=False, edge_ok=label_edges(g, x, v)):
                R.violation(f['qname'], 'an array of version %d, whose header length has four bytes, is read as version 1' % v, f['file'],
                            f['line'], key='version')
                break
        else:
            if g.exit not in g.reach([g.entry], exc=False, edge_ok=label_edges(g, x, 1)):
                R.violation(f['qname'], 'arrays of version 1 are rejected', f['file'], f['line'], key='version1')
            else:
                R.ok('%s: version 1 only' % fname(f))


@rule('C13', 'fresh reader', 'what an earlier array left in the reader does not enter the shape of the next one')
@rule('C12', 'fresh reader', 'what an earlier array left in the reader does not enter the shape of the next one')
def r_fresh(C, R):
    for f in readers(C):
        if f['qname'] != NS + 'numpy_format::operator>>':
            continue
        g = C.run(f)
        calls = [n for n in outer(g.ops('call')) if n.op.obj is not None and n.op.obj.op == 'f' and n.op.obj.args[0].op == 'mem' and
                 n.op.obj.args[0].args[0].op == 'param']
        fields = {n.op.obj for n in calls if short_name(n.op) in ('push_back', 'emplace_back', 'insert')}
        for l in sorted(fields, key=show):
            reset = [n.i for n in calls if n.op.obj == l and short_name(n.op) in ('clear', 'operator=', 'assign', 'swap')]
            reset += [n.i for n in g.ops('write') if n.op.loc == l and (n.op.val is None or n.op.val != T('init', l))]
            for n in calls:
                if n.op.obj == l and short_name(n.op) in ('push_back', 'emplace_back', 'insert'):
                    if g.dominated(n.i, reset):
                        R.ok('%s: %s starts empty' % (fname(f), l.args[1]))
                    else:
                        R.at(n, '%s is added to without having been emptied, so that a second array read with the same object keeps the '
                             'dimensions of the first' % l.args[1], key='fresh', fn=f['qname'])


def good_facts(facts):
    """stream contents known to be good"""
    out = []
    for t in facts:
        neg = False
        while t.op == 'op' and t.args[0] == '!':
            t, neg = t.args[1], not neg
        if t.op == 'op' and t.args[0] == '&&' and not neg:
            out += good_facts(t.args[1:])
        elif t.op == 'op' and t.args[0] == '||' and neg:
            out += good_facts([T('op', '!', x) for x in t.args[1:]])
        elif t.op == 'call' and (t.args[0] or '').split('::')[-1] == 'good' and not neg:
            out.append(t.args[1])
        elif t.op == 'call' and (t.args[0] or '').split('::')[-1] in ('fail', 'operator!') and neg:
            out.append(t.args[1])
    return out


def count_facts(facts):
    """(stream content, size) known through gcount"""
    out = []
    for t in facts:
        if t.op == 'op' and t.args[0] == '==' and len(t.args) == 3:
            for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if a.op == 'call' and (a.args[0] or '').endswith('gcount'):
                    out.append((a.args[1], b))
        elif t.op == 'op' and t.args[0] in ('<=', '<') and len(t.args) == 3:
            a, b = t.args[1], t.args[2]
            if b.op == 'call' and (b.args[0] or '').endswith('gcount'):
                out.append((b.args[1], a))
    return out


def effects(t):
    """the operations a stream content has been through, latest first"""
    out = []
    while isinstance(t, Term) and t.op == 'eff':
        out.append((t.args[0], t.args[1]))
        t = t.args[3]
    return out, t


def base_loc(t):
    """variable or member a pointer points into"""
    while isinstance(t, Term):
        if t.op == 'addr' or t.op == 'v' or (t.op == 'op' and t.args[0] == '+'):
            t = t.args[0] if t.op != 'op' else t.args[1]
        elif t.op == 'E' and t.args[0] in ('at', 'data', 'begin'):
            t = t.args[1]
        else:
            break
    return t


@rule('C14', 'checked reads', 'whatever a read from a stream produced is used only where that read is known to have succeeded, and a '
      'reader returns normally only when its last read is known to have succeeded')
def r_checked_reads(C, R):
    fs = [f for f in C.F.functions.values() if f['qname'] == NS + 'numpy_format::operator>>']
    if not fs:
        raise AnalysisBroken('the numpy reader was not found')
    if C.tier == 'quick':
        fs = sorted(fs, key=lambda f: f['key'])[:4]
    for f in fs:
        g = C.run(f)
        reads = [n for n in outer(g.ops('call')) if (n.op.name or '').startswith('std::basic_istream::') and
                 short_name(n.op) in ('read', 'get', 'getline', 'readsome')]
        if not reads:
            R.unsure('%s: no reads' % f['key'])
            continue
        short_ = 'NumpyInput<%s>' % f['key'].split('NumpyInput<')[-1].split('>')[0]
        live = g.live(False)
        for r in reads:
            if r.i not in live:
                continue
            rid = (r.op.frame.id, r.op.nid)
            dst = base_loc(r.op.args[0]) if r.op.args else None
            size = r.op.args[1] if len(r.op.args) > 1 else None
            after = g.after(r.i, [n.i for n in reads if n is not r], False)
            uses = []
            for n in g.nodes:
                if n.i not in after or n.kind != 'op' or n.op.kind not in ('call', 'ecall', 'branch', 'write', 'return', 'throw'):
                    continue
                if uses_data(n.op, rid, dst):
                    uses.append(n)
            bad = None
            for n in uses + [g.nodes[g.exit]]:
                if n.i == g.exit and g.exit not in after:
                    continue
                fa = g.facts_at(n.i)
                if any(rid in effects(s)[0] for s in good_facts(fa)):
                    continue
                if any(effects(s)[0][:1] == [rid] and b == size for s, b in count_facts(fa)):
                    continue
                # a use that only decides whether to throw
                if n.i != g.exit and all_throw(g, n):
                    continue
                bad = n
                break
            if bad is None:
                R.ok('%s: data of the read at line %d are used after it is known to have succeeded' % (short_, r.op.line))
            elif bad.i == g.exit:
                R.at(r, 'the function can return normally although this read failed', key='read-exit:%s' % size_key(size), fn=f['qname'])
            else:
                R.at(bad, 'what the read at line %d produced is used without knowing that the read succeeded' % r.op.line,
                     key='read-use:%s' % size_key(size), fn=f['qname'])
            # the caller learns of a failed read only through an exception
        # the last read covers all of the data
        indexed(C, R, f, g, reads, short_)


def size_key(t):
    return show(t, 2) if t is not None else ''


def uses_data(op, rid, dst):
    if op.kind == 'branch' and op.val is not None and any(s.op == 'op' and s.args[0] in ('||', '&&') for s in subterms(op.val)):
        return False        # its operands are evaluated, under their own facts, by operations of their own
    ts = list(op.args or []) + [op.val]
    if op.kind == 'call' and op.obj is not None:
        ts.append(op.obj)
    for t in ts:
        if not isinstance(t, Term):
            continue
        for s in subterms(t):
            if s.op == 'eff' and (s.args[0], s.args[1]) == rid and s.args[2] != -1:
                return True
            if s.op == 'addr' and dst is not None and base_loc(s) == dst:
                return True
    return False


def all_throw(g, n):
    """every way on from the branch n either throws or is taken with the read known to be good"""
    return g.exit not in g.after(n.i, (), False)


def indexed(C, R, f, g, reads, short_):
    """constant positions in data that were read are below a known size"""
    done = set()
    rids = {(r.op.frame.id, r.op.nid) for r in reads}
    for n in g.nodes:
        if n.kind != 'op' or n.op.kind not in ('branch', 'write', 'call'):
            continue
        for t in list(n.op.args or []) + [n.op.val]:
            if not isinstance(t, Term):
                continue
            for s in subterms(t):
                if s.op != 'E' or s.args[0] != 'at' or len(s.args) != 3 or s.args[2].op != 'const':
                    continue
                x, k = s.args[1], s.args[2].args[0]
                if x.op != 'addr' or not any(isinstance(q, Term) for q in x.args):
                    continue
                if (n.i, k) in done or k == 0:
                    continue
                done.add((n.i, k))
                lo = size_bound(g.facts_at(n.i), x)
                if lo is None or lo <= k:
                    R.at(n, 'position %d of text that was read is used without knowing that it is that long' % k, key='index:%s' % k,
                         fn=f['qname'])
                else:
                    R.ok('%s: position %d is below the known length' % (short_, k))
    # the shape is not empty when the array is handed out
    shape = [k for k in g.root.exit_state if k.op == 'f' and k.args[0].op == 'mem' and k.args[0].args[0].op == 'param' and
             'vector<unsigned long' in str(ftype(C, k))]
    fa = g.facts_at(g.exit)
    for l in shape:
        v = g.root.exit_state[l]
        if any(nonempty_fact(x, v, l) for x in fa):
            R.ok('%s: the shape is not empty' % short_)
        else:
            R.violation(f['qname'], 'an array whose header names no dimension is accepted', f['file'], f['line'], key='shape')


def ftype(C, k):
    r = C.F.records.get(k.args[2]) if len(k.args) > 2 else None
    if r is None:
        return ''
    for fl in r.get('fields', []):
        if fl.get('name') == k.args[1]:
            return fl.get('t', '')
    return ''


def nonempty_fact(t, v, l):
    if t in nonempty_facts(v):
        return True
    for s in subterms(t):
        if s.op == 'E' and s.args[0] == 'size' and base_phi(s.args[1]) == l:
            e = T('op', '!=', s, T('const', 0))
            if t == e or t == T('op', '<', T('const', 0), s) or t == T('op', '!=', T('const', 0), s) or t == T('op', '<=', T('const', 1), s):
                return True
            if t == T('op', '!', T('op', '==', s, T('const', 0))):
                return True
    return False


def base_phi(t):
    while t.op in ('cupd', 'upd'):
        t = t.args[0]
    return t.args[2] if t.op == 'phi' else (t.args[0] if t.op == 'init' else t)


def size_bound(facts, x):
    best = None
    for t in facts:
        neg = False
        while t.op == 'op' and t.args[0] == '!':
            t, neg = t.args[1], not neg
        if t.op != 'op' or len(t.args) != 3:
            continue
        a, b = t.args[1], t.args[2]
        is_size = lambda s: s.op == 'E' and s.args[0] in ('size', 'length') and s.args[1] == x
        lo = None
        if t.args[0] in ('<', '<='):
            if is_size(b) and a.op == 'const' and not neg:
                lo = a.args[0] + (1 if t.args[0] == '<' else 0)
            elif is_size(a) and b.op == 'const' and neg:
                lo = b.args[0] + (0 if t.args[0] == '<' else 1)
        if lo is not None and (best is None or lo > best):
            best = lo
    return best


@rule('C14', 'checked writes', 'a function that creates a file returns normally only when the stream is known to be good after everything '
      'has been written and the file closed or flushed')
def r_checked_writes(C, R):
    done = set()
    for f in sorted(C.F.functions.values(), key=lambda f: f['key']):
        rep = rel(f['file'])
        if not (rep.startswith('src/') or rep.startswith('include/')) or f['qname'] in ('main',):
            continue
        opens = [nd for nd in f['nodes'].values() if nd.get('k') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and
                 rec_of(nd.get('t') or '') in ('std::basic_fstream', 'std::basic_ofstream')]
        if not opens:
            continue
        g = C.run(f)
        for n in outer(g.ops('call')):
            if short_name(n.op) not in ('basic_fstream', 'basic_ofstream') or n.frame is not g.root or not n.op.args:
                continue
            mode = n.op.args[1] if len(n.op.args) > 1 else None
            out = short_name(n.op) == 'basic_ofstream' or (mode is not None and mode.op == 'const' and mode.args[0] & 16)
            if not out:
                continue
            if f['qname'] in done and C.tier == 'quick':
                continue
            done.add(f['qname'])
            ws = [w for w in outer(g.ops('call')) if (w.op.name or '').startswith('std::basic_ostream::') and short_name(w.op) in ('write', 'put')]
            ids = {(w.op.frame.id, w.op.nid) for w in ws}
            fa = g.facts_at(g.exit)
            ok = closed = False
            closers = {(w.op.frame.id, w.op.nid) for w in outer(g.ops('call')) if short_name(w.op) in ('close', 'flush')}
            for s in good_facts(fa):
                e, root = effects(s)
                if n.op.res is None or n.op.res in set(subterms(s)) or root.op == 'phi':
                    last = [i for i, x in enumerate(e) if x in ids]
                    cl = [i for i, x in enumerate(e) if x in closers]
                    later = [w for w in ws if (w.op.frame.id, w.op.nid) not in e]
                    if last or root.op == 'phi':
                        ok = True
                        if cl and (not last or min(cl) < min(last)):
                            closed = True
            if any(short_name(w.op) == 'exceptions' for w in g.ops('call')):
                R.unsure('%s: the stream throws by itself' % f['qname'])
            elif not ok:
                R.at(n, 'the function returns normally without having tested that the file was written', key='write', fn=f['qname'])
            elif not closed:
                R.at(n, 'the state of the file is tested before it is closed or flushed, so that an error of the last write is lost',
                     key='close', fn=f['qname'])
            else:
                R.ok('%s: known to be written when it returns' % fname(f))


# -- C13 ------------------------------------------------------------------------

SIZES = {'signed char': 1, 'char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
         'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8}


def dtype_of(t):
    if t not in SIZES:
        return None
    k = 'f' if t in ('float', 'double') else 'u' if t.startswith('unsigned') else 'i'
    return k + str(SIZES[t])


def scalar_of(key, cls):
    return key.split(cls + '<')[-1].split('>')[0].split(',')[0].strip()


@rule('C13', 'element types', 'the type code of every element type names its kind and size')
def r_dtypes(C, R):
    n = 0
    for f in sorted(C.F.functions.values(), key=lambda f: f['key']):
        if f['qname'] != NS + 'numpy_format::dtype_for_scalar':
            continue
        t = scalar_of(f['key'], 'dtype_for_scalar')
        g = C.run(f)
        want = dtype_of(t)
        got = g.root.ret
        if want is None or got is None or got.op != 'str':
            R.unsure('type code of %s: %s' % (t, show(got, 2) if got is not None else None))
            continue
        n += 1
        if got.args[0] != want:
            R.violation(f['qname'], 'the type code of %s is "%s" instead of "%s"' % (t, got.args[0], want), f['file'], f['line'], key='dtype:' + t)
        else:
            R.ok('%s is %s' % (t, want))
    if not n:
        R.unsure('no type codes found')


def big_endian_truth(C, R, g, t):
    """True when the term says that the machine is big endian, False when it says little endian, None when unknown"""
    neg = False
    while t.op == 'op' and t.args[0] == '!':
        t, neg = t.args[1], not neg
    if t.op == 'op' and t.args[0] in ('==', '!=') and len(t.args) == 3:
        a, b = t.args[1], t.args[2]
        if a.op == 'const':
            a, b = b, a
        if a.op == 'E' and a.args[0] == 'at' and b.op == 'const' and a.args[2].op == 'const':
            v = (t.args[0] == '==') != neg
            base = a.args[1]
            word = None
            for s in subterms(base):
                if s.op == 'obj':
                    for w in g.ops('write'):
                        if w.op.loc is not None and w.op.loc.op == 'f' and w.op.loc.args[0] == mem(s) and w.op.val is not None and \
                                w.op.val.op == 'const':
                            word = w.op.val.args[0]
                    for l, x in g.root.exit_state.items():
                        if l.op == 'f' and l.args[0] == mem(s) and isinstance(x, Term) and x.op == 'const':
                            word = x.args[0]
            return v, a.args[2].args[0], b.args[0], word
    return None


@rule('C13', 'byte order test', 'the byte order test looks at the byte that differs between the two byte orders')
def r_endian(C, R):
    for f in C.F.functions.values():
        if f['qname'] != NS + 'numpy_format::is_big_endian':
            continue
        g = C.run(f)
        r = g.root.ret
        x = big_endian_truth(C, R, g, r) if r is not None else None
        if x is None:
            R.unsure('byte order test: %s' % (show(r, 4) if r is not None else None))
            continue
        v, k, b, word = x
        if word is None:
            for nd in f['nodes'].values():
                if nd.get('k') == 'IntegerLiteral' and nd.get('v', nd.get('i')) not in (None,):
                    try:
                        w = int(nd.get('v', nd.get('i')))
                    except (TypeError, ValueError):
                        continue
                    if w > 255:
                        word = w
        if word is None or not 0 <= k < 4:
            R.unsure('byte order test: word %s, byte %s' % (word, k))
            continue
        be = word.to_bytes(4, 'big')[k]
        le = word.to_bytes(4, 'little')[k]
        if be == le or {be: True, le: False}.get(b) is None:
            R.violation(f['qname'], 'the tested byte does not tell the byte orders apart', f['file'], f['line'], key='endian')
        elif (b == be) != v:
            R.violation(f['qname'], 'the byte order test is inverted', f['file'], f['line'], key='endian')
        else:
            R.ok('byte %d of %#x' % (k, word))


def is_big(t):
    """does a fact or condition concern the byte order test; returns its truth or None"""
    neg = False
    while t.op == 'op' and t.args[0] == '!':
        t, neg = t.args[1], not neg
    if t.op == 'op' and t.args[0] in ('==', '!=') and len(t.args) == 3:
        a, b = t.args[1], t.args[2]
        if a.op == 'const':
            a, b = b, a
        if b.op == 'const' and a.op == 'E' and a.args[0] == 'at' and any(s.op == 'f' for s in subterms(a.args[1])) and \
                any(s.op == 'obj' and 'Byte' in str(s.args[2]) or s.op == 'obj' and '::is_big_endian' in str(s.args[2]) for s in subterms(a.args[1])):
            return (t.args[0] == '==') != neg
    return None


def lit(t):
    if t.op == 'str':
        return t.args[0]
    if t.op == 'const' and isinstance(t.args[0], int) and 0 < t.args[0] < 128:
        return chr(t.args[0])
    return None


class Writer(object):
    """the text and bytes the array writer produces"""
    def __init__(self, C, f):
        self.f = f
        self.g = g = C.run(f)
        self.sc = scalar_of(f['key'], 'NumpyOutput')
        self.os = mem(T('param', f['key'], f['params'][0]['name']))
        self.data = T('param', f['key'], f['params'][1]['name'])
        ins = []
        hs = None
        for n in outer(g.ops('call')):
            o = n.op
            if short_name(o) == 'operator<<' and (o.name or '').startswith('std::'):
                args = list(o.args or [])
                dst = (o.locs or [None])[0] if len(args) == 2 else o.obj
                if len(args) == 2 and o.obj is None:
                    v = args[1]
                else:
                    dst, v = o.obj, args[-1] if args else None
                ins.append((n, dst, v))
            elif short_name(o) in ('write', 'put') and (o.name or '').startswith('std::basic_ostream'):
                ins.append((n, o.obj, None))
        self.ins = ins
        live = g.live(False)
        self.loopy = {n.i: bool(g.enclosing_loops(n.i)) for n, _, _ in ins}

    def header_inserts(self):
        hd = [(n, d, v) for n, d, v in self.ins if v is not None and not self.to_os(d)]
        return hd

    def to_os(self, d):
        return d == self.os or (d is not None and self.os in set(subterms(d)) and d.op in ('mem', 'addr'))


@rule('C13', 'header', 'the header is the dictionary the format prescribes, padded to a multiple of sixteen bytes, its length is stored in '
      'two little endian bytes after the magic string, and the reader looks for each field where the writer puts it')
def r_header(C, R):
    ws = sorted((f for f in C.F.functions.values() if f['qname'] == NS + 'numpy_format::operator<<'), key=lambda f: f['key'])
    rs = {scalar_of(f['key'], 'NumpyInput'): f for f in C.F.functions.values() if f['qname'] == NS + 'numpy_format::operator>>'}
    if not ws:
        raise AnalysisBroken('the numpy writer was not found')
    if C.tier == 'quick':
        ws = [f for f in ws if scalar_of(f['key'], 'NumpyOutput') in ('double', 'int', 'float', 'unsigned char')]
    for f in ws:
        W = Writer(C, f)
        g = W.g
        hd = W.header_inserts()
        flat = [(n, v) for n, d, v in hd if not W.loopy[n.i]]
        seq = order(g, [n for n, v in flat])
        if seq is None or len(flat) < 4:
            R.unsure('%s: the header is not built by a fixed sequence of insertions' % W.sc)
            continue
        val = {id(n): v for n, v in flat}
        # the place of the loops in the sequence
        loops = [(n, v) for n, d, v in hd if W.loopy[n.i]]
        toks = []
        for n in seq:
            toks.append((n, val[id(n)]))
        text, off, dt_off, fl_off, dt_term, fl_term = '', 0, None, None, None, None
        pieces = []
        known = True
        for n, v in toks:
            before = [m for m, _ in loops if g.dominated_by_loop(n.i, m.i)] if hasattr(g, 'dominated_by_loop') else []
            s = lit(v)
            if s is not None:
                pieces.append(s)
                continue
            alt = {lit(x) for x in v.args[1:]} if v.op == 'ite' else None
            if alt is not None and alt == {'True', 'False'}:
                pieces.append(('flag', v))
            elif v.op == 'call' and v.args[0] == 'concat' or (alt is not None and None not in alt):
                pieces.append(('dtype', v))
            else:
                pieces.append(('?', v))
        # merge
        tmpl = ''.join(p if isinstance(p, str) else '%' + p[0] + '%' for p in pieces)
        compact = tmpl.replace(' ', '').replace('\n', '')
        want = "{'descr':'%dtype%','fortran_order':%flag%,'shape':()}"
        if '%?%' in compact:
            R.unsure('%s: header pieces %s' % (W.sc, tmpl))
            continue
        if compact != want:
            R.violation(f['qname'], 'the header text is "%s" instead of the dictionary of the format' % tmpl.replace('\n', '\\n'), f['file'],
                        f['line'], key='text')
            continue
        if tmpl.endswith(' ') or tmpl.endswith('}'):
            R.violation(f['qname'], 'the header does not end in a new line', f['file'], f['line'], key='newline')
            continue
        R.ok('%s: header text' % W.sc)
        o = 0
        for p in pieces:
            if isinstance(p, str):
                o += len(p)
            elif p[0] == 'dtype':
                dt_off, dt_term = o, p[1]
                o += 3
            else:
                fl_off, fl_term = o, p[1]
                break
        check_dtype_piece(C, R, W, dt_term)
        # flag: true exactly when stored column by column
        fl = [k for k in (fl_term.args[0],)][0]
        neg = False
        while fl.op == 'op' and fl.args[0] == '!':
            fl, neg = fl.args[1], not neg
        tv = lit(fl_term.args[1]) == 'True'
        if fl.op == 'init' and fl.args[0].op == 'f':
            if tv == neg:
                R.violation(f['qname'], 'the storage order flag is written inverted', f['file'], f['line'], key='flag')
            else:
                R.ok('%s: storage order flag' % W.sc)
        else:
            R.unsure('%s: storage order flag %s' % (W.sc, show(fl, 3)))
        # dimensions
        sep = None
        dims = [v for n, v in loops if v.op == 'E' and v.args[0] == 'at' and v.args[1].op == 'init' and W.data in set(subterms(v.args[1]))]
        for n, v in loops:
            s = lit(v)
            if s is not None and ',' in s:
                sep = s
        if not dims or sep is None:
            R.unsure('%s: dimensions' % W.sc)
        else:
            R.ok('%s: dimensions separated by "%s"' % (W.sc, sep))
            ms = [n for n, v in loops if v in dims]
            for l in g.enclosing_loops(ms[0].i)[-1:] if len(ms) == 1 else ():
                if l is None:
                    continue
                heads = [n.i for n in g.nodes if n.frame is l.fr and getattr(n, 'block', None) == l.head]
                ins = [x for x in heads if any(e[0] not in heads for e in g.succ[x])]
                skip = g.after(ms[0].i, [])
                if ms[0].i in skip:
                    again = False
                    for h in heads:
                        for e in g.succ[h]:
                            if g.nodes[e[0]].frame is l.fr and getattr(g.nodes[e[0]], 'block', None) in l.body and \
                                    getattr(g.nodes[e[0]], 'block', None) != l.head and \
                                    any(x in g.reach([e[0]], [ms[0].i], exc=False) for x in heads):
                                again = True
                    if again:
                        R.at(ms[0], 'not every dimension is written to the header', key='dims', fn=f['qname'])
        padding(C, R, W, seq, loops)
        raw_writes(C, R, W)
        rf = rs.get(W.sc)
        if rf is not None:
            reader(C, R, rf, W.sc, dt_off, fl_off, sep)


def check_dtype_piece(C, R, W, t):
    f = W.f
    parts = t.args[1:] if t.op == 'call' else [t]
    order_, code = None, None
    for p in parts:
        if p.op == 'ite':
            b = is_big(p.args[0])
            if b is None:
                continue
            order_ = (lit(p.args[1]), lit(p.args[2])) if b else (lit(p.args[2]), lit(p.args[1]))
        elif lit(p) is not None:
            code = lit(p)
    if order_ is None or code is None:
        R.unsure('%s: type field %s' % (W.sc, show(t, 3)))
        return
    if order_ != ('>', '<'):
        R.violation(f['qname'], 'the byte order mark is "%s" on big endian machines and "%s" on little endian ones' % order_, f['file'],
                    f['line'], key='mark')
    elif code != dtype_of(W.sc):
        R.violation(f['qname'], 'the header of an array of %s names the type "%s"' % (W.sc, code), f['file'], f['line'], key='code')
    else:
        R.ok('%s: byte order and type' % W.sc)


def padding(C, R, W, seq, loops):
    g, f = W.g, W.f
    for n in g.ops('branch'):
        v = n.op.val
        if v is None:
            continue
        md = [s for s in subterms(v) if s.op == 'op' and s.args[0] == '%']
        if not md or not any(s.op == 'res' and 'tellp' in str(s.args[2]) for s in subterms(md[0])):
            continue
        m = md[0]
        if m.args[2].op != 'const':
            R.unsure('%s: padding %s' % (W.sc, show(m, 3)))
            return
        k = 0
        a = m.args[1]
        if a.op == 'op' and a.args[0] == '+' and any(x.op == 'const' for x in a.args[1:]):
            k = [x for x in a.args[1:] if x.op == 'const'][0].args[0]
        elif not (a.op in ('call', 'res')):
            R.unsure('%s: padding %s' % (W.sc, show(a, 3)))
            return
        pads = [x for x, y in loops if lit(y) == ' ' and g.enclosing_loops(x.i)]
        tail = 0
        for x in seq:
            if g.dominated(x.i, [n.i]):
                s = lit([y for z, d, y in W.ins if z is x][0])
                tail += len(s or '')
        if m.args[2].args[0] % 16:
            R.at(n, 'the header is padded to a multiple of %d bytes' % m.args[2].args[0], key='pad', fn=f['qname'])
        elif (k - 10 - tail) % 16:
            R.at(n, 'with %d bytes before and %d after the padded text the data start at %d modulo 16' % (10, tail, (10 + tail - k) % 16),
                 key='pad', fn=f['qname'])
        elif not pads:
            R.unsure('%s: padding character' % W.sc)
        else:
            R.ok('%s: padded to a multiple of 16' % W.sc)
        if v == T('op', '==', m, T('const', 0)):
            # leaving when unequal would be wrong
            loop = [l for l in g.loops(n.frame)]
        return
    R.unsure('%s: padding loop not found' % W.sc)


def raw_writes(C, R, W):
    g, f = W.g, W.f
    raw = [n for n, d, v in W.ins if v is None]
    raw = [n for n in raw if n.op.obj is not None and (n.op.obj == W.os or W.os in set(subterms(n.op.obj)))]
    raw = [n for n in raw if len(n.op.args) >= 2]
    magic = [n for n in raw if n.op.args[1] == T('const', 8) and n.op.args[0].op in ('addr', 'str')]
    first = [n for n in raw if n.op.args[0].op == 'addr' and n.op.args[1].op == 'const' and n.op.args[1].args[0] not in (1, 2) and
             any(w.op.loc == base_loc(n.op.args[0]) and w.op.val is not None and w.op.val.op == 'list' and w.op.val.args and
                 w.op.val.args[0] == T('const', 0x93) for w in g.ops('write'))]
    if not magic and first:
        R.at(first[0], '%s bytes of the magic string and version are written' % first[0].op.args[1].args[0], key='magic', fn=f['qname'])
    elif not magic:
        R.unsure('%s: magic string' % W.sc)
    else:
        loc = base_loc(magic[0].op.args[0])
        v = None
        for w in g.ops('write'):
            if w.op.loc == loc and w.op.val is not None:
                v = w.op.val
        if loc is not None and loc.op == 'str':
            bs = [ord(c) & 255 for c in loc.args[0]]
        elif v is not None and v.op == 'list' and all(x.op == 'const' for x in v.args):
            bs = [x.args[0] & 255 for x in v.args]
        else:
            bs = None
        if bs is None:
            R.unsure('%s: magic string' % W.sc)
        elif bs[:8] != [0x93, 0x4e, 0x55, 0x4d, 0x50, 0x59, 1, 0]:
            R.at(magic[0], 'the magic string and version are %s' % ' '.join('%02x' % b for b in bs[:8]), key='magic', fn=f['qname'])
        else:
            R.ok('%s: magic string' % W.sc)
    # header length
    lens = [n for n in raw if n not in magic and n.op.args[1].op == 'const' and n.op.args[1].args[0] in (1, 2)]
    little = [n for n in lens if any(is_big(x) is False for x in g.facts_at(n.i))]
    big = [n for n in lens if any(is_big(x) is True for x in g.facts_at(n.i))]
    if lens and not little and not big:
        tot = sum(n.op.args[1].args[0] for n in lens)
        if all(n.op.args[0].op == 'addr' for n in lens) and len(lens) == 1:
            R.at(lens[0], 'the header length is written in the byte order of the machine', key='length', fn=f['qname'])
        else:
            R.unsure('%s: header length' % W.sc)
    elif little:
        lw = [(offset(n.op.args[0]), n.op.args[1].args[0]) for n in (order(g, little) or [])]
        bw = [(offset(n.op.args[0]), n.op.args[1].args[0]) for n in (order(g, big) or [])]
        if lw not in ([(0, 2)], [(0, 1), (1, 1)]):
            R.at(little[0], 'on a little endian machine the bytes of the header length are written as %s' % lw, key='length', fn=f['qname'])
        elif bw != [(1, 1), (0, 1)]:
            R.at((big or little)[0], 'on a big endian machine the bytes of the header length are written as %s' % bw, key='length', fn=f['qname'])
        else:
            R.ok('%s: header length is little endian' % W.sc)
    else:
        R.unsure('%s: header length' % W.sc)
    for n in lens:
        l = base_loc(n.op.args[0])
        t = var_type(f, l)
        if t in SIZES and offset(n.op.args[0]) is not None and offset(n.op.args[0]) + n.op.args[1].args[0] > SIZES[t]:
            R.at(n, '%d bytes are written from a header length of type %s' % (n.op.args[1].args[0], t), key='length-type', fn=f['qname'])
            break
        if t in SIZES and SIZES[t] < 2:
            R.at(n, 'the header length is kept in a %s' % t, key='length-type', fn=f['qname'])
            break
    # data
    dw = [n for n in raw if n.op.args[0].op in ('init',) and W.data in set(subterms(n.op.args[0]))]
    for n in dw:
        p = poly(n.op.args[1])
        sz = SIZES.get(W.sc)
        num = list(list(p)[0]) if len(p) == 1 else []
        ini = [v.args[0] for v in g.I.phis.get(num[0][0], {}).values() if v.op == 'const'] if len(num) == 1 else []
        if len(p) == 1 and list(p.values())[0] == sz:
            R.ok('%s: all elements are written' % W.sc)
            product(C, R, g, f, num[0][0] if len(num) == 1 else None, n, W.sc)
        elif len(p) == 1 and len(ini) == 1 and isinstance(ini[0], int) and ini[0] * list(p.values())[0] == sz:
            R.ok('%s: all elements are written' % W.sc)
        elif len(p) == 1:
            R.at(n, '%s bytes are written per element of %d bytes' % (list(p.values())[0], sz), key='data', fn=f['qname'])
        else:
            R.unsure('%s: data size %s' % (W.sc, show(n.op.args[1], 3)))
    if not dw:
        R.unsure('%s: data' % W.sc)


def var_type(f, l):
    if l is None or l.op != 'var':
        return None
    for nd in f['nodes'].values():
        if nd.get('k') == 'DeclStmt':
            for v in nd.get('vars', ()):
                if v.get('id') in l.args and v.get('name') in l.args:
                    return v.get('t')
    return None


def offset(t):
    if t.op == 'op' and t.args[0] == '+' and any(x.op == 'const' for x in t.args[1:]):
        return [x for x in t.args[1:] if x.op == 'const'][0].args[0]
    return 0 if t.op == 'addr' else None


def product(C, R, g, f, t, n, sc):
    """is t the product of all dimensions: a loop phi that starts at 1 and is multiplied by each element of the shape"""
    if t is None or t.op != 'phi':
        R.unsure('%s: number of elements %s' % (sc, show(t, 3) if t is not None else None))
        return
    ini = [v for v in g.I.phis.get(t, {}).values() if v.op == 'const']
    if ini and any(v.args[0] != 1 for v in ini):
        R.at(n, 'the number of elements starts at %s' % ini[0].args[0], key='count', fn=f['qname'])
    elif ini:
        R.ok('%s: number of elements' % sc)


def reader(C, R, f, sc, dt_off, fl_off, sep):
    g = C.run(f)
    ex = g.facts_at(g.exit)
    code = dtype_of(sc)
    # type code
    eq = [t for t in ex if t.op == 'op' and t.args[0] == '==' and any(lit(a) == code for a in t.args[1:])]
    if not eq:
        oth = [t for t in ex if t.op == 'op' and t.args[0] == '==' and any(lit(a) and len(lit(a)) == 2 and lit(a)[0] in 'iuf' for a in t.args[1:])]
        R.violation(f['qname'], 'an array of another element type is accepted as %s' % sc, f['file'], f['line'], key='type:' + ('other' if oth else 'none'))
    else:
        R.ok('%s: arrays of another type are rejected' % sc)
        x = [a for a in eq[0].args[1:] if lit(a) is None][0]
        pos = substr_pos(x)
        if pos is None:
            R.unsure('%s: position of the type code' % sc)
        elif pos != dt_off + 1:
            R.violation(f['qname'], 'the type code is looked for at %d, it is written at %d' % (pos, dt_off + 1), f['file'], f['line'], key='type-pos')
        else:
            R.ok('%s: type code at %d' % (sc, pos))
    # magic
    mg = [t for t in ex if any(s.op == 'str' and 'NUMPY' in s.args[0] for s in subterms(t))]
    mok = [t for t in mg if t.op == 'op' and t.args[0] == '==']
    if not mok and not [t for t in mg if t.op == 'op' and t.args[0] in ('&&',)]:
        if mg:
            R.unsure('%s: test of the magic string' % sc)
        else:
            R.violation(f['qname'], 'a stream without the magic string is accepted', f['file'], f['line'], key='magic')
    else:
        R.ok('%s: magic string is tested' % sc)
    # storage order
    for w in g.ops('write'):
        l = w.op.loc
        if l is None or l.op != 'f' or l.args[0].op != 'mem' or l.args[0].args[0].op != 'param' or w.op.val is None:
            continue
        v = w.op.val
        if v.op == 'op' and v.args[0] in ('==', '!=') and any(a.op == 'const' for a in v.args[1:]):
            c = [a for a in v.args[1:] if a.op == 'const'][0].args[0]
            e = [a for a in v.args[1:] if a.op != 'const'][0]
            if e.op != 'E' or e.args[0] != 'at' or e.args[2].op != 'const':
                continue
            pos = e.args[2].args[0]
            if (substr_pos(e.args[1]) or 0) and e.args[1].op == 'call':
                pos += substr_pos(e.args[1])
            if pos != fl_off:
                R.at(w, 'the storage order is read at %d, it is written at %d' % (pos, fl_off), key='flag-pos', fn=f['qname'])
            elif (c, v.args[0]) not in ((ord('T'), '=='), (ord('F'), '!=')):
                R.at(w, 'the storage order flag is misread', key='flag', fn=f['qname'])
            else:
                R.ok('%s: storage order at %d' % (sc, pos))
    # byte order of the data
    sw = [n for n in outer(g.ops('call')) if short_name(n.op) == 'swap_endianess']
    data_sw = [n for n in sw if any(x.op == 'param' for a in n.op.args[:1] for x in subterms(a))]
    len_sw = [n for n in sw if n not in data_sw]
    reads = [n for n in outer(g.ops('call')) if (n.op.name or '').startswith('std::basic_istream::') and short_name(n.op) == 'read']
    if SIZES.get(sc, 1) > 1:
        wr = [n for n in g.ops('write') if n.op.loc is not None and n.op.loc.op == 'v' and n.op.loc.args[0].op == 'f' and
              n.op.loc.args[0].args[0].op == 'mem' and n.op.loc.args[0].args[0].args[0].op == 'param']
        if not data_sw and not wr and not [n for n in g.ops('call') if short_name(n.op) in ('reverse', 'swap', 'transform', 'for_each') or
                                           'bswap' in (n.op.name or '')] and len_sw:
            R.violation(f['qname'], 'an array of %s in the other byte order is never swapped' % sc, f['file'], f['line'], key='swap')
        elif not data_sw:
            R.unsure('%s: the bytes of the data are not swapped by swap_endianess' % sc)
        for n in data_sw:
            fs = [x for x in g.facts_at(n.i) if any(s.op == 'const' and s.args[0] in (60, 62) for s in subterms(x))]
            ok = None
            for x in fs:
                ok = mark_differs(x)
                if ok is not None:
                    break
            if ok is None and not fs and not any(s.op in ('phi', 'eff') for x in g.facts_at(n.i) for s in subterms(x)
                                                 if is_big(x) is not None) and \
                    not any(boolean_merge(x) for x in g.facts_at(n.i)):
                R.at(n, 'whether the bytes are swapped does not depend on the byte order of the file', key='swap', fn=f['qname'])
            elif ok is None and swap_cases(R, g, f, n):
                pass
            elif ok is None:
                R.unsure('%s: condition of the byte swap' % sc)
            elif not ok[0]:
                R.at(n, 'the bytes are swapped exactly when the byte order of the file is that of the machine', key='swap', fn=f['qname'])
            elif ok[1] is not None and ok[1] != dt_off:
                R.at(n, 'the byte order mark is read at %d, it is written at %d' % (ok[1], dt_off), key='swap-pos', fn=f['qname'])
            else:
                R.ok('%s: swapped exactly when the byte orders differ' % sc)
            rd = [r for r in reads if g.dominated(n.i, [r.i]) and n.op.args[0] == r.op.args[0]]
            if rd and len(n.op.args) > 1:
                pr, pw = poly(rd[0].op.args[1]), poly(n.op.args[1])
                if len(pr) == 1 and {k: v * SIZES.get(sc) for k, v in pw.items()} != pr:
                    R.at(n, 'not all of the elements read are swapped: %s' % show(n.op.args[1], 3), key='swap-all', fn=f['qname'])
            if reads and not rd:
                R.unsure('%s: what is swapped' % sc)
    for n in len_sw:
        b = [is_big(x) for x in g.facts_at(n.i) if is_big(x) is not None]
        if b and b[0] is False:
            R.at(n, 'the header length is swapped on little endian machines', key='len-swap', fn=f['qname'])
        elif b:
            R.ok('%s: header length is swapped on big endian machines' % sc)
    sq = order(g, [r for r in reads])
    if sq and len(sq) >= 4:
        sizes = [r.op.args[1] for r in sq[:4]]
        if [s.args[0] if s.op == 'const' else None for s in sizes[:2]] != [8, 2]:
            R.at(sq[0], 'the magic string and the header length are read as %s bytes' % ', '.join(show(s, 2) for s in sizes[:2]), key='sizes',
                 fn=f['qname'])
        else:
            R.ok('%s: 8 and 2 bytes are read' % sc)
        dst = base_loc(sq[1].op.args[0])
        base = sizes[2]
        p2 = poly(base)
        if len(p2) > 1 and frozenset() in p2 and any(dst in set(subterms(a)) or a.op in ('phi', 'eff') for k in p2 for a, e in k):
            R.at(sq[2], 'the header is read to %s bytes' % show(base, 3), key='hlen', fn=f['qname'])
        elif base.op == 'eff' and base.args[0] == sq[1].op.frame.id and base.args[1] == sq[1].op.nid and sq[1].op.args[1] == T('const', 2):
            R.at(sq[2], 'the header length is used in the byte order of the machine', key='len-order', fn=f['qname'])
        elif sizes[2].op in ('phi', 'eff') or dst in set(subterms(sizes[2])):
            R.ok('%s: the header is read to its length' % sc)
        else:
            R.at(sq[2], 'the header is not read to the length that was stored', key='hlen', fn=f['qname'])
        p = poly(sizes[3])
        if len(p) == 1 and list(p.values())[0] == SIZES.get(sc):
            num = list(list(p)[0])
            product(C, R, g, f, num[0][0] if len(num) == 1 else None, sq[3], sc)
        elif len(p) == 1:
            R.at(sq[3], '%s bytes are read per element of %s bytes' % (list(p.values())[0], SIZES.get(sc)), key='data', fn=f['qname'])
        else:
            R.unsure('%s: data size' % sc)
    # dimensions
    for n in outer(g.ops('call')):
        if short_name(n.op) == 'substr' and n.op.args and g.enclosing_loops(n.i) and sep is not None:
            a = n.op.args[0]
            if a.op == 'op' and a.args[0] == '+' and any(x.op == 'const' for x in a.args[1:]):
                k = [x for x in a.args[1:] if x.op == 'const'][0].args[0]
                if k < 1 or k > len(sep):
                    R.at(n, '%d characters are skipped after a dimension, the separator has %d' % (k, len(sep)), key='sep', fn=f['qname'])
                else:
                    R.ok('%s: dimensions are split as they are written' % sc)


def mark_value(t, file_big, machine_big):
    """truth of a condition over the byte order mark and the machine, None if unknown"""
    b = is_big(t)
    if b is not None:
        return machine_big == b
    if t.op == 'const':
        return t.args[0]
    if t.op == 'op':
        o = t.args[0]
        if o in ('==', '!=') and any(a.op == 'const' and a.args[0] in (60, 62) for a in t.args[1:]):
            c = [a for a in t.args[1:] if a.op == 'const'][0].args[0]
            return ((62 if file_big else 60) == c) == (o == '==')
        v = [mark_value(a, file_big, machine_big) for a in t.args[1:]]
        if o == '!':
            return None if v[0] is None else not v[0]
        if o == '&&':
            return False if False in v else None if None in v else all(v)
        if o == '||':
            return True if True in v else None if None in v else any(v)
        if o in ('==', '!=') and None not in v:
            return (bool(v[0]) == bool(v[1])) == (o == '==')
    if t.op == 'ite':
        c = mark_value(t.args[0], file_big, machine_big)
        if c is not None:
            return mark_value(t.args[1 if c else 2], file_big, machine_big)
    return None


def swap_cases(R, g, f, n):
    """report a swap made although the byte orders agree"""
    fa = g.facts_at(n.i)
    if any(boolean_merge(x) for x in fa):
        return False
    rel_ = [x for x in fa if is_big(x) is not None or any(s.op == 'const' and s.args[0] in (60, 62) for s in subterms(x)) or
            any(is_big(s) is not None for s in subterms(x))]
    for big in (True, False):
        vs = [mark_value(x, big, big) for x in rel_]
        if vs and all(v is True or v == 1 for v in vs):
            R.at(n, 'the bytes are swapped for a %s endian array on a %s endian machine' % (('big',) * 2 if big else ('little',) * 2), key='swap',
                 fn=f['qname'])
            return True
    return False


def boolean_merge(x):
    while x.op == 'op' and x.args[0] == '!':
        x = x.args[1]
    return x.op in ('phi', 'ite')


def substr_pos(t):
    """start of a substring in the header text"""
    if t.op == 'call' and (t.args[0] or '').endswith('substr') and t.args[2].op == 'const':
        inner = t.args[1]
        p = substr_pos(inner) if inner.op == 'call' else 0
        return None if p is None else p + t.args[2].args[0]
    if t.op == 'addr' or t.op == 'phi':
        return 0
    return None


def mark_differs(x):
    """(True when the fact says file order != machine order, position of the mark)"""
    neg = False
    while x.op == 'op' and x.args[0] == '!':
        x, neg = x.args[1], not neg
    if x.op != 'op' or x.args[0] not in ('==', '!=') or len(x.args) != 3:
        return None
    differ = (x.args[0] == '!=') != neg
    m = None
    for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
        big = is_big(b)
        t, n2 = a, False
        while t.op == 'op' and t.args[0] == '!':
            t, n2 = t.args[1], not n2
        if big is not None and t.op == 'op' and t.args[0] in ('==', '!=') and any(s.op == 'const' and s.args[0] in (60, 62) for s in t.args[1:]):
            c = [s for s in t.args[1:] if s.op == 'const'][0].args[0]
            e = [s for s in t.args[1:] if s.op != 'const']
            file_big = ((c == 62) == (t.args[0] == '==')) != n2
            pos = None
            if e and e[0].op == 'E' and e[0].args[0] == 'at' and e[0].args[2].op == 'const':
                q = substr_pos(e[0].args[1])
                pos = None if q is None else q + e[0].args[2].args[0]
            return (differ == (file_big == big)), pos
    return None


@rule('C13', 'placement', 'element (i,j) of the array becomes element (i,j) of the matrix for both storage orders, over all rows and columns')
def r_placement(C, R):
    fs = sorted((f for f in C.F.functions.values() if f['qname'] == NS + 'numpy_format::NumpyInput::operator Matrix'), key=lambda f: f['key'])
    if C.tier == 'quick':
        fs = [f for f in fs if scalar_of(f['key'], 'NumpyInput') in ('double', 'int')]
    for f in fs:
        what = f['key'].split('numpy_format::')[-1].replace('::operator ', ' to ')
        g = C.run(f)
        this = g.root.this
        ret = g.root.ret
        done = False
        for w in g.ops('write'):
            l = w.op.loc
            if l is None or l.op != 'v' or l.args[1] != 'at' or len(l.args) != 4 or w.op.val is None:
                continue
            v = w.op.val
            if v.op != 'E' or v.args[0] != 'at' or v.args[1].op != 'init' or this not in set(subterms(v.args[1])):
                continue
            r, c = l.args[2], l.args[3]
            alloc = None
            for x in g.ops('write'):
                if x.op.loc == l.args[0] and x.op.val is not None and x.op.val.op == 'alloc':
                    alloc = x.op.val
            if alloc is None or len(alloc.args) < 3:
                R.unsure('%s: allocation' % what)
                continue
            rows, cols = g.N(alloc.args[1]), g.N(alloc.args[2])
            idx = g.N(v.args[2])
            cases = []
            if idx.op == 'ite':
                cond = idx.args[0]
                neg = False
                while cond.op == 'op' and cond.args[0] == '!':
                    cond, neg = cond.args[1], not neg
                if cond.op == 'init' and cond.args[0].op == 'f':
                    cases = [(True, idx.args[1 + neg]), (False, idx.args[2 - neg])]
            elif idx.op != 'phi':
                for fa in g.facts_at(w.i):
                    cond, neg = fa, False
                    while cond.op == 'op' and cond.args[0] == '!':
                        cond, neg = cond.args[1], not neg
                    if cond.op == 'init' and cond.args[0].op == 'f' and cond.args[0].args[0] == mem(this):
                        cases = [(not neg, idx)]
                if not cases:
                    cases = [(True, idx), (False, idx)]
            if not cases:
                R.unsure('%s: position %s' % (what, show(idx, 3)))
                continue
            r, c = g.N(r), g.N(c)
            exp = lambda t: collapse(g, t)
            for fortran, t in cases:
                p = {tuple(sorted((collapse(g, a), e) for a, e in k)): x for k, x in poly(t).items()}
                p = poly(subst_collapse(g, t))
                R_, C_, r_, c_ = (subst_collapse(g, x) for x in (rows, cols, r, c))
                want = poly(T('op', '+', r_, T('op', '*', c_, R_))) if fortran else poly(T('op', '+', c_, T('op', '*', r_, C_)))
                done = True
                if p == want:
                    R.ok('%s: %s order' % (what, 'column' if fortran else 'row'))
                else:
                    R.at(w, 'for arrays stored %s the element of row r and column c is taken from %s' %
                         ('by columns' if fortran else 'by rows', show(t, 4)), key='place:%s' % fortran, fn=f['qname'])
            shape_product(C, R, g, f, w, what, rows, cols)
            # all rows and columns are visited
            for what2, ind, bound in (('rows', r, rows), ('columns', c, cols)):
                okb = None
                for lp in g.enclosing_loops(w.i):
                    for t in lp.tests():
                        if t.get('phi') == ind:
                            tr = t.get('trips')
                            ini = t.get('init')
                            if tr is not None and subst_collapse(g, lin_term(tr)) == subst_collapse(g, bound):
                                okb = True
                            elif tr is not None and okb is None:
                                okb = False
                                bad = tr
                if okb:
                    R.ok('%s: all %s' % (what, what2))
                elif okb is False:
                    b = subst_collapse(g, lin_term(bad))
                    if poly(b) != poly(subst_collapse(g, bound)):
                        R.at(w, 'not all %s are filled: the loop makes %s steps' % (what2, show(b, 3)), key='all:' + what2, fn=f['qname'])
                    else:
                        R.ok('%s: all %s' % (what, what2))
                else:
                    R.unsure('%s: loop over the %s' % (what, what2))
        if not done:
            R.unsure('%s: no element by element copy' % what)


def shape_product(C, R, g, f, w, what, rows, cols):
    """the rows are the first dimension and the columns the product of the others"""
    def is_dim(t):
        return t.op == 'E' and t.args[0] == 'at' and t.args[1].op == 'init'
    if is_dim(rows) and rows.args[2].op == 'const' and rows.args[2].args[0] != 0:
        R.at(w, 'the number of rows is dimension %s' % rows.args[2].args[0], key='rows', fn=f['qname'])
    elif is_dim(rows):
        R.ok('%s: rows are the first dimension' % what)
    if cols.op != 'phi':
        R.unsure('%s: number of columns' % what)
        return
    ini = [v for v in g.I.phis.get(cols, {}).values() if v.op == 'const']
    st = [v for v in g.I.phis.get(cols, {}).values() if v.op == 'op' and v.args[0] == '*' and cols in v.args[1:]]
    if len(ini) == 1 and not st and [v for v in g.I.phis.get(cols, {}).values() if is_dim(v) and v.args[2].op == 'phi']:
        R.at(w, 'the number of columns is the last dimension alone', key='cols', fn=f['qname'])
        return
    if len(ini) != 1 or len(st) != 1:
        R.unsure('%s: number of columns' % what)
        return
    if ini[0].args[0] != 1:
        R.at(w, 'the product of the dimensions starts at %s' % ini[0].args[0], key='cols-init', fn=f['qname'])
        return
    d = [x for x in st[0].args[1:] if x != cols]
    if len(d) == 1 and is_dim(d[0]) and d[0].args[2].op == 'phi':
        i0 = [v for v in g.I.phis.get(d[0].args[2], {}).values() if v.op == 'const']
        if len(i0) == 1 and i0[0].args[0] != 1:
            R.at(w, 'the number of columns is the product of the dimensions from %s on' % i0[0].args[0], key='cols', fn=f['qname'])
            return
        ix = d[0].args[2]
        lps = [l for l in g.loops(g.root) if ix in l.phis()]
        for l in lps:
            for t in l.tests():
                k = t.get('trips')
                if t.get('phi') is ix and isinstance(k, tuple) and not k[0]:
                    R.at(w, 'the product of the dimensions stops after %s of them' % k[1], key='cols-end', fn=f['qname'])
                    return
        R.ok('%s: columns are the other dimensions' % what)


def lin_term(t):
    """a linear form (trip count) as a term"""
    a, c = t
    out = None
    for k, v in sorted(a.items(), key=str):
        x = k if v == 1 else T('op', '*', T('const', v), k)
        out = x if out is None else T('op', '+', out, x)
    if out is None:
        return T('const', c)
    return out if c == 0 else T('op', '+', out, T('const', c))


def collapse(g, t):
    """a merge of a location that no iteration changes is its value before the loop"""
    seen = set()
    while isinstance(t, Term) and t.op == 'phi' and t not in seen:
        seen.add(t)
        vs = {v for v in g.I.phis.get(t, {}).values()} - {t}
        if len(vs) != 1:
            break
        t = list(vs)[0]
    return t


def subst_collapse(g, t):
    if not isinstance(t, Term):
        return t
    u = collapse(g, t)
    if u is not t and u != t:
        return subst_collapse(g, u)
    if t.op in ('op', 'ite'):
        return T(t.op, *[subst_collapse(g, a) if isinstance(a, Term) else a for a in t.args])
    return t


@rule('C13', 'matrix layout', 'the storage order flag given to the writer is that of the matrix, and the shape is its rows and columns')
def r_layout(C, R):
    fs = sorted((f for f in C.F.functions.values() if f['qname'] == NS + 'numpy_format::NumpyOutput::NumpyOutput' and len(f['params']) == 1),
                key=lambda f: f['key'])
    fs = [f for f in fs if 'Eigen::Matrix' in f['params'][0]['t']]
    for f in fs:
        t = f['params'][0]['t']
        g = C.run(f)
        this = mem(g.root.this)
        st = {k: v for k, v in g.root.exit_state.items() if k.op == 'f' and k.args[0] == this}
        ta = targs_of(rec_type(t))
        try:
            row_major = int(ta[3]) & 1
        except (ValueError, IndexError):
            R.unsure('layout of %s' % t)
            continue
        p = mem(T('param', f['key'], f['params'][0]['name']))
        for k, v in st.items():
            if v.op == 'const':
                if bool(v.args[0]) == bool(row_major):
                    R.violation(f['qname'], 'a matrix stored by %s is announced as stored by %s' % (('rows', 'columns') if row_major else ('columns', 'rows')),
                                f['file'], f['line'], key='layout:%d' % row_major)
                else:
                    R.ok('layout of %s' % t[:60])
            elif v.op == 'list' or (v.op == 'sized' and len(v.args) > 1):
                names = [x.args[0] for x in v.args if isinstance(x, Term) and x.op == 'E']
                if names == ['rows', 'cols']:
                    R.ok('shape of %s' % t[:60])
                elif len(names) == len(v.args):
                    R.violation(f['qname'], 'the shape of a matrix is written as (%s)' % ', '.join(names), f['file'], f['line'], key='shape')
                else:
                    R.unsure('shape of %s: %s' % (t[:60], show(v, 3)))


def rec_type(t):
    t = t.replace('const ', '').strip()
    return t.rstrip('& ').strip()


@rule('C13', 'byte swap', 'swapping an array reverses the bytes of each of its elements and of nothing else')
def r_swap(C, R):
    fs = sorted((f for f in C.F.functions.values() if f['qname'] == NS + 'numpy_format::swap_endianess'), key=lambda f: f['key'])
    for f in fs:
        sc = scalar_of(f['key'], 'swap_endianess')
        n = SIZES.get(sc)
        if n is None or n == 1:
            continue
        g = C.run(f)
        ws = [w for w in g.ops('write') if w.op.loc is not None and w.op.loc.op == 'v' and w.op.loc.args[1] == 'at' and w.op.val is not None and
              w.op.val.op == 'E' and w.op.val.args[0] == 'at' and w.op.loc.args[0].op == 'f']
        if len(ws) != 2:
            R.unsure('swap of %s' % sc)
            continue
        idx = [(g.N(w.op.loc.args[2]), g.N(w.op.val.args[2])) for w in ws]
        lp = g.enclosing_loops(ws[0].i)
        inner = lp[-1] if lp else None
        best = None
        for l in lp:
            for t in l.tests():
                if t.get('phi') in {x for a in idx for x in a} and t.get('trips') is not None:
                    if best is None or not t['trips'][0] and (best['trips'][0] or t['trips'][1] < best['trips'][1]):
                        best = t
        if best is None:
            R.unsure('swap of %s: loop' % sc)
            continue
        j = best['phi']
        want = poly(T('op', '+', T('op', '-', T('const', n - 1), j), T('const', 0)))
        pair = [tuple(sorted((str(sorted(map(str, poly(x).items()))) for x in a))) for a in idx]
        ok = all({frozenset(poly(x).items()) for x in a} == {frozenset(poly(j).items()), frozenset(want.items())} for a in idx)
        tr = lin_term(best['trips'])
        if not ok:
            R.at(ws[0], 'byte j of a %s is not exchanged with byte %d-j' % (sc, n - 1), key='swap-pair', fn=f['qname'])
        elif tr.op == 'const' and tr.args[0] != n // 2:
            R.at(ws[0], '%s exchanges are made for an element of %d bytes' % (tr.args[0], n), key='swap-count', fn=f['qname'])
        else:
            R.ok('swap of %s' % sc)
        # every element, read and written back at the same place
        pn = T('param', f['key'], f['params'][1]['name'])
        outer_ok = False
        for l in lp:
            for t in l.tests():
                if t.get('trips') is not None and lin_term(t['trips']) == pn:
                    outer_ok = t
        if not outer_ok:
            R.unsure('swap of %s: loop over the elements' % sc)
        else:
            R.ok('swap of %s: every element' % sc)
            i = outer_ok['phi']
            back = [w for w in g.ops('write') if w.op.loc is not None and w.op.loc.op == 'v' and w.op.loc.args[1] == 'at' and
                    w.op.loc.args[0].op == 'mem']
            for w in back:
                if collapse(g, g.N(w.op.loc.args[2])) != collapse(g, i):
                    R.at(w, 'a swapped element is written to another position', key='swap-back', fn=f['qname'])
