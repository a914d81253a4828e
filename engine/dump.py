import sys, facts, interp
from interp import show
F = facts.load()
def dump(fr, I, ind=0, kinds=None):
    P = I.prep(fr.fn)
    for b in P['order']:
        if b not in fr.blocks: continue
        items, edges = fr.blocks[b]
        print('  '*ind + 'B%d -> %s' % (b, [(s, show(f,5) if isinstance(f, interp.Term) else f) for s, f in edges]))
        for o in items:
            if kinds and o.kind not in kinds: continue
            print('  '*ind + '   %s %s l%d obj=%s args=%s loc=%s how=%s val=%s res=%s' % (o.kind, o.name, o.line, show(o.obj,7), [show(a,6) for a in o.args or []], show(o.loc,7) if o.loc is not None else None, o.how, show(o.val,7) if o.val is not None else None, show(o.res,5) if isinstance(o.res,interp.Term) else None))
            if o.child: dump(o.child, I, ind+2, kinds)
if __name__ == '__main__':
    sub = sys.argv[1]
    kinds = set(sys.argv[2].split(',')) if len(sys.argv) > 2 else {'call','maycall','write','branch','ret','throw','spawn','lock','dtor','cast','div','math','ecall','bindref','iter','static','catch'}
    ks = [k for k in F.functions if sub in k]
    print('\n'.join(ks[:20]))
    I = interp.Interp(F)
    fr = I.run(ks[0])
    dump(fr, I, 0, kinds)
    print('PHIS')
    for p, d in I.phis.items(): print(show(p), {k: show(v,5) for k, v in d.items()})
    print(I.warnings)
