import sys, facts
F=facts.load()
def pn(fn,i,ind=0,out=None):
    n=fn['nodes'].get(i)
    if n is None: print(' '*ind,i,'??'); return
    d={k:v for k,v in n.items() if k not in('c','k','a','o','f','pk','vars')}
    print(' '*ind,i,n['k'],d)
    if 'vars' in n:
        for v in n['vars']:
            print(' '*ind,'  var',{k:x for k,x in v.items()}); 
            if 'init' in v: pn(fn,v['init'],ind+4)
    if 'o' in n: print(' '*ind,' .o'); pn(fn,n['o'],ind+2)
    for c in n.get('a',[]): pn(fn,c,ind+2)
    for c in n['c']: pn(fn,c,ind+2)
for k,f in F.functions.items():
    if sys.argv[1] in k:
        print('=====',k,f['file'],f['line'],{x:y for x,y in f.items() if x not in('nodes','blocks','key','file')})
        if len(sys.argv)>2:
            pn(f,f['body'])
            for b in f['blocks']: print({x:y for x,y in b.items()})
