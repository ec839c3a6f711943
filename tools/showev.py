"""show an event of a trace with its operands"""
import json,sys
L=[json.loads(x) for x in open(sys.argv[1])]
for n in map(int,sys.argv[2:]):
    e=L[n-1]; i=n-1
    while L[i]['op']!='session': i-=1
    print('---',n,{k:v for k,v in L[i].items()})
    S={}
    for f in L[i:n]:
        if f.get('r'): S[f['r']]=f
    def short(v):
        s=json.dumps(v); return s if len(s)<1200 else s[:1200]+'...'
    for h in e.get('a',[]):
        f=S[h]; print(' arg',h,f['op'],f.get('f'),f.get('x'),f.get('a')); print('    ',short(f['v']))
    print(' EV',{k:v for k,v in e.items() if k!='v'}); print('   ->',short(e.get('v')))
