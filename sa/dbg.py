import sys,json,traceback,time
sys.path.insert(0,'/verif/sa')
from facts import *
import ai
def pp(t,d=0):
    if not isinstance(t,tuple): return str(t)
    if not t: return '()'
    k=t[0]
    if not isinstance(k,str): return '('+', '.join(pp(x) for x in t)+')'
    if k=='int': return str(t[1])
    if k=='str': return json.dumps(t[1])
    if k=='bool': return str(t[1])
    if k=='lin': return '('+'+'.join(['%d'%t[1]]*(t[1]!=0)+[('%d*'%c if c!=1 else '')+pp(a) for a,c in t[2]])+')'
    if k in('ge0','eq0'): return pp(ai.fromlin(t[1]))+{'ge0':'>=0','eq0':'==0'}[k]
    if k=='not': return '!'+pp(t[1])
    if k=='adt': return t[1].split('::')[-1]+'::'+str(t[2])+('('+', '.join(pp(x) for x in t[3])+')' if t[3] else '')
    if k=='tup': return '('+', '.join(pp(x) for x in t[1])+')'
    if k=='fld' and len(t)==4: return pp(t[1])+'.'+(str(t[2])+'.' if t[2] else '')+str(t[3])
    if k=='elem': return pp(t[1])+'['+pp(t[2])+']'
    if k=='len': return '|'+pp(t[1])+'|'
    if k in('phi','ret','new'): return k+str(t[1])+(':'+':'.join(pp(x) for x in t[2:]) if len(t)>2 else '')
    if k=='vec': return '['+', '.join(pp(x) for x in t[1])+']'
    return k+'('+', '.join(pp(x) for x in t[1:])+')'
def show(A,st,v,full=True):
    print('  =>',pp(v))
    if full:
        print('      var ',{pp(k):sorted(x) for k,x in st.var.items()})
        print('      atom',[('' if x else '!')+pp(k) for k,x in st.atom.items()])
        print('      lin ',[pp(('ge0',l)) for l in sorted(st.lin,key=repr)])
        if st.ev: print('      ev  ',[pp(e) for e in st.ev])
def loops(A):
    for lid,L in A.loops.items():
        print('  LOOP',lid,L.name)
        for k,n in L.nodes.items():
            print('    node',n.idx,{pp(c):pp(v) for c,v in n.mem.items()}, 'inv',[pp(('ge0',l)) for l in n.lin])
        print('    entry',{pp(a):pp(b) for a,b in L.entry_sub.items()})
        for a,b,sg,s in L.edges:
            print('    edge',L.nodes[a].idx,'->',L.nodes[b].idx,{pp(x):pp(y) for x,y in sg.items()},'ev',[pp(e) for e in s.ev],'atoms',[('' if x else '!')+pp(k) for k,x in s.atom.items()],'var',{pp(k):sorted(x) for k,x in s.var.items()})
if __name__=='__main__':
    F=Facts('/verif/.build/d.json') if 'Facts' in globals() else load('/verif/.build/d.json')
    full='-v' in sys.argv
    for p in [a for a in sys.argv[1:] if a not in('-v','-n')]:
        import summ; A=ai.AI(F,summ.base()); A.nomerge='-n' in sys.argv; t0=time.time()
        key=next(k for k in F.bodies if k==p or F.bodies[k]['path']==p)
        b=F.bodies[key]
        st=ai.St()
        try:
            outs=A.run_body(key,[('arg',i) for i in range(b['argc'])],st)
        except Exception as e:
            traceback.print_exc(); print(p,'EXC',type(e),str(e)[:300]); continue
        print(p,len(outs),'outcomes','%.1fs'%(time.time()-t0),'unknown',A.unknown)
        bad=[(k,v) for k,v in A.obls.items() if not v[0]]
        print(' obls',len(A.obls),'bad',len(bad))
        for k,v in bad: print('   BAD',k,v[1:])
        if full:
            for s,v in outs: show(A,s,v)
            loops(A)
