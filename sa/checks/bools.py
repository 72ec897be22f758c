"""C20: comparison and logic helpers."""
import helpers, work, scan
from ai import *
from scan import *
def load(F,r,setname,names):
    rs,_=helpers.registrations(F,setname)
    d={}
    for reg in rs or []:
        for n,f in reg:
            if n[0]=='str': d[n[1]]=f
    for n in names:
        if n not in d: r.ob('helper %s is registered'%n,False,'no helper of this name is registered by %s'%setname)
    return {n:d[n] for n in names if n in d}
def start(F,A,f,st=None,arg=('arg',0)):
    st=st or St()
    if f[0]=='fn': return A.run_body(f[1][0] if isinstance(f[1],tuple) else f[1],[arg],st)
    return A.run_body(f[1],[f,arg],st)
SPEC={'eq':('all',1,R_eq,True),'gt':('all',1,R_rel(['Greater']),True),'lt':('all',1,R_rel(['Less']),True),
 'gte':('all',1,R_rel(['Greater','Equal']),True),'lte':('all',1,R_rel(['Less','Equal']),True),
 'eq_any':('any',1,R_eq,True),'and':('all',0,R_true,False),'nand':('nall',0,R_true,False),'or':('any',0,R_true,False),'nor':('nany',0,R_true,False),
 'neq':('nall',1,R_eq,True)}
S=('arg',0)
def one(F,root):
    name,f=root; q,c0,R,need1=SPEC[name]
    A=work.interp(F); A.nomerge=True; st=St()
    if name=='neq': A.add_lin(st,ladd(tolin(('len',S)),lconst(-2)),ladd(lconst(2),tolin(('len',S)),-1))
    outs=start(F,A,f,st); out=[]
    sc=Scan(A,S,c0,R)
    for s,kind,v in rets(outs):
        if any(e[0]!='loop' for e in s.ev): out.append(('effect',False,'performs %s'%[e[0] for e in s.ev if e[0]!='loop'])); continue
        if kind=='Err':
            ok=need1 and A.prove_ge(s,('int',0),A.seq_len(s,S))
            out.append(('error only without arguments',ok,'returns an error although arguments were given' if not ok else '')); continue
        b=const_bool(v) if kind=='Ok' else None
        if b is None: out.append(('result is a truth value',False,'returns %r'%(v,))); continue
        for s2,t in A.branch(s,b):
            want=t if q in('all','any') else (not t)
            if q in('all','nall'): ok=sc.all_true(s2) if want else sc.some_false(s2)
            else: ok=sc.neg().some_false(s2) if want else sc.neg().all_true(s2)
            msg='' if ok else 'it returns %s where %s cannot be shown: facts %s'%(t,{True:'the relation for all / some argument',False:'its negation'}[want],sorted(map(repr,list(s2.atom.items())+[(k,sorted(x)) for k,x in s2.var.items()]))[:6])
            out.append(('%s is exact'%str(t).lower(),ok,msg))
    return out
def c20(F,r):
    r.rule=('abstract interpretation of each comparison helper with an unknown argument list; every return of true or false must be justified by the loop invariant '
            '"all arguments before the cursor satisfy the relation" at exhaustion, or by an explicit witness')
    fs=load(F,r,'with_defaults',list(SPEC))
    r.floor('comparison helpers',len(fs),11)
    for root,res,e in work.pool(F,sorted(fs.items(),key=lambda x:x[0]),one,120):
        n=root[0]
        if e: r.ob('%s: analysed'%n,False,e); continue
        kinds={}
        for k,ok,m in res:
            if k not in kinds or not ok: kinds[k]=(ok and kinds.get(k,(True,))[0],m or kinds.get(k,(0,''))[1])
        for k,(ok,m) in kinds.items(): r.ob('%s: %s'%(n,k),ok,m,F.bodies[fs[n][1][0]]['path'] if fs[n][0]=='fn' and isinstance(fs[n][1],tuple) else '')
        got={k for k,_,_ in res}
        for k in('true is exact','false is exact'): r.ob('%s: %s reachable'%(n,k),k in got,'the helper never returns this value')
    r.assumptions=['equality and the partial order of two values are those of TData (their own correctness is C21 and C08)']
