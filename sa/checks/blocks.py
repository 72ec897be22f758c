"""C25: how the flat list of tags is folded into blocks, as refinement of a reference program (see sa/sim.py).

Reading the next tag is an event; building the item a tag opens is an event of the item builder, which is a root of its
own (so nesting is covered by induction); functions that call themselves are roots of their own too."""
import work
from ai import *
from sim import *
from natives import variants,snoc
T='templito::template::'
TI,FI=T+'TreeItem',T+'FlatItem'
SIMPLE={'String':'String','Exp':'Exp','Let':'Let','Export':'Export','Return':'Return','Comment':'Comment'}
OPENERS=('If','For','AtLet','AtExport','Define','Global','Block','Switch','As')
STRAY=('Else','Elif','EndBlock','Case')
EMPTY=('vec',())
def P(t,v,i=0): return project(t,v,i)
def flat(F):
    for t in F.types:
        if t.get('name')==FI and t.get('variants'): return tuple(x['name'] for x in t['variants'])
    raise Bad('FlatItem not found')
def ty(F,name,var=None):
    for t in F.types:
        if t.get('name')==name and t.get('variants'):
            for x in t['variants']:
                if var is None or x['name']==var: return [n for n,_ in x['f']]
    raise Bad('%s not found'%name)
def make(F,tn,var,**f):
    ns=ty(F,tn,var); return ('adt',tn,var or tn.split('::')[-1],tuple(f[n if not n.isdigit() else '_'+n] for n in ns))
def simple(F,x,v):
    n=len(ty(F,FI,v)); return ('adt',TI,SIMPLE[v],tuple(P(x,v,i) for i in range(n)))
def builders(F):
    """functions that build the item a tag opens: (FlatItem, stream) -> Result<TreeItem>"""
    r=set()
    for k,b in F.bodies.items():
        if not b['local'] or b['kind']!='fn' or b['closure'] or b['argc']!=2: continue
        if F.types[b['locals'][1]].get('name')==FI and TI in F.types[b['locals'][0]].get('s','') and b['path'].startswith('templito'): r.add(b['path'])
    return r
class BlockSpec:
    heads=('body','ify','sw0','sw','root','swl')
    listed=False
    def __init__(self,F,A): self.F=F; self.A=A; self.sim=None; self.N=flat(F)
    def table(self): return {k[2:]:getattr(self,k) for k in dir(self) if k.startswith('l_')}
    def anyerr(self,s,v):
        if not(v[0]=='adt' and v[1]==RES and v[2]=='Err'): return 'returns %s where an error is due'%short(v)
    def l_fail(self,A,s,rest): return Ret(self.anyerr)
    def l_ok(self,A,s,rest,v): return self.ret(ok(v))
    def ret(self,want):
        def f(s,v):
            if not self.sim.same(s,v,want): return 'returns %s, expected %s'%(short(v,300),short(want,300))
        return Ret(f)
    def l_err(self,A,s,rest,e): return self.ret(err(e))
    def l_keep(self,A,s,rest,r): return Ret(lambda s,v:None if v==r or self.sim.same(s,v,r) else 'returns %s, expected %s'%(short(v),short(r)))
    def split(self,s,x,f):
        return Cases([(s2,f(s2,next(iter(s2.var[x])) if x[0]!='adt' else x[2])) for s2 in variants(self.A,s,x,self.N)])
    def nxt(self,k):
        """read a tag: k(state, tag or None) -> frames"""
        def then(s,r): return (('read',(('k',k),r)),)
        return Expect(Ev('next',(),lambda s,r:k(s,r)))
    def read(self,A,s,r,none,some):
        return Cases([(s2,none() if next(iter(s2.var[r]))=='None' else some(P(r,'Some'))) for s2 in variants(A,s,r,('None','Some'))])
    # a tag inside a block: the item it stands for is appended to acc, the last term of the frame rest[0]
    def l_item(self,A,s,rest,x,acc):
        def f(s,v):
            if v in SIMPLE: return rest_with(rest,snoc(acc,simple(self.F,x,v)))
            if v in STRAY: return (('fail',()),)
            return (('open',(x,acc)),)+rest
        return self.split(s,x,f)
    def l_open(self,A,s,rest,x,acc):
        return Expect(*[Ev(n,a,lambda s,r:(('opened',(r,acc)),)+rest) for n,a in self.opens(A,s,x)])
    def opens(self,A,s,x):
        r=[('item',(x,))]
        if x[0]=='adt' and x[2]=='If': r.append(('ifrest',(x[3][0],)))
        elif x[0]!='adt' and A.variants_of(s,x)==frozenset(['If']): r.append(('ifrest',(P(x,'If'),)))
        return r
    def l_opened(self,A,s,rest,r,acc):
        return Cases([(s2,(('err',(P(r,'Err'),)),) if next(iter(s2.var[r]))=='Err' else rest_with(rest,snoc(acc,P(r,'Ok')))) for s2 in variants(A,s,r,('Err','Ok'))])
    # a block up to its closer; rest[0] gets the block
    def l_body(self,A,s,rest,closer,acc): return Expect(Ev('next',(),lambda s,r:(('body2',(closer,acc,r)),)+rest))
    def l_body2(self,A,s,rest,closer,acc,r):
        return self.read(A,s,r,lambda:rest_with(rest,acc),lambda x:(('body3',(closer,acc,x)),)+rest)
    def closes(self,s,x,closer):
        "[(state, is it the closer)]"
        n=P(x,'EndBlock')
        return self.A.branch(s,('eqs',)+tuple(sorted((n,closer),key=rep)) if closer[0]!='str' else ('eqs',n,closer))
    def l_body3(self,A,s,rest,closer,acc,x):
        out=[]
        for s2 in variants(A,s,x,self.N):
            if next(iter(s2.var[x]))=='EndBlock' and closer!=('none',):
                for s3,t in self.closes(s2,x,closer): out.append((s3,rest_with(rest,acc) if t else (('fail',()),)))
            else: out.append((s2,(('item',(x,acc)),('body',(closer,))) +rest))
        return Cases(out)
    # one tag and what it opens
    def l_start(self,A,s,rest,x):
        F=self.F
        def f(s,v):
            p=lambda i=0:P(x,v,i)
            if v in SIMPLE: return (('ok',(simple(F,x,v),)),)
            if v in STRAY: return (('fail',()),)
            if v=='If': return (('ify',(p(),EMPTY)),)
            if v=='Switch': return (('swl',(p(),EMPTY)) if self.listed else ('sw0',(p(),)),)
            closer={'AtLet':('str','let'),'AtExport':('str','export'),'Define':('str','define'),'Global':('str','global'),'For':('str','for'),'As':('str','as')}.get(v,p())
            return (('body',(closer,EMPTY)),('built',(x,)))
        return self.split(s,x,f)
    def l_built(self,A,s,rest,x,b):
        F=self.F; v=next(iter(s.var[x])); p=lambda i=0:P(x,v,i)
        w={'AtLet':lambda:make(F,TI,v,_0=p(),_1=b),'AtExport':lambda:make(F,TI,v,_0=p(),_1=b),'Define':lambda:make(F,TI,v,_0=p(0),_1=p(1),_2=b),'Global':lambda:make(F,TI,v,_0=p(0),_1=p(1),_2=b),
           'For':lambda:make(F,TI,v,k=p(0),v=p(1),p=p(2),b=b),'Block':lambda:make(F,TI,v,command=p(0),params=p(1),block=b),'As':lambda:make(F,TI,v,exp=p(0),pat=p(1),block=b)}[v]()
        return self.ret(ok(w))
    # if
    def mkif(self,c,yes,no): return make(self.F,TI,'If',cond=c,yes=yes,no=no)
    def l_ify(self,A,s,rest,c,acc): return Expect(Ev('next',(),lambda s,r:(('ify2',(c,acc,r)),)))
    def l_ify2(self,A,s,rest,c,acc,r):
        return self.read(A,s,r,lambda:(('fail',()),),lambda x:(('ify3',(c,acc,x)),))
    def l_ify3(self,A,s,rest,c,acc,x):
        out=[]
        for s2 in variants(A,s,x,self.N):
            v=next(iter(s2.var[x]))
            if v=='EndBlock':
                for s3,t in self.closes(s2,x,('str','if')): out.append((s3,(('ok',(self.mkif(c,acc,NONE),)),) if t else (('fail',()),)))
            elif v=='Else': out.append((s2,(('body',(('str','if'),EMPTY)),('else',(c,acc)))))
            elif v=='Elif': out.append((s2,(('elif',(c,acc,P(x,'Elif'))),)))
            else: out.append((s2,(('item',(x,acc)),('ify',(c,)))))
        return Cases(out)
    def l_else(self,A,s,rest,c,yes,no): return self.ret(ok(self.mkif(c,yes,some(no))))
    def l_elif(self,A,s,rest,c,yes,p):
        k=lambda s,r:(('elif2',(c,yes,r)),)
        return Expect(Ev('ifrest',(p,),k),Ev('item',(('adt',FI,'If',(p,)),),k))
    def l_elif2(self,A,s,rest,c,yes,r):
        return Cases([(s2,(('err',(P(r,'Err'),)),) if next(iter(s2.var[r]))=='Err' else (('ok',(self.mkif(c,yes,some(('vec',(P(r,'Ok'),)))),)),)) for s2 in variants(A,s,r,('Err','Ok'))])
    # switch: before the first case, then inside one
    def sw(self,e,cases): return (('ok',(('adt',TI,'Switch',(e,cases)),)),)
    def case(self,pats,blk): return make(self.F,T+'Case',None,pats=pats,block=blk)
    def l_sw0(self,A,s,rest,e): return Expect(Ev('next',(),lambda s,r:(('sw02',(e,r)),)))
    def l_sw02(self,A,s,rest,e,r): return self.read(A,s,r,lambda:self.sw(e,EMPTY),lambda x:(('sw03',(e,x)),))
    def l_sw03(self,A,s,rest,e,x):
        out=[]
        for s2 in variants(A,s,x,self.N):
            v=next(iter(s2.var[x]))
            if v=='EndBlock':
                for s3,t in self.closes(s2,x,('str','switch')): out.append((s3,self.sw(e,EMPTY) if t else (('fail',()),)))
            elif v=='Case': out.append((s2,(('sw',(e,EMPTY,P(x,'Case'),EMPTY)),)))
            elif v=='String': out.append((s2,(('sw0',(e,)),)))
            else: out.append((s2,(('fail',()),)))
        return Cases(out)
    def l_sw(self,A,s,rest,e,cs,pats,acc): return Expect(Ev('next',(),lambda s,r:(('sw2',(e,cs,pats,acc,r)),)))
    def l_sw2(self,A,s,rest,e,cs,pats,acc,r):
        return self.read(A,s,r,lambda:self.sw(e,snoc(cs,self.case(pats,acc))),lambda x:(('sw3',(e,cs,pats,acc,x)),))
    def l_sw3(self,A,s,rest,e,cs,pats,acc,x):
        out=[]
        for s2 in variants(A,s,x,self.N):
            v=next(iter(s2.var[x])); done=snoc(cs,self.case(pats,acc))
            if v=='EndBlock':
                for s3,t in self.closes(s2,x,('str','switch')): out.append((s3,self.sw(e,done) if t else (('fail',()),)))
            elif v=='Case': out.append((s2,(('sw',(e,done,P(x,'Case'),EMPTY)),)))
            else: out.append((s2,(('item',(x,acc)),('sw',(e,cs,pats)))))
        return Cases(out)
    # the same with the open case kept as the last of the list of cases
    def l_swl(self,A,s,rest,e,l): return Expect(Ev('next',(),lambda s,r:(('swl2',(e,l,r)),)))
    def l_swl2(self,A,s,rest,e,l,r): return self.read(A,s,r,lambda:self.sw(e,l),lambda x:(('swl3',(e,l,x)),))
    def l_swl3(self,A,s,rest,e,l,x):
        out=[]; n=A.seq_len(s,l)
        for s2 in variants(A,s,x,self.N):
            v=next(iter(s2.var[x]))
            if v=='EndBlock':
                for s3,t in self.closes(s2,x,('str','switch')): out.append((s3,self.sw(e,l) if t else (('fail',()),)))
            elif v=='Case': out.append((s2,(('swl',(e,snoc(l,self.case(P(x,'Case'),EMPTY)))),)))
            else:
                for s3,t in A.branch(s2,ge(A.seq_len(s2,l),('int',1))):
                    if not t: out.append((s3,(('swl',(e,l)),) if v=='String' else (('fail',()),)))
                    else:
                        c=A.seq_get(s3,l,isub(A.seq_len(s3,l),('int',1))); ns=ty(self.F,T+'Case')
                        out.append((s3,(('item',(x,P(c,'Case',ns.index('block')))),('swl4',(e,l,P(c,'Case',ns.index('pats')))))))
        return Cases(out)
    def l_swl4(self,A,s,rest,e,l,pats,blk):
        return Go((('swl',(e,('upd',l,isub(A.seq_len(s,l),('int',1)),self.case(pats,blk)))),))
    # the whole template
    def l_root(self,A,s,rest,b): 
        def f(s,v):
            w=make(self.F,T+'TreeTemplate',None,v=b,pnames=EMPTY)
            if not self.sim.same(s,v,ok(w)): return 'returns %s, expected %s'%(short(v,300),short(ok(w),300))
        return Ret(f)
    def l_rec(self,A,s,rest,r): return Go(rest)
def rest_with(rest,v):
    (l,env)=rest[0]; return ((l,env+(v,)),)+rest[1:]
def setup(F,root):
    """an interpreter in which the item builders and recursive calls are events"""
    A=work.interp(F); A.nomerge=True; bs=builders(F); names=flat(F)
    def item(ai,st,c,args):
        x=natives_cont(ai,st,args[0]); out=[]
        for s in variants(ai,st,x,names):
            v=next(iter(s.var[x])) if x[0]!='adt' else x[2]
            if v in SIMPLE: out.append((s,ok(simple(F,x,v))))
            elif v in STRAY: out.append((s,err(('stray',x))))
            else:
                s=s.copy(); r=ai.fresh('ret','item'); ai.typed(r,c.dty); s.ev=s.ev+(('item',(x,),r,c.span),); out.append((s,r))
        return out
    for b in bs: A.anchors[b]=item
    A.recs=set()
    def onrec(st,body,args,c):
        s=st.copy(); r=A.fresh('ret','rec'); A.typed(r,c.dty); A.recs.add(body)
        vals=tuple(x for x in (natives_cont(A,st,a) for a in args) if x!=A.stream)
        s.ev=s.ev+(('ifrest',vals,r,c.span),); return [(s,r)]
    A.onrec=onrec
    return A
def natives_cont(ai,st,a):
    from natives import cont
    return cont(ai,st,a)
def args_of(F,k):
    b=F.bodies[k]; return [('arg',i) for i in range(b['argc'])]
def pick(F,path):
    ks=[k for k,b in F.bodies.items() if b['path']==path and '@' not in k and b['kind']=='fn']
    ks.sort(key=lambda k:('IntoIter' in k,k))
    return ks[0] if ks else None
def decide(F,root):
    """root = (kind, body key)"""
    kind,k=root
    A=setup(F,kind); S=BlockSpec(F,A); sim=Sim(A,S.table(),S.heads,{}); S.sim=sim
    args=args_of(F,k)
    if kind=='item': A.stream=args[1]; fr=(('start',(args[0],)),)
    elif kind=='ifrest': A.stream=args[1]; fr=(('ify',(args[0],EMPTY)),)
    else:
        A.stream=project(('arg',0),'FlatTemplate',ty(F,T+'FlatTemplate').index('v'))
        fr=(('body',(('none',),EMPTY)),('root',()))
    outs=A.run_body(k,args,St())
    sim.run(outs,fr)
    seen={}
    def kd(s):
        if kind!='item': return kind
        v=s.var.get(('arg',0)); return next(iter(v)) if v and len(v)==1 else '/'.join(sorted(v)) if v else 'unknown'
    for s,v in outs:
        for q in kd(s).split('/'): seen[q]=seen.get(q,0)+1
    msgs=[(kd(s),m,p) for m,p,s in sim.msgs]
    if kind=='item' and any(x=='Switch' for x,_,_ in msgs):
        S=BlockSpec(F,A); S.listed=True; sim2=Sim(A,S.table(),S.heads,{}); S.sim=sim2
        sim2.run([(s,v) for s,v in outs if kd(s)=='Switch'],fr)
        if not sim2.msgs: msgs=[x for x in msgs if x[0]!='Switch']
        elif __import__('os').environ.get('DBG'): print(sim2.msgs[0][:2])
    return dict(kinds=seen,msgs=msgs,ev=sim.nev,loops=sim.nloops,paths=len(outs),recs=sorted(A.recs),unknown=sorted(A.unknown))
def c25(F,r):
    r.rule=('reading a tag is an event; every path and loop of the function that builds the item a tag opens, of the functions it repeats itself through, and of FlatTemplate::to_tree is matched by the reference '
            'program: a block takes tags up to its own closer, everything in between is built and kept in order, a stray closer, else, elif or case fails')
    bs=sorted(builders(F)); r.floor('item builders',len(bs),1)
    tt=pick(F,T+'FlatTemplate::to_tree'); r.ob('FlatTemplate::to_tree exists',tt is not None)
    roots=[('item',pick(F,b)) for b in bs]+[('root',tt)]*(tt is not None)
    done=set(); tot=dict(paths=0,ev=0,loops=0)
    while roots:
        more=[]
        for root,x,e in work.pool(F,roots,decide,200):
            done.add(root); nm=F.bodies[root[1]]['path'].split('::')[-1]; sp=F.bodies[root[1]]['span']
            if e: r.ob('%s: analysed'%nm,False,e,sp); continue
            for t in tot: tot[t]+=x[t]
            bad={}
            for k,m,p in x['msgs']: bad.setdefault(k,(m,p))
            for k in sorted(set(x['kinds'])|set(bad)):
                m=bad.get(k); r.ob('%s %s follows the reference'%(root[0],k),m is None,'%d paths'%x['kinds'].get(k,0) if m is None else '%s (events: %s)'%m,sp)
            if root[0]=='item':
                for v in flat(F): r.ob('tag %s analysed'%v,v in x['kinds'],'no path for this tag',sp)
            for k in x['recs']:
                if F.bodies[k]['argc']==2 and 'Expr' in F.types[F.bodies[k]['locals'][1]].get('s',''):
                    if ('ifrest',k) not in done: more.append(('ifrest',k))
                else: r.ob('%s repeats itself only where the reference does'%F.bodies[k]['path'].split('::')[-1],False,'a recursive function that is not the rest of an if',F.bodies[k]['span'])
        roots=sorted(set(more)-done)
    r.floor('functions refined',len(done),2)
    r.count('paths',tot['paths']); r.count('events matched',tot['ev']); r.count('loops matched',tot['loops'])
    parse(F,r)
    r.assumptions=['equality of tag names is equality of texts','what text a tag is read from is C11']
def parse(F,r):
    """TreeTemplate::from_str is to_tree of the parsed tags"""
    k=[k for k,b in F.bodies.items() if b['path']=='<%sTreeTemplate as core::str::traits::FromStr>::from_str'%T]
    r.ob('TreeTemplate::from_str found',bool(k))
    if not k: return
    import summ
    A=work.interp(F,{T+'FlatTemplate::to_tree':summ.event('to_tree')},drop=('<%sTreeTemplate as core::str::traits::FromStr>::from_str'%T,)); A.nomerge=True
    outs=A.run_body(k[0],[('arg',0)],St()); good=0; bad=None
    for s,v in outs:
        ev=[e for e in s.ev if e[0]=='to_tree']
        if not ev:
            if not(v[0]=='adt' and v[2]=='Err'): bad='answers %s without building a tree'%short(v)
            continue
        if len(ev)>1: bad='builds two trees'; continue
        x,ret=ev[0][1][0],ev[0][2]
        if not any(t==('arg',0) for t in subterms(x)): bad='builds a tree of something else than the text: %s'%short(x)
        if v==ret or v[0]=='adt' and v[2]=='Ok' and v[3][0]==project(ret,'Ok',0): good+=1
        elif v[0]=='adt' and v[2]=='Err' and s.var.get(ret)==frozenset(['Err']): good+=1
        else: bad='answers %s'%short(v)
    r.ob('TreeTemplate::from_str builds the tree of the parsed tags',bad is None and good>0,bad or '%d paths'%len(outs),F.bodies[k[0]]['span'])
