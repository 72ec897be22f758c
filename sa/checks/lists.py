"""C27: list helpers refine reference programs over the elements of their arguments (see sa/sim.py).  C08 (second part):
the comparison functions handed to sorting and searching refine a reference comparison."""
import work, summ, scan, helpers
from ai import *
from sim import *
from natives import variants,cont,setv,snoc,ap
from checks import order as O
TD='templito::tdata::TData'
S=('arg',0)
SORTS=('alloc::slice::<impl [T]>::sort_by','core::slice::<impl [T]>::sort_unstable_by')
SEARCH=('core::slice::<impl [T]>::binary_search_by',)
def td(v,*x): return adt(TD,v,*x)
def okl(l): return ok(td('List',l))
NULL=ok(td('Null'))
ANY=lambda s,v: None
def anyerr(s,v):
    if not(v[0]=='adt' and v[1]==RES and v[2]=='Err'): return 'returns %s where an error is due'%short(v)
def engine(F):
    A=work.interp(F); A.nomerge=True; A.cmps={}
    def sort(ai,st,c,args):
        v=cont(ai,st,args[0]); x,y=('elem',v,('sym','i',c.span)),('elem',v,('sym','j',c.span))
        s0=st.copy(); s0.ev=()
        outs=ai.retry(s0,lambda s: ai.invoke(s,args[1],[x,y],c))
        r=ai.fresh('ret','sort'); A.cmps[r]=(outs,x,y); new=('sorted',v,r)
        st=st.copy(); st.ev=st.ev+(('sort',(v,),r,c.span),); setv(ai,st,args[0],new); return [(st,UNIT)]
    def search(ai,st,c,args):
        v=cont(ai,st,args[0]); x=('elem',v,('sym','i',c.span))
        s0=st.copy(); s0.ev=()
        outs=ai.retry(s0,lambda s: ai.invoke(s,args[-1],[x],c))
        r=ai.fresh('ret','search'); A.cmps[r]=(outs,x,None)
        st=st.copy(); st.ev=st.ev+(('search',(v,),r,c.span),)
        p,q=('fld',r,'Ok',0),('fld',r,'Err',0)
        for t in(p,q): ai.tyr[t]=(False,64)
        nl=tolin(ai.seq_len(st,v)); out=[]
        for s in variants(ai,st,r,('Ok','Err')):
            k=next(iter(s.var[r])); t=('fld',r,k,0); s=s.copy()
            try: ai.add_lin(s,ladd(ladd(nl,tolin(t),-1),lconst(-1 if k=='Ok' else 0)))
            except Dead: continue
            out.append((s,adt(RES,k,t)))
        return out
    for n in SORTS: A.anchors[n]=sort
    for n in SEARCH: A.anchors[n]=search
    for k,b in F.bodies.items():
        if b['path'].endswith('::parse_s') : pass
    return A
def funcs(F):
    rs,_=helpers.registrations(F,'with_defaults'); out={}
    for reg in rs or []:
        for nm,f in reg:
            if nm[0]=='str': out[nm[1]]=f
    return out
def key(f): return f[1][0] if isinstance(f[1],tuple) else f[1]
def start(A,f,st=None):
    st=st or St()
    return A.run_body(key(f),[S],st) if f[0]=='fn' else A.run_body(f[1],[f,S],st)
class ListSpec:
    static={'gr':(0,1),'gp':(0,1)}; form=0
    heads=('cp','ap','apin','so','soin','crit','scan','fil','gr','gp','sl','len')
    threads={}
    def __init__(self,F,A,name): self.F=F; self.A=A; self.name=name; self.sim=None; self.cmpmsgs=[]; self.ncmp=0; self.crit=0
    def table(self): return {k[2:]:getattr(self,k) for k in dir(self) if k.startswith('l_')}
    def same(self,s,v,x): return self.sim.same(s,v,x)
    def split(self,A,s,b,t,f): return Cases([(s2,t(s2) if x else f(s2)) for s2,x in A.branch(s,b)])
    def kinds(self,A,s,x,f,vs=scan.ALLV):
        "cases on the variant of x: f(state,variant)"
        x=canon(A,s,x); out=[]
        for s2 in variants(A,s,x,vs):
            v=next(iter(s2.var[x])) if x[0]!='adt' else x[2]
            out.append((s2,f(s2,v,lambda i=0,v=v:project(x,v,i))))
        return Cases(out)
    def more(self,A,s,xs,i,go,end): return self.split(A,s,ge(A.seq_len(s,xs),iadd(i,('int',1))),lambda s:go(canon(A,s,A.seq_get(s,xs,i))),lambda s:end)
    def argn(self,A,s,n,go): return self.split(A,s,ge(A.seq_len(s,S),('int',n+1)),lambda s:go(A.seq_get(s,S,('int',n))),lambda s:FAIL)
    def l_fail(self,A,s,rest): return Ret(anyerr)
    def l_any(self,A,s,rest): return Ret(ANY)
    def l_give(self,A,s,rest,x): return Ret(lambda s,v: None if self.same(s,v,ok(x)) else 'returns %s, expected %s'%(short(v),short(x)))
    def l_start(self,A,s,rest): return getattr(self,'s_'+self.name)(A,s)
    # list: all arguments
    def s_list(self,A,s): return Go((('cp',(I0,NIL)),))
    def l_cp(self,A,s,rest,i,l): return self.more(A,s,S,i,lambda e:(('cp',(iadd(i,I1),snoc(l,e))),),(('give',(td('List',l),)),))
    # append: the elements of lists, other values themselves
    def s_append(self,A,s): return Go((('ap',(I0,NIL)),))
    def l_ap(self,A,s,rest,i,l): return self.more(A,s,S,i,lambda e:(('ape',(e,i,l)),),(('give',(td('List',l),)),))
    # form 1: the elements of a list at once
    def inner(self,c,p,i,l): return (c,(iadd(i,I1),self.A.cat(l,p))) if self.form else (c+'in',(p,I0,iadd(i,I1) if c=='so' else i,l))
    def l_ape(self,A,s,rest,e,i,l): return self.kinds(A,s,e,lambda s,v,p:(self.inner('ap',p(),i,l),) if v=='List' else (('ap',(iadd(i,I1),snoc(l,e))),))
    def l_apin(self,A,s,rest,x,j,i,l): return self.more(A,s,x,j,lambda e:(('apin',(x,iadd(j,I1),i,snoc(l,e))),),(('ap',(iadd(i,I1),l)),))
    # sort: the elements of all lists, sorted
    def s_sort(self,A,s): return Go((('so',(I0,NIL)),))
    def l_so(self,A,s,rest,i,l): return self.more(A,s,S,i,lambda e:(('soe',(e,i,l)),),(('sortit',(l,None)),))
    def l_soe(self,A,s,rest,e,i,l): return self.kinds(A,s,e,lambda s,v,p:(self.inner('so',p(),i,l),) if v=='List' else (('so',(iadd(i,I1),l)),))
    def l_soin(self,A,s,rest,x,j,i,l): return self.more(A,s,x,j,lambda e:(('soin',(x,iadd(j,I1),i,snoc(l,e))),),(('so',(i,l)),))
    def l_sortit(self,A,s,rest,l,X):
        def f(s,ev):
            if ev[0]!='sort': return '%s happens where the list is to be sorted'%ev[0]
            if not self.same(s,ev[1][0],l): return 'sorts %s instead of %s'%(short(ev[1][0]),short(l))
            self.compare(s,ev,X,None)
            return (('give',(td('List',('sorted',l,ev[2])),)),)
        # nothing to sort in an empty list
        return Any(f,ret=lambda s,v: None if A.prove_ge(s,I0,A.seq_len(s,l)) and self.same(s,v,ok(td('List',NIL))) else 'returns %s, the list is not sorted'%short(v))
    # criteria
    def parsed(self,x):
        ts={t for t in self.texts if t[0]=='ap' and t[1]=='parse'}; tys={t[2] for t in ts}
        if len(tys)!=1: raise Bad('the criteria are not read by one parser')
        return ('ap','parse',next(iter(tys)),x)
    def l_crit(self,A,s,rest,i,X,k): return self.more(A,s,S,i,lambda e:(('crite',(e,i,X,k)),),((k[0],k[1:]+(X,)),))
    def l_crite(self,A,s,rest,e,i,X,k):
        def f(s,v,p):
            if v!='String': return FAIL
            return (('critp',(self.parsed(p()),i,X,k)),)
        return self.kinds(A,s,e,f)
    def l_critp(self,A,s,rest,g,i,X,k): return Cases([(s2,(('crit',(iadd(i,I1),snoc(X,project(g,'Ok',0)),k)),) if 'Ok' in s2.var[g] else FAIL) for s2 in variants(A,s,g,('Err','Ok'))])
    def s_sort_on(self,A,s): return self.argn(A,s,0,lambda x:(('son',(x,)),))
    def l_son(self,A,s,rest,x):
        if A.prove_ge(s,I1,A.seq_len(s,S)): return Go(FAIL)
        return Go((('crit',(I1,NIL,('sortit2',x))),))
    def l_sortit2(self,A,s,rest,x,X): return self.kinds(A,s,x,lambda s,v,p:(('sortit',(p(),X)),) if v=='List' else FAIL)
    def s_bin_search(self,A,s):
        return self.split(A,s,ge(A.seq_len(s,S),('int',3)),lambda s:(('bin',(A.seq_get(s,S,I0),A.seq_get(s,S,I1))),),lambda s:FAIL)
    s_bin_get=s_bin_search
    def l_bin(self,A,s,rest,x,n): return Go((('crit',(('int',2),NIL,('binx',x,n))),))
    def l_binx(self,A,s,rest,x,n,X): return self.kinds(A,s,x,lambda s,v,p:(('binit',(p(),n,X)),) if v=='List' else FAIL)
    def l_binit(self,A,s,rest,l,n,X):
        def f(s,ev):
            if ev[0]!='search': return '%s happens where the list is to be searched'%ev[0]
            if not self.same(s,ev[1][0],l): return 'searches %s instead of %s'%(short(ev[1][0]),short(l))
            self.compare(s,ev,X,n)
            return (('found',(ev[2],l)),)
        return Any(f,ret=lambda s,v:'returns %s without searching'%short(v))
    def l_found(self,A,s,rest,r,l):
        def g(s2):
            if 'Ok' not in s2.var[r]: return td('Null')
            p=('fld',r,'Ok',0); return td('UInt',p) if self.name=='bin_search' else A.seq_get(s2,l,p)
        return Cases([(s2,(('give',(g(s2),)),)) for s2 in variants(A,s,r,('Ok','Err'))])
    def compare(self,s,ev,X,needle):
        outs,x,y=self.A.cmps[ev[2]]; self.ncmp+=1
        L=Lex(self.F,self.A); sim=Sim(self.A,L.table(),L.heads); L.sim=sim
        sim.run(outs,(('lex',(X,I0,x,needle if y is None else y)),) if X is not None else (('plain',(x,y)),))
        self.cmpmsgs+=[(m,p) for m,p,_ in sim.msgs]
    # index_of
    def s_index_of(self,A,s):
        return self.split(A,s,ge(A.seq_len(s,S),('int',2)),lambda s:(('idx',(A.seq_get(s,S,I0),A.seq_get(s,S,I1))),),lambda s:FAIL)
    def l_idx(self,A,s,rest,n,x): return self.kinds(A,s,x,lambda s,v,p:(('scan',(n,p(),I0)),) if v=='List' else (('give',(td('Null'),)),))
    def l_scan(self,A,s,rest,n,l,i): return self.more(A,s,l,i,lambda e:(('scane',(n,l,i,e)),),(('give',(td('Null'),)),))
    def l_scane(self,A,s,rest,n,l,i,e):
        class C: rpath='eq'
        return Cases([(s2,(('give',(td('UInt',i),)),) if t else (('scan',(n,l,iadd(i,I1))),)) for s1,b in summ.h_eq(A,s,C,[e,n]) for s2,t in A.branch(s1,b)])
    # get: the element at a position or key
    def s_get(self,A,s): return self.split(A,s,ge(A.seq_len(s,S),('int',2)),lambda s:(('get',(A.seq_get(s,S,I0),A.seq_get(s,S,I1))),),lambda s:FAIL)
    def l_get(self,A,s,rest,x,k): return self.kinds(A,s,x,lambda s,v,p:(('geti',(p(),k)),) if v=='List' else (('getk',(p(),k)),) if v=='Map' else (('any',()),) if v=='String' else FAIL)
    def l_geti(self,A,s,rest,l,k):
        return self.kinds(A,s,k,lambda s,v,p:(('getn',(l,p())),) if v in('Int','UInt') else FAIL)
    def l_getn(self,A,s,rest,l,n):
        return self.split(A,s,ge(n,I0),lambda s:(('getr',(l,n)),),lambda s:(('give',(td('Null'),)),))
    def l_getr(self,A,s,rest,l,n): return self.split(A,s,ge(A.seq_len(s,l),iadd(n,I1)),lambda s:(('give',(A.seq_get(s,l,n),)),),lambda s:(('give',(td('Null'),)),))
    def l_getk(self,A,s,rest,m,k):
        return self.kinds(A,s,k,lambda s,v,p:(('getm',(m,p())),) if v=='String' else FAIL)
    def l_getm(self,A,s,rest,m,k): return Cases([(s2,(('give',(('mapval',m,k) if t else td('Null'),)),)) for s2,t in A.branch(s,('mapin',m,k))])
    # filter
    def s_filter(self,A,s): return self.split(A,s,ge(A.seq_len(s,S),('int',2)),lambda s:(('filp',(A.seq_get(s,S,I0),self.parsed(('disp',A.seq_get(s,S,I1))))),),lambda s:FAIL)
    def l_filp(self,A,s,rest,x,g):
        return Cases([(s2,(('filx',(x,project(g,'Ok',0))),) if 'Ok' in s2.var[g] else FAIL) for s2 in variants(A,s,g,('Err','Ok'))])
    def l_filx(self,A,s,rest,x,g): return self.kinds(A,s,x,lambda s,v,p:(('fil',(p(),I0,NIL,g)),) if v=='List' else FAIL)
    def l_fil(self,A,s,rest,l,i,o,g): return self.more(A,s,l,i,lambda e:(('file',(l,i,o,g,e)),),(('give',(td('List',o),)),))
    def l_file(self,A,s,rest,l,i,o,g,e):
        scope=lambda s,v: v[0]=='ap' and v[1]=='Scope::new' and len(v)==3 and v[2][0]=='vec' and len(v[2][1])==1 and self.same(s,v[2][1][0],e)
        return Expect(Ev('Expr::run',(g,scope,None,None),lambda s,r:(('filr',(l,i,o,g,e,r)),)))
    def l_filr(self,A,s,rest,l,i,o,g,e,r):
        nx=lambda o:(('fil',(l,iadd(i,I1),o,g)),)
        return Cases([(s2,(('filt',(l,i,o,g,e,project(r,'Ok',0))),) if 'Ok' in s2.var[r] else nx(o)) for s2 in variants(A,s,r,('Err','Ok'))])
    def l_filt(self,A,s,rest,l,i,o,g,e,x):
        nx=lambda o:(('fil',(l,iadd(i,I1),o,g)),); out=[]
        for s2 in variants(A,s,x,scan.ALLV):
            b=truthy(next(iter(s2.var[x])) if x[0]!='adt' else x[2],x,A,s2)
            out+=[(s3,nx(snoc(o,e) if t else o)) for s3,t in A.branch(s2,b)]
        return Cases(out)
    # groups
    def number(self,A,s,x,f):
        "the position a value stands for"
        def g(s,v,p):
            if v=='UInt': return f(p())
            if v=='Int': return (('nat',(p(),f)),)
            return FAIL
        return self.kinds(A,s,x,g)
    def l_nat(self,A,s,rest,n,f): return self.split(A,s,ge(n,I0),lambda s:f(n),lambda s:FAIL)
    def s_groups(self,A,s): return self.split(A,s,ge(A.seq_len(s,S),('int',2)),lambda s:(('grn',(A.seq_get(s,S,I0),A.seq_get(s,S,I1))),),lambda s:FAIL)
    def l_grn(self,A,s,rest,n,x): return self.number(A,s,n,lambda m:(('grm',(m,x)),))
    def l_grm(self,A,s,rest,n,x): return self.split(A,s,ge(n,I1),lambda s:(('grx',(n,x)),),lambda s:(('grx',(I1,x)),))
    def l_grx(self,A,s,rest,n,x): return self.kinds(A,s,x,lambda s,v,p:(('gr0',(n,p())),) if v=='List' else FAIL)
    def l_gr0(self,A,s,rest,n,l): return self.split(A,s,ge(A.seq_len(s,l),I1),lambda s:(('gp' if self.form else 'gr',(n,l,I0,NIL)),),lambda s:(('give',(td('List',NIL),)),))
    def l_gr(self,A,s,rest,n,l,g,o):
        "groups from the g-th on; l is not empty"
        a=A.arith('Mul',n,g); nl=A.seq_len(s,l); b=ge(nl,iadd(a,I1)); end=(('give',(td('List',o),)),)
        go=lambda s:(('grs',(n,l,g,o)),)
        if A.truth(s,b) is None:          # the same condition, divided by n
            b2=ge(A.div(s,isub(nl,I1),n),g)
            if A.truth(s,b2) is not None: b=b2
        return self.split(A,s,b,go,lambda s:end)
    def l_grs(self,A,s,rest,n,l,g,o):
        a=A.arith('Mul',n,g); e=A.arith('Mul',n,iadd(g,I1)); nl=A.seq_len(s,l)
        nx=lambda e:(('gr',(n,l,iadd(g,I1),snoc(o,td('List',A.seq_slice(s,l,a,e))))),)
        if A.truth(s,ge(nl,e)) is None and A.truth(s,ge(nl,iadd(e,I1))) is False: return Cases([(s,nx(nl))])
        return self.split(A,s,ge(nl,e),lambda s:nx(e),lambda s:nx(nl))
    # form 1: by position
    def l_gp(self,A,s,rest,n,l,a,o): return self.split(A,s,ge(A.seq_len(s,l),iadd(a,I1)),lambda s:(('gps',(n,l,a,o)),),lambda s:(('give',(td('List',o),)),))
    def l_gps(self,A,s,rest,n,l,a,o):
        e=iadd(a,n); nl=A.seq_len(s,l); nx=lambda e:(('gp',(n,l,e,snoc(o,td('List',A.seq_slice(s,l,a,e))))),)
        if A.truth(s,ge(nl,e)) is None and A.truth(s,ge(nl,iadd(e,I1))) is False: return Cases([(s,nx(nl))])
        return self.split(A,s,ge(nl,e),lambda s:nx(e),lambda s:nx(nl))
    # slice
    def s_slice(self,A,s): return self.split(A,s,ge(A.seq_len(s,S),('int',2)),lambda s:(('sl0',(A.seq_get(s,S,I0),A.seq_get(s,S,I1))),),lambda s:FAIL)
    def l_sl0(self,A,s,rest,x,a): return self.number(A,s,a,lambda m:(('sl1',(x,m)),))
    def l_sl1(self,A,s,rest,x,a): return self.kinds(A,s,x,lambda s,v,p:(('sl2',(p(),a)),) if v=='List' else (('any',()),) if v=='String' else FAIL)
    def l_sl2(self,A,s,rest,l,a):
        end=lambda s:(('sl4',(l,a,A.seq_len(s,l))),)
        return self.split(A,s,ge(A.seq_len(s,S),('int',3)),lambda s:(('sl3',(l,a,A.seq_get(s,S,('int',2)))),),end)
    def l_sl3(self,A,s,rest,l,a,e):
        # an end that is no position counts as none
        none=(('sl4',(l,a,A.seq_len(s,l))),)
        def g(s,v,p):
            if v=='UInt': return (('sl4',(l,a,p())),)
            if v=='Int': return (('sl5',(l,a,p())),)
            return none
        return self.kinds(A,s,e,g)
    def l_sl5(self,A,s,rest,l,a,e): return self.split(A,s,ge(e,I0),lambda s:(('sl4',(l,a,e)),),lambda s:(('sl4',(l,a,A.seq_len(s,l))),))
    def l_sl4(self,A,s,rest,l,a,e):
        out=[]
        for s1,t in A.branch(s,ge(e,a)):
            if not t: out.append((s1,FAIL)); continue
            for s2,u in A.branch(s1,ge(A.seq_len(s1,l),e)): out.append((s2,(('sl0r',(l,a,e)),) if u else FAIL))
        return Cases(out)
    def l_sl0r(self,A,s,rest,l,a,e):
        part=td('List',A.seq_slice(s,l,a,e))
        return Either(lambda s,v: None if self.same(s,v,ok(part)) else 'returns %s'%short(v),(('sl',(l,a,e,NIL)),))
    def l_sl(self,A,s,rest,l,i,e,o):
        return self.split(A,s,ge(e,iadd(i,I1)),lambda s:(('sl',(l,iadd(i,I1),e,snoc(o,A.seq_get(s,l,i)))),),lambda s:(('give',(td('List',o),)),))
I0=('int',0); I1=('int',1); NIL=('vec',()); FAIL=(('fail',()),)
def truthy(v,x,A,s):
    p=project(x,v,0) if v!='Null' else None
    if v=='Bool': return p
    if v in('String','List','Map'): return ge(A.seq_len(s,p if v!='Map' else ('entries',p)),I1)
    if v in('UInt','Int'): return mk_not(mk_eq0(tolin(p)))
    if v=='Float': return mk_not(A.fcmp(s,'Eq',p,('float','0')))
    return FALSE
class Lex:
    """the comparison of two elements by a list of criteria"""
    heads=('lex',)
    def __init__(self,F,A):
        self.F=F; self.A=A; self.sim=None
    def table(self): return {k[2:]:getattr(self,k) for k in dir(self) if k.startswith('l_')}
    def ordered(self,A,s,a,b):
        class C: rpath='order'
        out=[]
        for s1,v in summ.h_order(A,s,C,[a,b]):
            if v[0]=='adt': out.append((s1,v[2])); continue
            for s2 in variants(A,s1,v,summ.ORDV): out.append((s2,next(iter(s2.var[v]))))
        return out
    def l_give(self,A,s,rest,o):
        def f(s,v):
            c=O.const_ord(A,s,v)
            if c==o[1]: return None
            return 'compares as %s, expected %s'%(c or short(v),o[1])
        return Ret(f)
    def l_plain(self,A,s,rest,a,b): return Cases([(s2,(('give',(('str',o),)),)) for s2,o in self.ordered(A,s,a,b)])
    def l_lex(self,A,s,rest,X,i,a,b):
        out=[]
        for s1,t in A.branch(s,ge(A.seq_len(s,X),iadd(i,I1))):
            if not t: out.append((s1,(('give',(('str','Equal'),)),))); continue
            c=A.seq_get(s1,X,i); out.append((s1,(('crit',(X,i,a,b,c)),)))
        return Cases(out)
    def l_crit(self,A,s,rest,X,i,a,b,c):
        ty,dn,pt=comparator(self.F); down=project(c,ty,dn); p=project(c,ty,pt); out=[]
        ga,gb=('ap','getv',a,p),('ap','getv',b,p)
        for s1 in variants(A,s,ga,('None','Some')):
            for s2 in variants(A,s1,gb,('None','Some')):
                va,vb=next(iter(s2.var[ga])),next(iter(s2.var[gb]))
                if va!=vb: rs=[(s2,'Greater' if va=='Some' else 'Less')]
                elif va=='Some': rs=self.ordered(A,s2,project(ga,'Some',0),project(gb,'Some',0))
                else: rs=self.ordered(A,s2,a,b)
                for s3,o in rs:
                    if o=='Equal': out.append((s3,(('lex',(X,iadd(i,I1),a,b)),))); continue
                    for s4,d in A.branch(s3,down): out.append((s4,(('give',(('str',summ.FLIP[o] if d else o),)),)))
        return Cases(out)
_c={}
def comparator(F):
    "name and fields (reversed?, path) of the criterion type: a struct of a bool and a path"
    if 'c' in _c: return _c['c']
    r=[]
    for t in F.types:
        if t['k']=='adt' and t.get('akind')=='struct' and t['name'].startswith('templito::') and len(t['variants'])==1 and len(t['variants'][0]['f'])==2:
            fs=[F.types[f[1]]['s'] for f in t['variants'][0]['f']]
            if sorted(fs)==['alloc::vec::Vec<templito::expr::VarPart>','bool']: r.append((t['variants'][0]['name'],fs.index('bool'),1-fs.index('bool')))
    if len(r)!=1: raise Bad('the type of sort criteria is not found')
    _c['c']=r[0]; return r[0]
HELPERS=('list','append','sort','sort_on','bin_search','bin_get','index_of','get','filter','groups','slice')
NOERR=('list','append','sort')
# a helper refuses only arguments that are missing, of another kind, or that name nothing
MIN={'sort_on':2,'bin_search':3,'bin_get':3,'index_of':2,'get':2,'filter':2,'groups':2,'slice':2}
def excused(A,s,name):
    """is there, on this failing path, an argument that the helper has no use for?"""
    two=('int',2); n=A.seq_len(s,S)
    if A.prove_ge(s,('int',MIN[name]-1),n): return True
    if name=='get' and A.prove_ge(s,n,('int',3)): return True
    # a text that does not parse (a criterion, a filter)
    if name in('sort_on','bin_search','bin_get','filter') and any(t[0]=='ap' and t[1]=='parse' and v==frozenset(['Err']) for t,v in s.var.items()): return True
    first=1 if name=='sort_on' else 2
    if name in('sort_on','bin_search','bin_get'):
        for t,v in s.var.items():
            if t[0]=='elem' and t[1]==S and 'String' not in v and A.prove_ge(s,t[2],('int',first)): return True
    def case(s,k0,k1):
        p0,p1=project(x0,k0,0),project(x1,k1,0)
        if name in('sort_on','bin_search','bin_get','filter'): return k0!='List'
        if name=='get': return k0=='String' or (k0,k1) not in(('List','Int'),('List','UInt'),('Map','String'))
        if name=='groups':
            if k1!='List' or k0 not in('Int','UInt'): return True
            return A.prove_ge(s,('int',-1),p0)
        if name=='slice':
            if k0=='String': return True
            if k0!='List' or k1 not in('Int','UInt') or A.prove_ge(s,('int',-1),p1): return True
            l=A.seq_len(s,p0)
            if A.prove_ge(s,p1,iadd(l,I1)): return True
            for s1,three in A.branch(s,ge(n,('int',3))):
                if not three: return False
                e=canon(A,s1,A.seq_get(s1,S,two))
                for s2 in variants(A,s1,e,scan.ALLV):
                    k=e[2] if e[0]=='adt' else next(iter(s2.var[e])); q=project(e,k,0)
                    if k not in('Int','UInt'): return False
                    if A.prove_ge(s2,q,iadd(l,I1)) or A.prove_ge(s2,isub(p1,I1),q) and (k=='UInt' or A.prove_ge(s2,q,I0)): continue
                    return False
            return True
        return False
    x0,x1=canon(A,s,A.seq_get(s,S,I0)),canon(A,s,A.seq_get(s,S,I1))
    for s1 in variants(A,s,x0,scan.ALLV):
        for s2 in variants(A,s1,x1,scan.ALLV):
            if not case(s2,x0[2] if x0[0]=='adt' else next(iter(s2.var[x0])),x1[2] if x1[0]=='adt' else next(iter(s2.var[x1]))): return False
    return True
FORMS=('append','sort','groups')
def one(F,root):
    name,f=root; A=engine(F); outs=start(A,f)
    def sim(form):
        P=ListSpec(F,A,name); P.form=form; P.sim=Sim(A,P.table(),P.heads); P.sim.static=P.static
        P.texts=texts; P.sim.run(good,(('start',()),)); return P
    texts={t for s,_ in outs for t in s.var}|{t for L in A.loops.values() for e in L.edges for t in e[3].var}
    good=[(s,v) for s,v in outs if anyerr(s,v)]
    if name not in NOERR: errs=['refuses arguments it has a use for: '+short(v,150) for s,v in outs if not anyerr(s,v) and not excused(A,s,name)]
    else: errs=['returns an error' for s,v in outs if not anyerr(s,v)]
    P=sim(0)
    if P.sim.msgs and name in FORMS:
        P2=sim(1)
        if not P2.sim.msgs: P=P2
    sim=P.sim
    return dict(msgs=[(m,'') for m in errs]+[(m,p) for m,p,s in sim.msgs],cmp=P.cmpmsgs,ncmp=P.ncmp,paths=len(outs),good=len(good),loops=sim.nloops,unknown=sorted(A.unknown))
def run(F):
    fs=funcs(F); roots=[(n,fs[n]) for n in HELPERS if n in fs]
    return fs,work.pool(F,roots,one,300)
def c27(F,r):
    r.rule=('every path and loop of the list helpers, for any argument list, is matched by a reference that builds the result from positions in and elements of the list arguments')
    fs,res=run(F); paths=loops=0
    r.floor('list helpers',len(res),len(HELPERS))
    for (n,f),x,e in res:
        if e: r.ob('%s: analysed'%n,False,e); continue
        paths+=x['paths']; loops+=x['loops']
        r.ob('%s: results are built from the given lists'%n,not x['msgs'],'%d paths'%x['paths'] if not x['msgs'] else '%s (events: %s)'%x['msgs'][0],F.bodies[key(f)]['span'] if key(f) in F.bodies else '')
        r.ob('%s: gives a result'%n,x['good']>0,'every path ends in an error')
    r.count('paths',paths); r.count('loops matched',loops)
    r.assumptions=['sorting and binary search of slices are those of the standard library (their comparison functions are decided by C08)']
# ---------------------------------------------------------------- C08
SORTED=('sort','sort_on','bin_search','bin_get')
def critical(F):
    """what the text of a criterion means: (problem or None).  The rule of the criterion type must be a dash that may be missing,
    giving the reversal flag, followed by a path"""
    import grammar
    ty,dn,pt=comparator(F); G=grammar.Grammar(F); n=0
    for name,t in G.t.items():
        for atoms,s,v in G.alts(t):
            if not(v and v[0]=='adt' and v[2]==ty and v[1].startswith('templito::')): continue
            n+=1; down,path=v[3][dn],v[3][pt]
            d=bool(atoms) and atoms[0]==('lit','-')
            if down!=(TRUE if d else FALSE): return 'the reversal flag is %s for a criterion with%s dash'%(short(down),'' if d else 'out'),n
            rep=[a for a in atoms if a[0]=='rep']
            if len(rep)!=1 or path!=rep[0][-1] or any(a[0] not in('lit','not','rep') for a in atoms) or [a for a in atoms if a[0]=='lit']!=[('lit','-')]*d: return 'a criterion is more than a dash and a path',n
            if not d and not any(a[0]=='not' and a[1]==('lit','-') for a in atoms) and n==1: return 'the dash is not looked for first',n
    return (None if n>=2 else 'no rule reads a sort criterion'),n
def c08(F,r):
    r.rule=('the order of values: every pair of kinds and every path of the comparison, decided over integers and floats (with NaN), must be one total preorder; '
            'the comparison handed to sort, sort_on, bin_search and bin_get must be that order, taken criterion by criterion, missing fields first, reversed exactly where the criterion says so')
    k=O.okey(F,summ.ORDER)
    if not k: r.ob('the order of values',False,'%s not found'%summ.ORDER); return
    (_,t,e),=work.pool(F,[k],lambda F,k:O.table(F,k,[A0,A1]),200)
    if e: r.ob('order: analysed',False,e)
    else: O.order_obs(F,r,'order of values',t)
    fs=funcs(F); roots=[(n,fs[n]) for n in SORTED if n in fs]
    r.floor('sorting and searching helpers',len(roots),len(SORTED))
    for (n,f),x,e in work.pool(F,roots,one,300):
        where=F.bodies[key(f)]['span'] if key(f) in F.bodies else ''
        if e: r.ob('%s: analysed'%n,False,e); continue
        r.ob('%s: compares by the order of values'%n,not x['cmp'] and x['ncmp']>0,'%d ways through the comparison'%x['ncmp'] if not x['cmp'] and x['ncmp'] else (x['cmp'] or ['no comparison found'])[0],where)
        r.ob('%s: sorts and searches the list it was given'%n,not x['msgs'],'' if not x['msgs'] else x['msgs'][0][0],where)
    bad,n=critical(F)
    r.ob('criteria: a leading dash reverses, the rest is the path',not bad,'%d rules'%n if not bad else bad)
    r.assumptions=['sorting and binary search of slices are those of the standard library; comparison of text, dates and vectors, boxes and maps of comparable things are those of the standard library and chrono']
A0,A1=('arg',0),('arg',1)
