"""C18: path lookup (every implementation of TParam::get_v) refines a reference lookup (see sa/sim.py).  A lookup delegated
to another implementation is the term getv(value, rest of the path), decided where that implementation is analysed."""
import work, summ
from ai import *
from sim import *
from natives import variants,ap,one as ONE,cont,snoc
TD='templito::tdata::TData'; TP='templito::tparam::TParam'; CD='card_format::card::'
PATH=('arg',1); PART=('Id','Num'); ME=('arg',0)
def td(v,*x): return adt(TD,v,*x)
def getv(ai,st,c,args): return ONE(st,('ap','getv',cont(ai,st,args[0]),cont(ai,st,args[1])))
# type -> (variant holding a map, variant holding a list) and the term of the whole value
TREE={TD:('Map','List',('Bool','Null','String','UInt','Int','Float','List','Map','Date','Template','Bytes'),lambda x:x),
 'serde_json::value::Value':('Object','Array',('Null','Bool','Number','String','Array','Object'),lambda x:('ap','of_json',x)),
 'toml::value::Value':('Table','Array',('String','Integer','Float','Boolean','Datetime','Array','Table'),lambda x:('ap','of_toml',x)),
 CD+'CData':('M','L',('S','N','L','M'),lambda x:('ap','of_cdata',x))}
LEAF={'alloc::string::String':'String','str':'String','&str':'String','usize':'UInt','f64':'Float','bool':'Bool'}
class Look:
    heads=('walk','tree','ev','cv')
    def __init__(self,F,A,ty): self.F=F; self.A=A; self.ty=ty; self.sim=None
    def table(self): return {k[2:]:getattr(self,k) for k in dir(self) if k.startswith('l_')}
    def same(self,s,v,x): return self.sim.same(s,v,x)
    def part(self,A,s,i,none,idf,num,end):
        """cases on the i-th step of the path"""
        out=[]; p=A.seq_get(s,PATH,i)
        for s1,more in A.branch(s,ge(A.seq_len(s,PATH),iadd(i,('int',1)))):
            if not more: out.append((s1,end(s1))); continue
            q=canon(A,s1,p)
            for s2 in variants(A,s1,q,PART):
                k=next(iter(s2.var[q])) if q[0]!='adt' else q[2]
                out+=(idf if k=='Id' else num)(s2,project(q,k,0))
        return Cases(out)
    NOTHING=(('nothing',()),)
    def nothing(self,s,*a): return [(s,self.NOTHING)]
    def l_nothing(self,A,s,rest): return Ret(lambda s,v: None if self.same(s,v,adt(OPT,'None')) else 'returns %s for a path that names nothing'%short(v))
    def l_give(self,A,s,rest,x): return Ret(lambda s,v: None if self.same(s,v,some(x)) else 'returns %s, expected %s'%(short(v),short(x)))
    def rest_of(self,A,s,i): return PATH if i==('int',0) else A.seq_slice(s,PATH,i,A.seq_len(s,PATH))
    def isget(self,x,i):
        "the function returns what the lookup of the rest of the path in x returns"
        return lambda s,v: None if self.deleg(s,v,x,i) else 'returns %s, expected the lookup of the rest of the path (from %s) in %s'%(short(v),short(i),short(x))
    def deleg(self,s,v,x,i):
        A=self.A; w=v
        vs=None
        if v[0]=='adt' and v[1]==OPT:          # taken apart and put together again
            for g,vs in s.var.items():
                if g[0]=='ap' and g[1]=='getv' and vs==frozenset([v[2]]) and (v[2]=='None' or v[3][0]==project(g,'Some',0)) and self.deleg(s,g,x,i): return True
            return False
        if not(w[0]=='ap' and w[1]=='getv' and self.same(s,w[2],x)): return False
        p=w[3]; n=A.seq_len(s,PATH)
        if p==self.rest_of(A,s,i): return True
        if p[0]=='slice' and p[1]==PATH and A.prove_eq(s,p[2],i) and A.prove_eq(s,p[3],n): return True
        if p==PATH and A.prove_eq(s,i,('int',0)): return True
        return p==('vec',()) and A.prove_ge(s,i,n)
    def l_deleg(self,A,s,rest,x,i): return Ret(self.isget(x,i))
    # a value with nothing inside, reached after i steps
    def l_leaf(self,A,s,rest,x,i):
        return Either(self.isget(x,i),(('leaf2',(x,i)),))
    def l_leaf2(self,A,s,rest,x,i):
        return Cases([(s1,(('give',(x,)),) if not m else self.NOTHING) for s1,m in A.branch(s,ge(A.seq_len(s,PATH),iadd(i,('int',1))))])
    def key(self,A,s,m,k,f): return [(s2,f(('mapval',m,k)) if t else self.NOTHING) for s2,t in A.branch(s,('mapin',m,k))]
    def idx(self,A,s,l,n,f): return [(s2,f(A.seq_get(s2,l,n)) if t else self.NOTHING) for s2,t in A.branch(s,ge(A.seq_len(s,l),iadd(n,('int',1))))]
    # the implementations
    def l_start(self,A,s,rest):
        t=self.ty
        if t in TREE: return Go((('walk',(ME,('int',0))),))
        if t in LEAF: return Go((('leaf',(td(LEAF[t],ME),('int',0))),))
        if t=='alloc::borrow::Cow': return Ret(self.isget(ME,('int',0)))
        i=('int',0); j=('int',1); D=lambda x:(('deleg',(x,j)),)
        if t=='std::collections::hash::map::HashMap':
            return self.part(A,s,i,None,lambda s,k:self.key(A,s,ME,k,D),self.nothing,lambda s:(('cv',(('entries',ME),i,('map0',))),))
        if t=='alloc::vec::Vec<&str>':
            return self.part(A,s,i,None,self.nothing,lambda s,n:self.idx(A,s,ME,n,lambda e:(('leaf',(td('String',e),j)),)),lambda s:(('ev',(i,('vec',()))),))
        if t==CD+'Card':
            f=dict(num=project(ME,'Card',0),name=project(ME,'Card',1),data=project(ME,'Card',2))    # the crate is not part of /repo
            def ids(s,k):
                out=[]
                # as in the card's value: an entry of its data hides its own name and number
                for s0,fr in self.key(A,s,f['data'],k,D):
                    if fr!=self.NOTHING: out.append((s0,fr)); continue
                    for s1,a in A.branch(s0,('eqs',k,('str','Name'))):
                        if a: out.append((s1,(('leaf',(td('String',f['name']),j)),))); continue
                        for s2,b in A.branch(s1,('eqs',k,('str','Num'))):
                            out.append((s2,(('leaf',(td('UInt',f['num']),j)),) if b else self.NOTHING))
                return out
            return self.part(A,s,i,None,ids,self.nothing,lambda s:(('give',(('ap','of_card',ME),)),))
        if t.startswith('(&'):
            a,b=project(ME,None,0),project(ME,None,1)
            g=('ap','getv',a,PATH); out=[]
            for s1 in variants(A,s,g,('None','Some')): out.append((s1,(('deleg',(a if 'Some' in s1.var[g] else b,i)),)))
            return Cases(out)
        if t=='templito::tparam::KV':
            k0,v0=project(ME,'KV',0),project(ME,'KV',1)
            return self.part(A,s,i,None,lambda s,k:[(s1,D(('ap','into',v0)) if a else self.NOTHING) for s1,a in A.branch(s,self.eqs(k0,k))],self.nothing,lambda s:self.NOTHING)
        raise Bad('no reference for %s'%t)
    def eqs(self,a,b):
        a,b=sorted((a,b),key=rep); return ('eqs',a,b)
    def l_walk(self,A,s,rest,x,i):
        if A.prove_eq(s,i,('int',0)): return Go((('tree',(x,i)),))
        return Either(self.isget(x,i),(('tree',(x,i)),))
    def l_tree(self,A,s,rest,x,i):
        mv,lv,vs,whole=TREE[self.ty]; j=iadd(i,('int',1))
        on=lambda y:(('walk',(y,j)),)
        def step(want,f):
            def g(s,k):
                out=[]
                for s2 in variants(A,s,x,vs):
                    v=next(iter(s2.var[x])) if x[0]!='adt' else x[2]
                    out+=f(A,s2,project(x,v,0),k,on) if v==want else [(s2,self.NOTHING)]
                return out
            return g
        return self.part(A,s,i,None,step(mv,self.key),step(lv,self.idx),lambda s:(('give',(whole(x),)),))
    # a map with the entries es, each value converted, from entry i on
    def l_cv(self,A,s,rest,es,i,m):
        out=[]
        for s1,t in A.branch(s,ge(A.seq_len(s,es),iadd(i,('int',1)))):
            e=A.seq_get(s1,es,i)
            out.append((s1,(('cv',(es,iadd(i,('int',1)),('mins',m,project(e,None,0),('ap','into',project(e,None,1))))),) if t else (('give',(td('Map',m),)),)))
        return Cases(out)
    def l_ev(self,A,s,rest,i,l):
        out=[]
        for s1,t in A.branch(s,ge(A.seq_len(s,ME),iadd(i,('int',1)))):
            out.append((s1,(('ev',(iadd(i,('int',1)),snoc(l,td('String',A.seq_get(s1,ME,i))))),) if t else (('give',(td('List',l),)),)))
        return Cases(out)
def impls(F):
    import re
    out={}
    for k,b in F.bodies.items():
        m=re.match(r'^<(.*) as templito::tparam::TParam>::get_v$',b['path'])
        if m and b['kind']=='fn' and 'promoted' not in k and '{closure' not in k and '@' not in k: out[k]=m.group(1)
    return out
def kind(t):
    if t in TREE or t in LEAF or t=='alloc::vec::Vec<&str>' or t==CD+'Card': return t
    if t.startswith('(&') : return t
    return t.split('<')[0]
def one(F,root):
    k,t=root; A=work.interp(F,{TP+'::get_v':getv,'<%s as %s>::get_v'%(TD,TP):getv}); A.nomerge=True
    A.onrec=lambda st,body,args,c: getv(A,st,c,args)
    S=Look(F,A,t); sim=Sim(A,S.table(),S.heads); S.sim=sim
    n=F.bodies[k]; outs=A.run_body(k,[ME,PATH],St()); sim.run(outs,(('start',()),))
    return dict(msgs=[(m,p) for m,p,s in sim.msgs],paths=len(outs),loops=sim.nloops,unknown=sorted(A.unknown))
def c18(F,r):
    r.rule=('every path of every lookup implementation returns: for the empty path the value itself; else the result of looking up the rest of the path in the entry of that name (maps) or number (lists); else nothing. '
            'Lookups in inner values are the induction step.')
    im=impls(F); known={k:kind(t) for k,t in im.items()}
    KN=set(TREE)|set(LEAF)|{'alloc::vec::Vec<&str>',CD+'Card','templito::tparam::KV','std::collections::hash::map::HashMap','alloc::borrow::Cow'}
    roots=[(k,t) for k,t in known.items() if t in KN or t.startswith('(&')]
    r.floor('lookup implementations with a reference',len({t for _,t in roots}),16)
    paths=loops=0
    for (k,t),x,e in work.pool(F,roots,one,200):
        if e: r.ob('%s: analysed'%im[k],False,e); continue
        paths+=x['paths']; loops+=x['loops']
        r.ob('%s: lookup follows the path'%im[k],not x['msgs'],'%d paths'%x['paths'] if not x['msgs'] else '%s (events: %s)'%x['msgs'][0],F.bodies[k]['span'])
    r.count('paths',paths); r.count('loops matched',loops)
    r.count('lookup implementations without a reference',len(im)-len(roots))
    r.assumptions=['a single named value (KV) has no value of its own: its empty path names nothing; a pair of parameters answers with its first part where that has an answer',
                   'the value of a JSON, TOML or card node is its conversion (C29); get of the map types finds the entry stored under the key']
