"""C06, C07: the arithmetic helpers refine a reference fold over exact integers and floats (see sa/sim.py).

The reference keeps the running value as an exact integer (whatever kind of integer value the helper keeps it in) or as
a float.  An integer step has to produce the exact result; giving an error is allowed exactly where the facts of the path
show that the result is outside the signed range, the operands fit no common type, or the divisor is zero."""
import work, scan, helpers
from ai import *
from sim import *
from natives import variants
TD='templito::tdata::TData'
IMAX=2**63-1; IMIN=-2**63
OPS={'add':'Add','sub':'Sub','mul':'Mul','div':'Div','mod':'Rem','min':'min','max':'max'}
def P(t,v,i=0): return project(t,v,i)
def anyerr(s,v):
    if not(v[0]=='adt' and v[1]==RES and v[2]=='Err'): return 'returns %s where an error is due'%short(v)
def i2f(x): return ('i2f',x,64)
class FoldSpec:
    heads=('start','acc','N','F')
    def __init__(self,F,A,name): self.F=F; self.A=A; self.name=name; self.op=OPS[name]; self.sim=None
    def table(self): return {k[2:]:getattr(self,k) for k in dir(self) if k.startswith('l_')}
    S=('arg',0)
    def kinds(self,A,s,x,f):
        """cases on the kind of a value: f(state,'N'|'F'|None,number)"""
        out=[]; x=canon(A,s,x)
        for s2 in variants(A,s,x,scan.ALLV):
            v=next(iter(s2.var[x])) if x[0]!='adt' else x[2]
            k='N' if v in('UInt','Int') else 'F' if v=='Float' else None
            out.append((s2,f(s2,k,P(x,v) if k else None)))
        return Cases(out)
    def split(self,A,s,b,t,f): return Cases([(s2,t(s2) if x else f(s2)) for s2,x in A.branch(s,b)])
    def l_fail(self,A,s,rest): return Ret(anyerr)
    def l_start(self,A,s,rest):
        n=A.seq_len(s,self.S)
        return self.split(A,s,ge(n,('int',1)),lambda s:(('acc',()),),lambda s:(('fail',()),))
    def l_give(self,A,s,rest,x):
        return Ret(lambda s,v: None if self.sim.same(s,v,ok(x)) else 'returns %s for the single argument'%short(v))
    def l_neg(self,A,s,rest,x):
        def f(s,k,n):
            if k is None: return (('fail',()),)
            if k=='F': return (('doneF',(('fop','Neg',n),)),)
            return (('fits',(isub(('int',0),n),('doneN',))),)
        return self.kinds(A,s,x,f)
    # the result r of an integer step: an error only where the path shows it outside the signed range
    def l_fits(self,A,s,rest,r,k):
        return Either(lambda s,v: anyerr(s,v) or (None if self.surely(A,s,('ovf',tolin(r),(True,64))) else 'returns an error although %s may be in range'%short(r,60)),((k[0],k[1:]+(r,)),))
    def surely(self,A,s,b):
        return all(x for _,x in A.branch(s,b))
    def l_doneN(self,A,s,rest,n):
        def f(s,v):
            if v[0]=='adt' and v[2]=='Ok' and v[3][0][0]=='adt' and v[3][0][1]==TD and v[3][0][2] in('Int','UInt') and A.prove_eq(s,v[3][0][3][0],n): return None
            if v[0]=='adt' and v[2]=='Ok' and v[3][0][0]!='adt':
                vs=A.variants_of(s,v[3][0])
                if vs and len(vs)==1 and next(iter(vs)) in('Int','UInt') and A.prove_eq(s,P(v[3][0],next(iter(vs))),n): return None
            return 'returns %s, expected the integer %s'%(short(v),short(n))
        return Ret(f)
    def l_doneF(self,A,s,rest,n):
        return Ret(lambda s,v: None if self.sim.same(s,v,ok(adt(TD,'Float',n))) else 'returns %s, expected the float %s'%(short(v),short(n)))
    def l_acc(self,A,s,rest):
        n=A.seq_len(s,self.S); x=A.seq_get(s,self.S,('int',0))
        return self.split(A,s,ge(n,('int',2)),lambda s:(('first',(x,)),),lambda s:(('neg',(x,)),) if self.name=='sub' else (('give',(x,)),))
    def l_first(self,A,s,rest,x): return self.kinds(A,s,x,lambda s,k,n:((k,(('int',1),n)),) if k else (('fail',()),))
    def more(self,A,s,i,done,go):
        return self.split(A,s,ge(A.seq_len(s,self.S),iadd(i,('int',1))),lambda s:go(A.seq_get(s,self.S,i)),lambda s:done)
    def l_N(self,A,s,rest,i,n): return self.more(A,s,i,(('doneN',(n,)),),lambda e:(('N2',(i,n,e)),))
    def l_F(self,A,s,rest,i,n): return self.more(A,s,i,(('doneF',(n,)),),lambda e:(('F2',(i,n,e)),))
    def fop(self,a,b): return ('ap','f64::'+self.op,a,b) if self.op in('min','max') else ('fop',self.op,a,b)
    def l_N2(self,A,s,rest,i,n,e):
        def f(s,k,m):
            if k is None: return (('fail',()),)
            if k=='F': return (('F',(iadd(i,('int',1)),self.fop(i2f(n),m))),)
            return (('int',(i,n,m)),)
        return self.kinds(A,s,e,f)
    def l_F2(self,A,s,rest,i,n,e):
        def f(s,k,m):
            if k is None: return (('fail',()),)
            return (('F',(iadd(i,('int',1)),self.fop(n,m if k=='F' else i2f(m)))),)
        return self.kinds(A,s,e,f)
    def l_int(self,A,s,rest,i,a,b):
        def nocommon(s,v):
            m=anyerr(s,v)
            if m: return m
            for x,y in((a,b),(b,a)):
                if self.surely(A,s,ge(('int',-1),x)) and self.surely(A,s,ge(y,('int',IMAX+1))): return None
            return 'returns an error although the operands may have a common type'
        return Either(nocommon,(('step',(iadd(i,('int',1)),a,b)),))
    def l_step(self,A,s,rest,j,a,b):
        op=self.op
        if op in('Add','Sub','Mul'):
            r=iadd(a,b) if op=='Add' else isub(a,b) if op=='Sub' else A.arith('Mul',a,b)
            return Go((('fits',(r,('N',j))),))
        if op in('min','max'):
            lo=lambda s:(('N',(j,a)),); hi=lambda s:(('N',(j,b)),)
            if A.prove_ge(s,a,b): return Go(hi(s) if op=='min' else lo(s))
            return self.split(A,s,ge(b,a),lo if op=='min' else hi,hi if op=='min' else lo)
        return self.split(A,s,mk_eq0(tolin(b)),lambda s:(('fail',()),),lambda s:(('quot',(j,a,b)),))
    def l_quot(self,A,s,rest,j,a,b):
        # the one quotient outside the signed range
        def out(s,v):
            m=anyerr(s,v)
            if m: return m
            if self.surely(A,s,mk_eq0(tolin(isub(a,('int',IMIN))))) and self.surely(A,s,mk_eq0(tolin(iadd(b,('int',1))))): return None
            return 'returns an error although the quotient is in range'
        return Either(out,(('N',(j,(A.div if self.op=='Div' else A.rem)(s,a,b))),))
def funcs(F):
    rs,_=helpers.registrations(F,'with_defaults'); out={}
    for reg in rs or []:
        for nm,f in reg:
            if nm[0]=='str' and nm[1] in OPS: out[nm[1]]=f
    return out
def key(F,f): return f[1][0] if isinstance(f[1],tuple) else f[1]
def one(F,root):
    name,f=root
    A=work.interp(F); A.nomerge=True; S=FoldSpec(F,A,name); sim=Sim(A,S.table(),S.heads); S.sim=sim
    outs=A.run_body(key(F,f),[('arg',0)],St()) if f[0]=='fn' else A.run_body(f[1],[f,('arg',0)],St())
    sim.run(outs,(('start',()),))
    return dict(msgs=[(m,p) for m,p,s in sim.msgs],paths=len(outs),loops=sim.nloops,unknown=sorted(A.unknown))
def decide(F,r,names):
    r.rule=('every path and loop of the helper, for any argument list, is matched by a reference that folds the arguments left to right over exact integers and floats; the result of each integer step is compared by linear arithmetic, '
            'an error is accepted only where the facts of the path put the result outside the signed 64-bit range, show operands without a common type or a zero divisor')
    fs=funcs(F); paths=loops=0
    r.floor('arithmetic helpers',sum(n in fs for n in names),len(names))
    for (n,f),x,e in work.pool(F,[(n,fs[n]) for n in names if n in fs],one,300):
        if e: r.ob('%s: analysed'%n,False,e); continue
        paths+=x['paths']; loops+=x['loops']
        r.ob('%s folds exactly'%n,not x['msgs'],'%d paths'%x['paths'] if not x['msgs'] else '%s (events: %s)'%x['msgs'][0],F.bodies[key(F,f)]['span'] if key(F,f) in F.bodies else '')
    r.count('paths',paths); r.count('loops matched',loops)
    r.assumptions=['the float operations are those of the processor; min and max of floats are f64::min and f64::max']
def c06(F,r): decide(F,r,['add','sub','mul','div','mod'])
def c07(F,r): decide(F,r,list(OPS))
