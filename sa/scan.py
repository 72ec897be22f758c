"""Inductive reading of search loops: which elements of a list have been tested when the function returns.
For every loop the labels ALL (every element before the cursor satisfies R) and WIT (some element does not)
are the greatest fixpoint over the loop's edges; nothing is unrolled."""
from ai import *
ALLV=('Null','Template','Map','List','Bool','Int','UInt','Float','Date','String','Bytes')
ORDN=('Less','Equal','Greater')
def args_n(A,s,S=('arg',0)): return A.seq_len(s,S)
def rets(outs):
    """(state, 'Ok'|'Err', payload) of Result-returning outcomes, None when it is not syntactically one"""
    for s,v in outs:
        if v[0]=='adt' and v[1]==RES: yield s,v[2],v[3][0]
        else: yield s,None,v
def const_bool(v):
    """TData::Bool(b) -> b term"""
    if v[0]=='adt' and v[2]=='Bool' and v[1].endswith('TData'): return v[3][0]
def pcmp_set(A,s,a,b):
    """possible results of the partial comparison of a with b in state s"""
    if A.truth(s,('eqT',)+tuple(sorted((a,b),key=rep))) is True: return {'Equal'}
    flipd=rep(a)>rep(b)
    t=('pcmpT',b,a) if flipd else ('pcmpT',a,b)
    vs=s.var.get(t,frozenset(('None','Some'))); r=set()
    if 'None' in vs: r.add('None')
    if 'Some' in vs:
        os=s.var.get(project(t,'Some',0),frozenset(ORDN))
        fl={'Less':'Greater','Equal':'Equal','Greater':'Less'}
        r|={fl[o] if flipd else o for o in os}
    return r
def R_rel(want):
    def R(A,s,S,i):
        p=pcmp_set(A,s,('elem',S,('int',0)),('elem',S,i))
        if p<=set(want): return True
        if not(p&set(want)): return False
    return R
def R_eq(A,s,S,i):
    return A.truth(s,('eqT',)+tuple(sorted((('elem',S,('int',0)),('elem',S,i)),key=rep)))
def truthy(A,s,x):
    """is the TData x a true truth value in s?  True/False/None"""
    vs=A.variants_of(s,x) or frozenset(ALLV); res=set()
    for v in vs:
        f=project(x,v,0)
        if v=='Bool': r=A.truth(s,f)
        elif v in('String','List','Map'): r=A.truth(s,ge(A.seq_len(s,('entries',f) if v=='Map' else f),('int',1)))
        elif v=='UInt': r=A.truth(s,ge(f,('int',1)))
        elif v=='Int':
            z=A.truth(s,mk_eq0(tolin(f))); r=None if z is None else not z
        elif v=='Float':
            z=A.truth(s,A.fcmp(s,'Eq',f,('float','0')))
            r=None if z is None else not z
        else: r=False
        res.add(r)
    return res.pop() if len(res)==1 else None
def R_true(A,s,S,i): return truthy(A,s,('elem',S,i))
def indices(s,S):
    """index terms of S mentioned by the facts of a state"""
    acc=set()
    def go(t):
        if not isinstance(t,tuple) or not t: return
        if t[0]=='elem' and len(t)==3 and t[1]==S: acc.add(t[2])
        for x in t: go(x)
    for a in s.atom: go(a)
    for a in s.var: go(a)
    for l in s.lin: 
        for a,_ in l[1]: go(a)
    return acc
class Scan:
    def __init__(self,A,S,c0,R):
        self.A=A; self.S=S; self.c0=c0; self.R=R; self.memo={}; self.why=[]
    def n(self,s): return self.A.seq_len(s,self.S)
    def witness(self,s,neg=True):
        """some index in range where R is False (neg) or True"""
        for i in sorted(indices(s,self.S),key=rep):
            if self.R(self.A,s,self.S,i) is (not neg) and self.A.prove_ge(s,i,('int',self.c0)) and self.A.prove_ge(s,self.n(s),iadd(i,('int',1))): return i
    def holds_at(self,s,i): return self.R(self.A,s,self.S,i)
    def range_holds(self,s,lo,hi):
        """R at every index of the constant-size range [lo,hi)"""
        d=isub(hi,lo)
        if d[0]!='int':
            if self.A.prove_ge(s,lo,hi): return True
            return False
        if d[1]>8: return False
        return all(self.R(self.A,s,self.S,iadd(lo,('int',j))) is True for j in range(max(0,d[1])))
    def loops(self,s): return [(e[1],e[2]) for e in s.ev if e[0]=='loop']
    def analyse(self,lid,dirn):
        """cursor expressions per node for which ALL is inductive: {node: expr} or None; and nodes with WIT"""
        k=(lid,dirn)
        if k in self.memo: return self.memo[k]
        L=self.A.loops[lid]; A=self.A; res={}
        base=L.base
        ent=L.nodes[L.entry]
        start=('int',self.c0) if dirn=='f' else self.n(base)
        cand=[]
        for p in ent.phis:
            v=L.entry_sub.get(p)
            if v is None or not(v[0] in('int','lin') or v in A.tyr or v[0]=='len'): continue
            # pre-tested prefix: the cursor may start beyond the first element
            for off in range(0,4):
                e0=iadd(start,('int',off)) if dirn=='f' else isub(start,('int',off))
                d=isub(e0,v)
                if d[0]!='int' and not all(A.seq_len(base,self.S)==a for a,_ in tolin(d)[1]): continue
                pre=self.range_holds(base,start,e0) if dirn=='f' else self.range_holds(base,e0,start)
                if pre: cand.append(iadd(p,d))
        best=None
        for e in cand:
            asg={L.entry:e}; ok=True; ch=True
            while ch and ok:
                ch=False
                for a,b,sg,s in L.edges:
                    if a not in asg: continue
                    cur=asg[a]
                    nexts=[cur]
                    step=iadd(cur,('int',1)) if dirn=='f' else isub(cur,('int',1))
                    idx=cur if dirn=='f' else step
                    if self.R(A,s,self.S,idx) is True: nexts.append(step)
                    if b not in asg:
                        got=None
                        for nx in reversed(nexts):
                            for p in L.nodes[b].phis:
                                if p not in sg: continue
                                d=isub(nx,sg[p])
                                if d[0]=='int': got=iadd(p,d); break
                            if got: break
                        if got: asg[b]=got; ch=True
            # verify; nodes whose label cannot be maintained are dropped (e.g. after a witness was found)
            ch=True
            while ch:
                ch=False
                for a,b,sg,s in L.edges:
                    if b not in asg: continue
                    if a not in asg: del asg[b]; ch=True; break
                    cur=asg[a]; new=subst(asg[b],sg)
                    step=iadd(cur,('int',1)) if dirn=='f' else isub(cur,('int',1)); idx=cur if dirn=='f' else step
                    if A.prove_eq(s,new,cur): continue
                    if A.prove_eq(s,new,step) and self.R(A,s,self.S,idx) is True: continue
                    # explicit further tests inside one iteration
                    if dirn=='f' and isub(new,cur)[0]=='int' and self.range_holds(s,cur,new): continue
                    del asg[b]; ch=True; break
                if L.entry not in asg: break
            if L.entry in asg and (best is None or len(asg)>len(best)): best=asg
        # witnesses: least fixpoint would claim too much; use greatest with entry excluded
        wit={k for k in L.nodes if k!=L.entry}; ch=True
        while ch:
            ch=False
            for a,b,sg,s in L.edges:
                if b in wit and not(a in wit or self.witness(s) is not None): wit.discard(b); ch=True
        r=(best,wit); self.memo[k]=r
        return r
    def all_true(self,s):
        """R holds for every element from c0 on"""
        A=self.A
        if A.prove_ge(s,('int',self.c0),self.n(s)): return True
        if self.range_holds(s,('int',self.c0),self.n(s)): return True
        for lid,k in self.loops(s):
            for dirn in 'fb':
                asg,_=self.analyse(lid,dirn)
                if not asg or k not in asg: continue
                e=asg[k]
                if dirn=='f':
                    if A.prove_ge(s,e,self.n(s)): return True
                    if self.range_holds(s,e,self.n(s)): return True
                    nx=iadd(e,('int',1))
                    if self.R(A,s,self.S,e) is True and A.prove_ge(s,nx,self.n(s)): return True
                else:
                    if A.prove_ge(s,('int',self.c0),e): return True
                    nx=isub(e,('int',1))
                    if self.R(A,s,self.S,nx) is True and A.prove_ge(s,('int',self.c0),nx): return True
        return False
    def some_false(self,s):
        if self.witness(s) is not None: return True
        for lid,k in self.loops(s):
            _,w=self.analyse(lid,'f')
            if k in w: return True
        return False
    def neg(self):
        if not hasattr(self,'_neg'):
            R=self.R
            def N(A,s,S,i):
                r=R(A,s,S,i); return None if r is None else not r
            self._neg=Scan(self.A,self.S,self.c0,N); self._neg._neg=self
        return self._neg
