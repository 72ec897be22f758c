"""Abstract interpretation of MIR bodies.

Forward, path-partitioned dataflow over the control-flow graph with a value-numbering domain (immutable
terms), variant sets, boolean atoms and linear inequalities.  Loops are solved to a fixpoint: values that
change are generalised (anti-unified) to loop symbols, invariants over them are inferred from a finite
candidate set and kept only when every edge into the loop head preserves them.  Paths are never handed to
a solver and nothing of the analysed program is run."""
import re, sys, functools
from lin import rep, lf, ladd, lscale, lconst, feasible
sys.setrecursionlimit(20000)

def _k0(x): return rep(x[0])
class Dead(Exception): pass
class Split(Exception):
    """the statement needs a case distinction first: alts = [[assumption,...],...]"""
    def __init__(self,alts): self.alts=alts
class TooBig(Exception): pass

UNIT=('tup',())
TRUE=('bool',True); FALSE=('bool',False)
def adt(n,v,*f): return ('adt',n,v,tuple(f))
OPT='core::option::Option'; RES='core::result::Result'; ORD='core::cmp::Ordering'
def some(x): return adt(OPT,'Some',x)
NONE=adt(OPT,'None')
def ok(x): return adt(RES,'Ok',x)
def err(x): return adt(RES,'Err',x)

# ---------- integers
def tolin(v):
    k=v[0]
    if k=='int': return lconst(v[1])
    if k=='char': return lconst(v[1])
    if k=='lin': return (v[1],v[2])
    return (0,((v,1),))
def fromlin(l):
    if not l[1]: return ('int',l[0])
    if l[0]==0 and len(l[1])==1 and l[1][0][1]==1: return l[1][0][0]
    return ('lin',l[0],l[1])
def iadd(a,b,k=1): return fromlin(ladd(tolin(a),tolin(b),k))
def isub(a,b): return iadd(a,b,-1)
def ge(a,b):
    "a>=b as a boolean term"
    return mk_ge0(ladd(tolin(a),tolin(b),-1))
def mk_ge0(l):
    if not l[1]: return TRUE if l[0]>=0 else FALSE
    return ('ge0',l)
def mk_eq0(l):
    if not l[1]: return TRUE if l[0]==0 else FALSE
    if l[1][0][1]<0: l=lscale(l,-1)
    return ('eq0',l)
def mk_not(b):
    if b[0]=='bool': return ('bool',not b[1])
    if b[0]=='not': return b[1]
    return ('not',b)

def subst(t,m):
    """replace symbols in a term"""
    if not m: return t
    memo={}
    def go(x):
        if not isinstance(x,tuple): return x
        r=memo.get(x)
        if r is not None: return r
        if x in m: r=m[x]
        elif not x: r=x
        elif x[0]=='lin':
            l=lconst(x[1])
            for a,k in x[2]: l=ladd(l,tolin(go(a)),k)
            r=fromlin(l)
        elif x[0] in('ge0','eq0'):
            l=lconst(x[1][0])
            for a,k in x[1][1]: l=ladd(l,tolin(go(a)),k)
            r=(mk_ge0 if x[0]=='ge0' else mk_eq0)(l)
        elif x[0]=='not': r=mk_not(go(x[1]))
        elif x[0]=='fld' and len(x)==4:
            b=go(x[1]); r=project(b,x[2],x[3])
        else:
            r=tuple(go(y) for y in x)
        memo[x]=r
        return r
    return go(t)
def sublin(l,m):
    r=lconst(l[0])
    for a,k in l[1]: r=ladd(r,tolin(subst(a,m)),k)
    return r
def project(v,variant,i):
    k=v[0]
    if k=='adt':
        if variant is not None and v[2]!=variant: return ('fld',v,variant,i)
        if i<len(v[3]): return v[3][i]
        return ('fld',v,variant,i)
    if k=='tup':
        return v[1][i] if i<len(v[1]) else ('fld',v,variant,i)
    if k=='clo': return v[2][i]
    return ('fld',v,variant,i)
def symbols(t,acc=None):
    """numbered symbols in a term"""
    acc=set() if acc is None else acc
    st=[t]; seen=set()
    while st:
        x=st.pop()
        if not isinstance(x,tuple) or not x: continue
        if x in seen: continue
        seen.add(x)
        if x[0] in('phi','ret','new') : acc.add(x)
        for y in x:
            if isinstance(y,tuple): st.append(y)
    return acc

class St:
    __slots__=('mem','var','atom','lin','ev','notes')
    def __init__(s): s.mem={};s.var={};s.atom={};s.lin=frozenset();s.ev=();s.notes=frozenset()
    def copy(s):
        n=St.__new__(St); n.mem=dict(s.mem);n.var=dict(s.var);n.atom=dict(s.atom);n.lin=s.lin;n.ev=s.ev;n.notes=s.notes
        return n

@functools.lru_cache(None)
def norm_path(p):
    """drop generic arguments and lifetimes from a def path"""
    out=[];d=0;i=0
    # remove '::<...>' segments and lifetime/generic lists that follow an identifier
    while i<len(p):
        c=p[i]
        if c=='<' and (p[max(0,i-2):i]=='::' and (i==2 or p[i-3]!='>' ) and i>=2) and not p[:i].endswith(('impl::',)):
            seg=p[i+1:i+6]
            if seg.startswith('impl '):   # <impl [T]> is part of the name
                out.append(c); i+=1; continue
            d=1;i+=1
            while d:
                if p[i]=='<': d+=1
                elif p[i]=='>' and p[i-1]!='-': d-=1
                i+=1
            if len(out)>=2 and out[-1]==':' : out=out[:-2]
            continue
        out.append(c); i+=1
    return ''.join(out)

SIZE=('size',)
IDENT_TYPES={'alloc::boxed::Box','core::ptr::unique::Unique','core::ptr::non_null::NonNull','core::mem::maybe_uninit::MaybeUninit',
 'core::mem::manually_drop::ManuallyDrop','core::mem::maybe_dangling::MaybeDangling','core::pin::Pin','alloc::borrow::Cow','alloc::rc::Rc','alloc::sync::Arc',
 'core::num::wrapping::Wrapping','core::cmp::Reverse_'}

class AI:
    def __init__(self,F,anchors=None,max_paths=4000,inline_depth=40):
        self.F=F; self.anchors=anchors or {}      # body path -> hook(ai,st,c,args)
        self.counter=0; self.mute=0; self.obls={}; self.loops={}; self.unknown={}
        self.tyr={}          # term -> (signed,bits)
        self.stack=[]; self.frames=0; self.max_paths=max_paths; self.inline_depth=inline_depth
        self.visited=set(); self.steps=0; self.step_limit=3000000
        self.onrec=None; self.evst=None; self.fns={}; self.sizelike=set(); self.cfg={}; self.recursed=set(); self.calls_seen={}
        self.natives={}; self.nomerge=False
        import natives; natives.install(self)
    # ---------- symbols
    def fresh(self,kind,*a):
        self.counter+=1
        return (kind,self.counter)+a
    def typed(self,t,ty):
        """register the integer type of an opaque term"""
        if t[0] in('int','lin','bool','adt','tup','str'): return t
        k=self.F.types[ty]
        if k['k']=='int': self.tyr.setdefault(t,(k['signed'],k['bits']))
        elif k['k']=='char': self.tyr.setdefault(t,('char',21))
        return t
    @staticmethod
    def range_of(sb):
        s,b=sb
        if s=='char': return 0,0x10ffff
        return (-(1<<(b-1)),(1<<(b-1))-1) if s else (0,(1<<b)-1)
    def atom_range(self,a):
        if a[0] in('len','nchars','cidx'): return 0,1<<48
        if a[0]=='count': return 0,(1<<63)-1
        if a[0]=='clen8': return 1,4
        r=self.tyr.get(a)
        if r: return self.range_of(r)
        if a[0]=='elem' and a in self.tyr: return self.range_of(self.tyr[a])
        return None
    # ---------- facts
    def facts_for(self,st,lins):
        """constraints of the state connected to the atoms of lins, plus ranges and axioms"""
        cons=list(st.lin); atoms=set()
        for l in lins:
            for a,_ in l[1]: atoms.add(a)
        if not atoms: return []
        used=[]; rest=cons; grow=True
        while grow:
            grow=False; nr=[]
            for c in rest:
                if any(a in atoms or (a[0]=='cast' and len(a)==3 and any(y in atoms for y,_ in tolin(a[2])[1])) for a,_ in c[1]):
                    used.append(c); grow=True
                    for a,_ in c[1]: atoms.add(a)
                else: nr.append(c)
            rest=nr
            for a in list(atoms):
                for b in self.related(a):
                    if b not in atoms: atoms.add(b); grow=True
        for a in atoms:
            r=self.atom_range(a)
            if r:
                used.append((-r[0],((a,1),))); used.append((r[1],((a,-1),)))
            for c in self.axioms(st,a): used.append(c)
        ci=[a for a in atoms if a[0]=='cidx']
        for i,a in enumerate(ci):     # offsets of characters grow with their position
            for b in ci[i+1:]:
                if a[1]!=b[1]: continue
                d=isub(a[2],b[2])
                if d[0]=='int': used.append(ladd(ladd(tolin(a),tolin(b),-1),lconst(-d[1])) if d[1]>=0 else ladd(ladd(tolin(b),tolin(a),-1),lconst(d[1])))
        muls=[a for a in atoms if a[0]=='mul']
        for i,m in enumerate(muls):
            if (m,'sign') not in self._busy:     # the sign of a product
                self._busy.add((m,'sign'))
                try:
                    if self.prove(st,tolin(m[1])) and self.prove(st,tolin(m[2])): used.append((0,((m,1),)))
                finally: self._busy.discard((m,'sign'))
            for n in muls:
                if m is n: continue
                for x,y in((m[1],m[2]),(m[2],m[1])):
                    for p,q in((n[1],n[2]),(n[2],n[1])):
                        if y==q and (m,n) not in self._busy:   # x*y vs p*y, y>=0
                            self._busy.add((m,n))
                            try:
                                if self.prove(st,tolin(y)):
                                    d=ladd(tolin(p),tolin(x),-1)
                                    if self.prove(st,d): used.append(ladd(tolin(n),tolin(m),-1))
                                    # p>=x+1 -> n >= m+y
                                    if self.prove(st,ladd(d,lconst(-1))): used.append(ladd(ladd(tolin(n),tolin(m),-1),tolin(y),-1))
                            finally: self._busy.discard((m,n))
        return used
    _busy=set()
    def related(self,a):
        if a[0]=='div':
            r=set()
            for x in(a[1],a[2]):
                for y,_ in tolin(x)[1]: r.add(y)
            r.add(('mul',)+tuple(sorted((a,a[2]),key=rep)))
            return r
        if a[0]=='mul':
            return {y for x in a[1:3] for y,_ in tolin(x)[1]}
        if a[0]=='rem': return {y for x in a[1:3] for y,_ in tolin(x)[1]}
        if a[0]=='cast' and len(a)==3: return {y for y,_ in tolin(a[2])[1]}
        if a[0]=='cidx':
            return {('len',a[1])}|{y for y,_ in tolin(a[2])[1]}
        return ()
    def axioms(self,st,a):
        if a[0]=='div' and a not in self._busy:
            self._busy.add(a)
            try:
                x,y=a[1],a[2]
                if self.prove(st,tolin(x)) and self.prove(st,ladd(tolin(y),lconst(-1))):
                    q=tolin(a)
                    out=[q, ladd(tolin(x),q,-1)]
                    if y[0]=='int':
                        out+= [ladd(tolin(x),q,-y[1]), ladd(ladd(lscale(q,y[1]),lconst(y[1]-1)),tolin(x),-1)]
                    else:
                        m=tolin(('mul',)+tuple(sorted((a,y),key=rep)))
                        out+= [ladd(tolin(x),m,-1), ladd(ladd(ladd(m,tolin(y)),lconst(-1)),tolin(x),-1)]
                    return out
            finally: self._busy.discard(a)
        if a[0]=='cast' and len(a)==3 and a not in self._busy:      # wraps around outside the range
            self._busy.add(a)
            try:
                it,v=a[1],a[2]; lo,hi=self.range_of(it); l=tolin(v); q=tolin(a); w=1<<it[1]
                for k in(0,w,-w):
                    x=ladd(l,lconst(k))
                    if self.prove(st,ladd(x,lconst(-lo))) and self.prove(st,ladd(lconst(hi),x,-1)): return [ladd(q,x,-1),ladd(x,q,-1)]
            finally: self._busy.discard(a)
        if a[0]=='rem' and a not in self._busy:
            self._busy.add(a)
            try:
                x,y=a[1],a[2]
                if self.prove(st,tolin(x)) and self.prove(st,ladd(tolin(y),lconst(-1))):
                    r=tolin(a); return [r,ladd(ladd(tolin(y),r,-1),lconst(-1)),ladd(tolin(x),r,-1)]
            finally: self._busy.discard(a)
        if a[0]=='cidx':   # byte offset of the i-th char of s: i <= off <= len
            s,i=a[1],a[2]
            if i==('int',0): return [tolin(a),lscale(tolin(a),-1)]
            return [ladd(tolin(('len',s)),tolin(a),-1), ladd(tolin(a),tolin(i),-1)]
        if a[0]=='count' :
            return [ladd(tolin(('len',a[1])),tolin(a),-1)]
        if a[0]=='nchars':
            return [ladd(tolin(('len',a[1])),tolin(a),-1)]
        return ()
    def prove(self,st,l):
        """l>=0 in st?"""
        if not l[1]: return l[0]>=0
        # syntactic hit
        for c in st.lin:
            if c[1]==l[1] and c[0]<=l[0]: return True
        neg=ladd(lconst(-1),l,-1)
        # proofs needed for the facts of another proof are remembered until that one is done
        if not self._busy: return not feasible(self.facts_for(st,[l])+[neg])
        k=(id(st.lin),l,frozenset(self._busy)); m=self._memo
        if k not in m:
            if len(m)>20000: m.clear()
            m[k]=(not feasible(self.facts_for(st,[l])+[neg]),st.lin)
        return m[k][0]
    _memo={}
    def prove_ge(self,st,a,b): return self.prove(st,ladd(tolin(a),tolin(b),-1))
    def prove_eq(self,st,a,b):
        if a==b: return True
        if a[0] in('adt','tup','str','bool','clo') or b[0] in('adt','tup','str','bool','clo'): return False
        d=ladd(tolin(a),tolin(b),-1)
        if not d[1]: return d[0]==0
        return self.prove(st,d) and self.prove(st,lscale(d,-1))
    def add_lin(self,st,*ls):
        new=set(st.lin)
        for l in ls:
            if not l[1]:
                if l[0]<0: raise Dead()
                continue
            new.add(l)
        st.lin=frozenset(new)
    def consistent(self,st,ls):
        ls=[l for l in ls if l[1]]
        if not ls: return True
        return feasible(self.facts_for(st,ls)+ls)
    def truth(self,st,b):
        """True/False/None for a boolean term"""
        k=b[0]
        if k=='bool': return b[1]
        if k=='not':
            r=self.truth(st,b[1]); return None if r is None else not r
        if k=='ge0':
            if self.prove(st,b[1]): return True
            if self.prove(st,ladd(lconst(-1),b[1],-1)): return False
            return st.atom.get(b)
        if k=='eq0':
            r=st.atom.get(b)
            if r is not None: return r
            l=b[1]
            if self.prove(st,ladd(l,lconst(-1))) or self.prove(st,ladd(lconst(-1),l,-1)): return False
            if self.prove(st,l) and self.prove(st,lscale(l,-1)): return True
            return None
        if k in('and','or'):
            x,y=self.truth(st,b[1]),self.truth(st,b[2])
            if k=='and':
                if x is False or y is False: return False
                if x and y: return True
            else:
                if x or y: return True
                if x is False and y is False: return False
            return None
        if k=='ovf':
            lo,hi=self.range_of(b[2]); l=b[1]
            if self.prove(st,ladd(l,lconst(-lo))) and self.prove(st,ladd(lconst(hi),l,-1)): return False
            if self.prove(st,ladd(lconst(lo-1),l,-1)) or self.prove(st,ladd(l,lconst(-hi-1))): return True
            return st.atom.get(b)
        if k=='isvar':
            vs=self.variants_of(st,b[1])
            if vs is None: return None
            if b[2] not in vs: return False
            if len(vs)==1: return True
            return None
        if k=='eqs':
            x,y=b[1],b[2]
            if x==y: return True
            if x[0]=='str' and y[0]=='str': return x[1]==y[1]
            r=st.atom.get(b)
            if r is not None: return r
            if y[0]=='str':   # x==lit known for another literal
                for a,v in st.atom.items():
                    if v and a[0]=='eqs' and a[1]==x and a[2][0]=='str' and a[2]!=y: return False
            return None
        return st.atom.get(b)
    def assume(self,st,b,val):
        """add a boolean fact; raises Dead when contradictory"""
        k=b[0]
        t=self.truth(st,b)
        if t is not None:
            if t!=val: raise Dead()
            return
        if k=='not': return self.assume(st,b[1],not val)
        if k=='ge0':
            l=b[1] if val else ladd(lconst(-1),b[1],-1)
            if not self.consistent(st,[l]): raise Dead()
            self.add_lin(st,l); return
        if k=='eq0':
            st.atom[b]=val
            if val: 
                if not self.consistent(st,[b[1],lscale(b[1],-1)]): raise Dead()
                self.add_lin(st,b[1],lscale(b[1],-1))
            else:
                if self.prove(st,b[1]): self.add_lin(st,ladd(b[1],lconst(-1)))
                elif self.prove(st,lscale(b[1],-1)): self.add_lin(st,ladd(lscale(b[1],-1),lconst(-1)))
            return
        if k=='and' and val or k=='or' and not val:
            self.assume(st,b[1],val); self.assume(st,b[2],val); return
        if k in('and','or'):
            st.atom[b]=val; 
            x,y=self.truth(st,b[1]),self.truth(st,b[2])
            if x is (k=='and'): self.assume(st,b[2],val)
            elif y is (k=='and'): self.assume(st,b[1],val)
            return
        if k=='ovf':
            lo,hi=self.range_of(b[2]); l=b[1]
            if not val: self.add_lin(st,ladd(l,lconst(-lo)),ladd(lconst(hi),l,-1))
            else:
                st.atom[b]=True
                if self.prove(st,ladd(l,lconst(-lo))): self.add_lin(st,ladd(l,lconst(-hi-1)))
                elif self.prove(st,ladd(lconst(hi),l,-1)): self.add_lin(st,ladd(lconst(lo-1),l,-1))
            return
        if k=='isvar':
            vs=self.variants_of(st,b[1])
            if val: self.set_var(st,b[1],frozenset([b[2]]))
            elif vs is not None: self.set_var(st,b[1],vs-{b[2]})
            else: st.atom[b]=False
            return
        st.atom[b]=val
    def variants_of(self,st,t):
        if t[0]=='adt': return frozenset([t[2]])
        return st.var.get(t)
    def set_var(self,st,t,vs):
        if t[0]=='adt':
            if t[2] not in vs: raise Dead()
            return
        old=st.var.get(t)
        if old is not None: vs=vs&old
        else: vs=frozenset(v for v in vs if st.atom.get(('isvar',t,v)) is not False)
        if not vs: raise Dead()
        st.var[t]=vs
    def branch(self,st,b):
        """[(state, bool)] for both feasible values of a boolean term"""
        t=self.truth(st,b)
        if t is not None: return [(st,t)]
        out=[]
        if b[0]=='not': return [(s,not v) for s,v in self.branch(st,b[1])]
        if b[0] in('and','or'):
            for s,v in self.branch(st,b[1]):
                if v==(b[0]=='or'): out.append((s,v))
                else: out+=self.branch(s,b[2])
            return out
        if b[0]=='eq0':
            l=b[1]
            for cons,v in(([l,lscale(l,-1)],True),([ladd(l,lconst(-1))],False),([ladd(lscale(l,-1),lconst(-1))],False)):
                s=st.copy()
                if self.consistent(s,cons):
                    try: self.add_lin(s,*cons)
                    except Dead: continue
                    s.atom[b]=v; out.append((s,v))
            return out
        for v in(True,False):
            s=st.copy()
            try: self.assume(s,b,v)
            except Dead: continue
            if b[0]=='ge0':      # the new fact may settle what a cast does
                ys={y for y,_ in b[1][1]}
                cs=[a for l in s.lin for a,_ in l[1] if a[0]=='cast' and len(a)==3 and any(y in ys for y,_ in tolin(a[2])[1])]
                if cs and not feasible(self.facts_for(s,[tolin(a) for a in cs])): continue
            out.append((s,v))
        return out
    def split_bool(self,st,b):
        t=self.truth(st,b)
        if t is not None: return t
        raise Split([[(b,True)],[(b,False)]])
    def split_variant(self,st,t,names):
        """the single variant of t in this state; asks for a case split otherwise"""
        if t[0]=='adt': return t[2]
        vs=st.var.get(t)
        if vs is None: vs=frozenset(names)
        if len(vs)==1: return next(iter(vs))
        raise Split([[('V',t,frozenset([v]))] for v in sorted(vs)])
    def apply_alt(self,st,alt):
        for a in alt:
            if a[0]=='V': self.set_var(st,a[1],a[2])
            elif a[0]=='L': 
                if not self.consistent(st,[a[1]]): raise Dead()
                self.add_lin(st,a[1])
            else: self.assume(st,a[0],a[1])
    def retry(self,st,f):
        """run f(st); on Split, fork the state and run it again"""
        work=[st]; out=[]; n=0
        while work:
            s=work.pop()
            n+=1
            if n>600: raise TooBig('case splits')
            try: out+=f(s.copy())
            except Dead: pass
            except Split as e:
                for alt in reversed(e.alts):
                    s2=s.copy()
                    try: self.apply_alt(s2,alt)
                    except Dead: continue
                    work.append(s2)
        return out
    # ---------- sequences
    def seq_len(self,st,s):
        k=s[0]
        if k=='vec': return ('int',len(s[1]))
        if k=='str': return ('int',len(s[1].encode()))
        if k=='snoc': return iadd(self.seq_len(st,s[1]),('int',1))
        if k=='slice': return isub(s[3],s[2])
        if k=='upd': return self.seq_len(st,s[1])
        if k=='cat':
            r=('int',0)
            for p in s[1]: r=iadd(r,self.seq_len(st,p))
            return r
        if k in('sorted','rev','projs'): return self.seq_len(st,s[1])
        if k=='popd': return isub(self.seq_len(st,s[1]),('int',1))
        return ('len',s)
    def seq_get(self,st,s,i):
        k=s[0]
        if k=='vec' and i[0]=='int':
            if 0<=i[1]<len(s[1]): return s[1][i[1]]
        if k=='snoc':
            n=self.seq_len(st,s[1])
            if self.prove_eq(st,i,n): return s[2]
            if self.prove_ge(st,n,iadd(i,('int',1))): return self.seq_get(st,s[1],i)
        if k=='slice': return self.seq_get(st,s[1],iadd(s[2],i))
        if k=='popd': return self.seq_get(st,s[1],i)
        if k=='upd':
            if self.prove_eq(st,i,s[2]): return s[3]
            if self.prove_ge(st,i,iadd(s[2],('int',1))) or self.prove_ge(st,s[2],iadd(i,('int',1))): return self.seq_get(st,s[1],i)
        if k=='cat':   # generic parts
            off=('int',0)
            for p in s[1]:
                n=self.seq_len(st,p); end=iadd(off,n)
                if self.prove_ge(st,i,off) and self.prove_ge(st,end,iadd(i,('int',1))): return self.seq_get(st,p,isub(i,off))
                off=end
        if k=='projs': return project(self.seq_get(st,s[1],i),None,s[2])
        return ('elem',s,i)
    def seq_slice(self,st,s,a,b):
        if s[0]=='slice': return self.seq_slice(st,s[1],iadd(s[2],a),iadd(s[2],b))
        if a==('int',0) and self.prove_eq(st,b,self.seq_len(st,s)): return s
        if s[0]=='vec' and a[0]=='int' and b[0]=='int': return ('vec',s[1][a[1]:b[1]])
        if s[0]=='str' and a[0]=='int' and b[0]=='int':
            try: return ('str',s[1].encode()[a[1]:b[1]].decode())
            except Exception: pass
        return ('slice',s,a,b)
    def cat(self,*ps):
        """string/sequence concatenation, flattened; adjacent literals merged"""
        out=[]
        for p in ps:
            for q in (p[1] if p[0]=='cat' else (p,)):
                if q[0]=='str' and q[1]=='' or q==('vec',()) or q[0]=='slice' and len(q)==4 and q[2]==q[3]: continue
                if out and q[0]=='str' and out[-1][0]=='str': out[-1]=('str',out[-1][1]+q[1])
                elif out and q[0]=='vec' and out[-1][0]=='vec': out[-1]=('vec',out[-1][1]+q[1])
                else: out.append(q)
        if not out: return ('str','') if any(p[0]=='str' for p in ps) or not ps else ps[0]
        if len(out)==1: return out[0]
        return ('cat',tuple(out))
    # ---------- obligations
    def ob(self,kind,where,good,st,msg=''):
        if self.mute: return
        key=(self.stack[-1][0] if self.stack else '',kind,where)
        cur=self.obls.get(key)
        if cur is None or (cur[0] and not good): self.obls[key]=(good,msg,self.trace())
    def trace(self): return ' > '.join(short(x[0]) for x in self.stack)
    def must(self,st,b,kind,where,msg=''):
        """panic unless b: record, continue on the good branch (Dead if impossible)"""
        t=self.truth(st,b)
        if t is None and b[0] in('ovf','not') and self.size_ok(st,b): t=(b[0]=='not')
        self.ob(kind,where,t is True,st,msg)
        if t is False: raise Dead()
        if t is None: self.assume(st,b,True)
    def size_ok(self,st,b):
        """overflow of a sum of sizes: cannot happen (assumption, see DESIGN)"""
        x=b[1] if b[0]=='not' else b
        if x[0]!='ovf': return False
        c,ts=x[1]; lo,hi=self.range_of(x[2])
        if hi<(1<<62) or abs(c)>(1<<31): return False
        if not all(self.is_size(a) and 0<k<=1<<16 for a,k in ts): return False
        return c>=0 or self.prove(st,ladd(x[1],lconst(-lo)))
    def is_size(self,a):
        if a[0] in('len','nchars','count','cidx','clen8','size'): return True
        if a in self.sizelike: return True
        if a[0]=='int': return 0<=a[1]<1<<31
        if a[0]=='lin': return 0<=a[1]<1<<31 and all(self.is_size(x) and k>0 for x,k in a[2])
        if a[0]=='div': return self.is_size(a[1])
        return False
    # ---------- memory
    def deref_ty(self,ty):
        t=self.F.types[ty]
        if t['k'] in('ref','ptr'): return t['t']
        if t['k']=='adt' and t['name']=='alloc::boxed::Box': return t['args'][0]
        return None
    def resolve(self,st,fr,p):
        """place -> (cell, path, value-mode).  cell None means an immutable value in path[0]"""
        cell=('L',fr,p['l']); path=(); ty=self.body_of(fr)['locals'][p['l']]; var=None; val=None; imm=False
        def cur():
            if imm: return val
            return self.read(st,cell,path)
        for e in p['p']:
            if e=='*':
                t=self.F.types[ty] if ty is not None else {'k':'other'}
                v=cur()
                if v[0]=='ref' and not (t['k']=='ref' and not t['mut']):
                    cell,path=v[1],v[2]; imm=False
                elif t['k']=='ref' and not t['mut'] or (t['k']=='adt'):
                    pass        # shared references and boxes are identified with their content
                elif t['k']=='ref' or t['k']=='ptr':
                    if not imm and t['k']=='ptr' and v[0]!='ref': pass
                    elif v[0]!='ref':
                        cell,path=('sym',v),(); imm=False
                        if cell not in st.mem: st.mem[cell]=v
                ty=self.deref_ty(ty) if ty is not None else None; var=None
            elif e[0]=='v':
                var=e[1]
            elif e[0]=='f':
                t=self.F.types[ty] if ty is not None else {'k':'other'}
                if t['k']=='adt' and t['name'] in IDENT_TYPES: pass
                else:
                    vn=None
                    if t['k']=='adt' and t.get('variants'):
                        vs=t['variants']; vn=vs[var if var is not None else 0]['name']
                    step=('f',vn,e[1],ty)
                    if imm: val=self.proj_typed(st,val,step,e[2])
                    else: path=path+(step+(e[2],),)
                ty=e[2]; var=None
            elif e[0]=='i':
                idx=self.read(st,('L',fr,e[1]),())
                if imm: val=self.seq_get(st,val,idx)
                else: path=path+(('i',idx),)
                t=self.F.types[ty]; ty=t.get('t') if t['k'] in('slice','array') else None
            elif e[0] in('ci','sub'):
                s=cur(); n=self.seq_len(st,s)
                if e[0]=='ci':
                    idx=isub(n,('int',e[1])) if e[3] else ('int',e[1])
                    if imm: val=self.seq_get(st,s,idx)
                    else: path=path+(('i',idx),)
                    t=self.F.types[ty]; ty=t.get('t') if t['k'] in('slice','array') else None
                else:
                    to=isub(n,('int',e[2])) if e[3] else ('int',e[2])
                    val=self.seq_slice(st,s,('int',e[1]),to); imm=True
        return (None,val,ty) if imm else (cell,path,ty)
    def body_of(self,fr): return self.frame_body[fr]
    frame_body={}
    def proj_typed(self,st,v,step,fty):
        r=project(v,step[1],step[2])
        if r[0]=='fld': self.typed(r,fty)
        return r
    def read(self,st,cell,path):
        if cell not in st.mem:
            if cell[0]=='sym': v=cell[1]
            else: v=('undef',cell)
        else: v=st.mem[cell]
        for s in path:
            if s[0]=='f': v=self.proj_typed(st,v,s,s[4]) if len(s)>4 else project(v,s[1],s[2])
            elif s[0]=='i': v=self.seq_get(st,v,s[1])
            elif s[0]=='id': pass
        return v
    def write(self,st,cell,path,val):
        if not path: st.mem[cell]=val; return
        old=st.mem.get(cell,cell[1] if cell[0]=='sym' else ('undef',cell))
        st.mem[cell]=self.upd(st,old,path,val)
    def upd(self,st,old,path,val):
        if not path: return val
        s=path[0]
        if s[0]=='f':
            if old[0]=='adt':
                fs=list(old[3])
                while len(fs)<=s[2]: fs.append(('undef',0))
                fs[s[2]]=self.upd(st,fs[s[2]],path[1:],val)
                return ('adt',old[1],old[2],tuple(fs))
            if old[0]=='tup':
                fs=list(old[1])
                while len(fs)<=s[2]: fs.append(('undef',0))
                fs[s[2]]=self.upd(st,fs[s[2]],path[1:],val); return ('tup',tuple(fs))
            if old[0]=='clo':
                fs=list(old[2]); fs[s[2]]=self.upd(st,fs[s[2]],path[1:],val); return ('clo',old[1],tuple(fs))
            # expand a symbolic aggregate
            ty=s[3] if len(s)>3 else None
            t=self.F.types[ty] if ty is not None else None
            if t and t['k']=='adt' and t.get('variants'):
                v=next(x for x in t['variants'] if x['name']==s[1])
                fs=tuple(self.typed(project(old,s[1],i),f[1]) for i,f in enumerate(v['f']))
                if old[0]=='undef': fs=tuple(('undef',i) for i in range(len(fs)))
                return self.upd(st,('adt',t['name'],s[1],fs),path,val)
            if t and t['k']=='tuple':
                fs=tuple(project(old,None,i) for i in range(len(t['ts'])))
                return self.upd(st,('tup',fs),path,val)
            return ('setf',old,s[2],val)
        if s[0]=='i':
            inner=self.upd(st,self.seq_get(st,old,s[1]),path[1:],val)
            if old[0]=='vec' and s[1][0]=='int' and 0<=s[1][1]<len(old[1]):
                l=list(old[1]); l[s[1][1]]=inner; return ('vec',tuple(l))
            if old[0]=='upd' and self.prove_eq(st,old[2],s[1]): old=old[1]
            return ('upd',old,s[1],inner)
        return val
    def load(self,st,fr,p):
        cell,path,ty=self.resolve(st,fr,p)
        v=path if cell is None else self.read(st,cell,path)
        if ty is not None: self.typed(v,ty)
        return v
    def deref(self,st,v):
        """content behind any chain of mutable references"""
        while v[0]=='ref': v=self.read(st,v[1],v[2])
        return v
    def store(self,st,fr,p,val):
        cell,path,ty=self.resolve(st,fr,p)
        if cell is None: return
        self.write(st,cell,path,val)
    # ---------- operands and rvalues
    def const(self,st,o):
        t=self.F.types[o['t']]
        if 'fn' in o:
            f=o['fn']; key=(f['path'],f.get('body') or f.get('rpath') or '',tuple(f.get('args') or ()))
            self.fns[key]=f; return ('fn',key)
        if 'int' in o: return ('int',o['int'])
        if 'bool' in o: return ('bool',o['bool'])
        if 'char' in o: return ('char',o['char'])
        if 'str' in o: return ('str',o['str'])
        if 'bytes' in o: return ('bytes',tuple(o['bytes']))
        if 'float' in o: return ('float',o['float'])
        if 'variant' in o:
            return ('adt',t['name'],t['variants'][o['variant']]['name'],tuple(self.const(st,x) for x in o.get('fields') or ()))
        if 'promoted' in o: return self.promoted(o['promoted'])
        if 'static' in o: return ('static',o['static'])
        if o.get('zst'):
            if t['k']=='tuple': return UNIT
            if t['k']=='adt' and t.get('variants'): return ('adt',t['name'],t['variants'][0]['name'],())
            if t['k']=='closure': return ('clo',t.get('body') or t.get('def'),())
            if t['k']=='array': return ('vec',())
            return ('zst',t['s'])
        if o.get('item') and o['item'] in self.F.bypath: pass
        return self.typed(('const',o.get('item') or o.get('s')),o['t'])
    def promoted(self,key):
        if key not in self.F.bodies: return ('promoted',key)
        self.mute+=1
        try:
            outs=self.run_body(key,[],St())
        finally: self.mute-=1
        if len(outs)==1: return self.deref(outs[0][0],outs[0][1])
        return ('promoted',key)
    def operand(self,st,fr,o):
        if o['k'] in('copy','move'): return self.load(st,fr,o['p'])
        if o['k']=='const': return self.const(st,o)
        return ('op',o['k'])
    def int_ty(self,ty):
        t=self.F.types[ty]
        return (t['signed'],t['bits']) if t['k']=='int' else None
    def op_ty(self,fr,o):
        return o['p']['t'] if o['k'] in('copy','move') else o['t']
    def is_float(self,ty): return self.F.types[ty]['k']=='float'
    def binop(self,st,op,a,b,ty,rty):
        base=op.replace('WithOverflow','').replace('Unchecked','')
        T=self.F.types[ty]
        if T['k']=='float':
            if base in('Eq','Ne','Lt','Le','Gt','Ge'): return self.fcmp(st,base,a,b)
            return ('fop',base,a,b)
        if base in('Eq','Ne') and T['k']=='bool':
            r=None
            if a[0]=='bool': r=b if a[1] else mk_not(b)
            elif b[0]=='bool': r=a if b[1] else mk_not(a)
            elif a==b: r=TRUE
            else: r=('eqb',)+tuple(sorted((a,b),key=rep))
            return r if base=='Eq' else mk_not(r)
        if base in('Eq','Ne') and (a[0]=='disc' or b[0]=='disc'):
            return self.disc_eq(st,a,b,base=='Eq')
        if a[0]=='disc': a=self.disc_int(st,a)
        if b[0]=='disc': b=self.disc_int(st,b)
        if T['k']=='bool':
            if base=='BitAnd':
                if a==FALSE or b==FALSE: return FALSE
                if a==TRUE: return b
                if b==TRUE: return a
                return ('and',a,b)
            if base=='BitOr':
                if a==TRUE or b==TRUE: return TRUE
                if a==FALSE: return b
                if b==FALSE: return a
                return ('or',a,b)
            if base=='BitXor':
                return mk_not(self.binop(st,'Eq',a,b,ty,rty))
            if base in('Lt','Gt','Le','Ge'): return ('bcmp',base,a,b)
        if T['k'] in('ptr','ref','fnptr') : return ('ptrop',base,a,b)
        la,lb=tolin(a),tolin(b)
        if base=='Eq': return mk_eq0(ladd(la,lb,-1))
        if base=='Ne': return mk_not(mk_eq0(ladd(la,lb,-1)))
        if base=='Ge': return mk_ge0(ladd(la,lb,-1))
        if base=='Gt': return mk_ge0(ladd(ladd(la,lb,-1),lconst(-1)))
        if base=='Le': return mk_ge0(ladd(lb,la,-1))
        if base=='Lt': return mk_ge0(ladd(ladd(lb,la,-1),lconst(-1)))
        it=self.int_ty(ty)
        if base=='Cmp':
            return self.cmp3(st,a,b)
        if base in('Add','Sub','Mul'):
            r=self.arith(base,a,b)
            if op.endswith('WithOverflow'):
                return ('tup',(r,self.ovf(st,tolin(r),it)))
            # wrapping semantics unless in range
            if it and op in('Add','Sub','Mul'):
                if self.truth(st,('ovf',tolin(r),it)) is not False and r[0]!='int': return self.typed(('wrap',base,a,b,it),ty)
            return r
        if base=='Div': return self.typed(self.div(st,a,b),ty)
        if base=='Rem': return self.typed(self.rem(st,a,b),ty)
        if a[0]=='int' and b[0]=='int':
            x,y=a[1],b[1]
            if base=='BitAnd': return ('int',x&y)
            if base=='BitOr': return ('int',x|y)
            if base=='BitXor': return ('int',x^y)
            if base=='Shl' and 0<=y<128 and it:
                return ('int',(x<<y)&((1<<it[1])-1)) if not it[0] else ('bop',base,a,b)
            if base=='Shr' and 0<=y<128: return ('int',x>>y)
        return self.typed(('bop',base,a,b),rty)
    def ovf(self,st,l,it):
        b=('ovf',l,it)
        if not l[1]:
            lo,hi=self.range_of(it); return FALSE if lo<=l[0]<=hi else TRUE
        return b
    def arith(self,base,a,b):
        if base=='Add': return iadd(a,b)
        if base=='Sub': return isub(a,b)
        la,lb=tolin(a),tolin(b)
        if not la[1]: return fromlin(lscale(lb,la[0]))
        if not lb[1]: return fromlin(lscale(la,lb[0]))
        return ('mul',)+tuple(sorted((a,b),key=rep))
    def div(self,st,a,b):
        if a[0]=='int' and b[0]=='int' and b[1]!=0:
            q=abs(a[1])//abs(b[1]); return ('int',q if (a[1]<0)==(b[1]<0) else -q)
        if b==('int',1): return a
        return ('div',a,b)
    def rem(self,st,a,b):
        if a[0]=='int' and b[0]=='int' and b[1]!=0:
            r=abs(a[1])%abs(b[1]); return ('int',-r if a[1]<0 else r)
        return ('rem',a,b)
    def fcmp(self,st,op,a,b):
        if op in('Eq','Ne'):
            r=('feq',)+tuple(sorted((a,b),key=rep)); return r if op=='Eq' else mk_not(r)
        if op in('Gt','Ge'): a,b,op=b,a,{'Gt':'Lt','Ge':'Le'}[op]
        return ('f'+op.lower(),a,b)
    def cmp3(self,st,a,b):
        d=ladd(tolin(a),tolin(b),-1)
        if self.prove(st,ladd(d,lconst(-1))): return adt(ORD,'Greater')
        if self.prove(st,ladd(lscale(d,-1),lconst(-1))): return adt(ORD,'Less')
        if self.prove(st,d) and self.prove(st,lscale(d,-1)): return adt(ORD,'Equal')
        raise Split([[('L',ladd(d,lconst(-1)))],[('L',ladd(lscale(d,-1),lconst(-1)))],[(mk_eq0(d),True)]])
    def disc_int(self,st,a):
        return ('int',a[3][a[2].index(self.split_variant(st,a[1],a[2]))])
    def disc_eq(self,st,a,b,pos):
        x=a if a[0]=='disc' else b; y=b if a[0]=='disc' else a
        names,ds=x[2],x[3]
        if y[0]=='int':
            for n,d in zip(names,ds):
                if d==y[1]:
                    r=('isvar',x[1],n); return r if pos else mk_not(r)
            return FALSE if pos else TRUE
        if y[0]=='disc':
            va=self.split_variant(st,x[1],x[2]); vb=self.split_variant(st,y[1],y[2])
            return TRUE if (va==vb)==pos else FALSE
        return ('opq',a,b,pos)
    def rvalue(self,st,fr,r,dty):
        k=r['r']
        if k=='use': return self.operand(st,fr,r['o'])
        if k=='ref':
            if r['mut']:
                cell,path,ty=self.resolve(st,fr,r['p'])
                if cell is None:
                    c=self.fresh('new'); st.mem[c]=path; return ('ref',c,())
                if self.read(st,cell,path)[0]=='ref' and False: pass
                return ('ref',cell,path)
            return self.load(st,fr,r['p'])
        if k=='rawptr':
            cell,path,ty=self.resolve(st,fr,r['p'])
            return path if cell is None else ('ref',cell,path)
        if k=='bin':
            a=self.operand(st,fr,r['a']); b=self.operand(st,fr,r['b'])
            return self.binop(st,r['op'],a,b,self.op_ty(fr,r['a']),dty)
        if k=='un':
            a=self.operand(st,fr,r['o'])
            if r['op']=='Not':
                if self.F.types[dty]['k']=='bool': return mk_not(a)
                return self.typed(('un','Not',a),dty)
            if r['op']=='Neg':
                if self.is_float(dty): return ('fop','Neg',a)
                return fromlin(lscale(tolin(a),-1))
            if r['op']=='PtrMetadata': return self.seq_len(st,self.deref(st,a))
            return self.typed(('un',r['op'],a),dty)
        if k=='discr':
            v=self.load(st,fr,r['p']); ty=r['p']['t']
            return self.discr(st,v,ty)
        if k=='cast': return self.cast(st,r['ck'],self.operand(st,fr,r['o']),self.op_ty(fr,r['o']),r['t'])
        if k=='agg':
            fs=tuple(self.operand(st,fr,x) for x in r['f']); t=self.F.types[r['t']]
            if r['ak']=='adt':
                if t['name'] in IDENT_TYPES: return fs[0] if fs else UNIT
                return ('adt',t['name'],t['variants'][r.get('v') or 0]['name'],fs)
            if r['ak']=='tuple': return ('tup',fs)
            if r['ak']=='closure': return ('clo',t.get('body') or t.get('def'),fs)
            if r['ak']=='array': return ('vec',fs)
            return fs[0] if fs else ('agg',r['ak'])
        if k=='repeat':
            return ('rep',self.operand(st,fr,r['o'])) if isinstance(r.get('o'),dict) else ('rep',)
        return ('rv',k)
    def discr(self,st,v,ty):
        t=self.F.types[ty]
        v=self.deref(st,v) if v[0]=='ref' else v
        if t['k']=='adt' and t['name']=='alloc::borrow::Cow':
            return ('disc',('cowk',v),('Borrowed','Owned'),(0,1))
        if t['k']!='adt' or not t.get('variants'): return ('disco',v)
        names=tuple(x['name'] for x in t['variants']); ds=tuple(x['d'] for x in t['variants'])
        if v[0]=='adt' and v[2] in names: return ('int',ds[names.index(v[2])])
        vs=st.var.get(v)
        if vs is not None and len(vs)==1: return ('int',ds[names.index(next(iter(vs)))])
        return ('disc',v,names,ds)
    def cast(self,st,ck,v,fty,tty):
        if ck=='IntToInt':
            it=self.int_ty(tty)
            if v[0] in('disc','disco'): return v
            if self.F.types[fty]['k']=='bool':
                if v[0]=='bool': return ('int',int(v[1]))
                return ('int',1) if self.split_bool(st,v) else ('int',0)
            if self.F.types[tty]['k']=='char': return v
            if it is None: return ('cast',v)
            lo,hi=self.range_of(it)
            if v[0]=='int':
                if lo<=v[1]<=hi: return v
                m=v[1]&((1<<it[1])-1)
                if it[0] and m>hi: m-=1<<it[1]
                return ('int',m)
            if v[0]=='char': return ('int',v[1])
            l=tolin(v)
            if self.prove(st,ladd(l,lconst(-lo))) and self.prove(st,ladd(lconst(hi),l,-1)): return v
            return self.typed(('cast',it,v),tty)
        if ck=='IntToFloat': return ('i2f',v,self.F.types[tty]['bits'] if 'bits' in self.F.types[tty] else 64)
        if ck=='FloatToInt':
            ty=self.F.types[tty]
            if ty.get('k')=='int' and ty.get('bits')==128 and ty.get('signed'): return self.typed(('f2i',v),tty)
            return self.typed(('f2sat',v,ty['s']),tty)       # saturates at the ends of the range
        if ck=='FloatToFloat': return v if fty==tty else ('f2f',v)
        return v
    # ---------- control flow
    def cfg_of(self,key):
        if key in self.cfg: return self.cfg[key]
        b=self.F.bodies[key]; bl=b['blocks']; n=len(bl)
        succ=[]
        for x in bl:
            t=x['t']; k=t['k']
            if k=='goto': s=[t['to']]
            elif k=='switch': s=[y[1] for y in t['ts']]+([t['else']] if t.get('else') is not None else [])
            elif k in('drop','assert'): s=[t['to']]
            elif k=='call': s=[t['to']] if t.get('to') is not None else []
            else: s=[]
            succ.append([y for y in s if not bl[y]['c']])
        # dfs, back edges, dominators by simple iteration
        order=[];seen=set();
        st=[(0,iter(succ[0]))]; seen.add(0)
        while st:
            u,it=st[-1]
            for v in it:
                if v not in seen: seen.add(v); st.append((v,iter(succ[v]))); break
            else: order.append(u); st.pop()
        rpo=order[::-1]; pos={u:i for i,u in enumerate(rpo)}
        pred={u:[] for u in rpo}
        for u in rpo:
            for v in succ[u]: pred[v].append(u)
        idom={0:0}; ch=True
        while ch:
            ch=False
            for u in rpo[1:]:
                new=None
                for p in pred[u]:
                    if p in idom:
                        if new is None: new=p
                        else:
                            x,y=p,new
                            while x!=y:
                                while pos[x]>pos[y]: x=idom[x]
                                while pos[y]>pos[x]: y=idom[y]
                            new=x
                if idom.get(u)!=new: idom[u]=new; ch=True
        def dom(a,b):
            while True:
                if a==b: return True
                if b==0: return False
                b=idom[b]
        loops={}
        for u in rpo:
            for v in succ[u]:
                if dom(v,u):
                    body=loops.setdefault(v,{v})
                    w=[u]
                    while w:
                        x=w.pop()
                        if x not in body: body.add(x); w+=pred[x]
        # liveness
        mutref=set()
        use=[set() for _ in range(n)]; de=[set() for _ in range(n)]
        def pl(p,i,isdef=False):
            if isdef and not p['p']:
                de[i].add(p['l'])
            else:
                if p['l'] not in de[i]: use[i].add(p['l'])
            for e in p['p']:
                if e!='*' and e[0]=='i' and e[1] not in de[i]: use[i].add(e[1])
        def op(o,i):
            if isinstance(o,dict) and o.get('k') in('copy','move'): pl(o['p'],i)
        for i,x in enumerate(bl):
            for s in x['s']:
                if s[0]=='=':
                    r=s[2]
                    for k in('o','a','b'): op(r.get(k),i)
                    if isinstance(r.get('f'),list):
                        for y in r['f']: op(y,i)
                    if 'p' in r:
                        pl(r['p'],i)
                        if r['r'] in('ref','rawptr') and (r.get('mut') or r['r']=='rawptr'): mutref.add(r['p']['l'])
                    pl(s[1],i,True)
                elif s[0]=='setd': pl(s[1],i)
                elif s[0]=='assume': op(s[1],i)
            t=x['t']
            if t['k']=='switch': op(t['o'],i)
            elif t['k']=='assert': op(t['c'],i); [op(y,i) for y in t.get('mo') or []]
            elif t['k']=='call':
                op(t['f'],i); [op(y,i) for y in t['a']]; pl(t['d'],i,True)
            elif t['k']=='return': 
                if 0 not in de[i]: use[i].add(0)
        live=[set() for _ in range(n)]; ch=True
        while ch:
            ch=False
            for u in order:
                o=set()
                for v in succ[u]: o|=live[v]
                nl=use[u]|(o-de[u])
                if nl!=live[u]: live[u]=nl; ch=True
        c={'succ':succ,'loops':loops,'live':live,'mutref':mutref}
        self.cfg[key]=c
        return c
    def run_body(self,key,args,st):
        """-> [(state, return value)]"""
        b=self.F.bodies[key]
        self.visited.add(key)
        if len(self.stack)>self.inline_depth: raise TooBig('inline depth at '+key)
        self.frames+=1; fr=self.frames; self.frame_body[fr]=b
        self.stack.append((key,fr))
        try:
            st=st.copy()
            sp=b.get('spread')
            if sp:   # rust-call: trailing arguments arrive as a tuple
                pass
            for i,a in enumerate(args): st.mem[('L',fr,i+1)]=a; 
            for i,a in enumerate(args):
                if i+1<len(b['locals']): self.typed(a,b['locals'][i+1])
            outs=[]
            for kind,s,v in self.explore(fr,key,0,st,None):
                if kind=='ret':
                    rv=s.mem.get(('L',fr,0),UNIT)
                    # frame locals die; values already hold snapshots
                    s2=s.copy(); s2.mem={c:x for c,x in s.mem.items() if not(c[0]=='L' and c[1]==fr)}
                    outs.append((s2,rv))
            return self.merge_outs(outs)
        finally:
            self.stack.pop(); del self.frame_body[fr]
    def merge_outs(self,outs):
        if len(outs)<2 or self.nomerge: return outs
        groups={}
        for s,v in outs: groups.setdefault((v,s.ev,tuple(sorted(s.mem.items(),key=_k0))),[]).append(s)
        if len(groups)==len(outs): return outs
        r=[]
        for (v,_,_),ss in groups.items():
            r.append((self.join(ss),v))
        return r
    def join(self,ss):
        """join of states that agree on memory and events: keep the common facts"""
        if len(ss)==1: return ss[0]
        a=ss[0].copy()
        for b in ss[1:]:
            a.var={t:a.var[t]|b.var[t] for t in a.var if t in b.var}
            a.atom={t:v for t,v in a.atom.items() if b.atom.get(t)==v}
            keep=set(a.lin&b.lin)
            for l in a.lin-keep:
                if self.prove(b,l): keep.add(l)
            for l in b.lin-keep:
                if self.prove(a,l): keep.add(l)
            a.lin=frozenset(keep); a.notes=a.notes&b.notes
        return a
    def explore(self,fr,key,blk,st,region):
        """all ways out of `region` (None = the whole body) from blk: ('ret',st,None)|('edge',st,target)"""
        cfg=self.cfg_of(key); out=[]
        work=[(blk,st,True)]
        npaths=0
        while work:
            u,s,first=work.pop()
            if region is not None and (u not in region[1] or (u==region[0] and not (first and u==blk and s is st))):
                out.append(('edge',s,u)); continue
            if u in cfg['loops'] and not (region is not None and u==region[0]):
                res=self.cfg_loop(fr,key,u,cfg['loops'][u],s)
            else:
                res=self.block(fr,key,u,s)
            npaths+=len(res)
            if npaths>self.max_paths: raise TooBig('paths in '+key)
            for kind,s2,to in res:
                if kind=='ret': out.append(('ret',s2,None))
                else: work.append((to,s2,False))
        return out
    def block(self,fr,key,u,st):
        b=self.F.bodies[key]; bl=b['blocks'][u]
        cur=[st]
        for s in bl['s']:
            self.steps+=1
            if self.steps>self.step_limit: raise TooBig('steps')
            if s[0]=='=':
                nxt=[]
                for x in cur:
                    def f(x,s=s):
                        v=self.rvalue(x,fr,s[2],s[1]['t'])
                        self.store(x,fr,s[1],v); return [x]
                    nxt+=self.retry(x,f)
                cur=nxt
            elif s[0]=='dead':
                for x in cur: x.mem.pop(('L',fr,s[1]),None)
            elif s[0]=='setd':
                pass
        out=[]
        for x in cur: out+=self.terminator(fr,key,bl['t'],x)
        return out
    def terminator(self,fr,key,t,st):
        k=t['k']
        self.steps+=1
        if k=='goto': return [('edge',st,t['to'])]
        if k=='return': return [('ret',st,None)]
        if k in('unreachable','resume'): return []
        if k=='drop':
            return [('edge',st,t['to'])]
        if k=='switch': return self.retry(st,lambda s:self.switch(fr,t,s))
        if k=='assert':
            def f(s):
                c=self.operand(s,fr,t['c'])
                if not t['e']: c=mk_not(c)
                m=t['m']
                if not re.search('Misaligned|NullPointer|null|align',m,re.I):
                    self.must(s,c,'assert '+m,self.span_key(t),m)
                return [('edge',s,t['to'])]
            return self.retry(st,f)
        if k=='call':
            return self.do_call_term(fr,key,t,st)
        raise TooBig('terminator '+k)
    def span_key(self,t): return t.get('sp') or ''
    def switch(self,fr,t,st):
        v=self.operand(st,fr,t['o']); out=[]
        els=t.get('else')
        if v[0]=='int' or v[0]=='char':
            for x,to in t['ts']:
                if x==v[1]: return [('edge',st,to)]
            return [('edge',st,els)] if els is not None else []
        if v[0]=='bool':
            for x,to in t['ts']:
                if bool(x)==v[1]: return [('edge',st,to)]
            return [('edge',st,els)]
        ty=self.F.types[self.op_ty(fr,t['o'])]
        if ty['k']=='bool':
            m={bool(x):to for x,to in t['ts']}
            return [('edge',s,m.get(val,els)) for s,val in self.branch(st,v)]
        if v[0]=='disc':
            names,ds=v[2],v[3]; byd=dict(zip(ds,names)); term=v[1]
            vs=st.var.get(term)
            if vs is None: vs=frozenset(names)
            used=set()
            for x,to in t['ts']:
                n=byd.get(x)
                if n is None: continue
                used.add(n)
                if n in vs:
                    s=st.copy()
                    try: self.set_var(s,term,frozenset([n]))
                    except Dead: continue
                    out.append(('edge',s,to))
            rest=vs-used
            if rest and els is not None:
                s=st.copy()
                try: self.set_var(s,term,rest); out.append(('edge',s,els))
                except Dead: pass
            return out
        if v[0]=='disco':
            return [('edge',st.copy(),to) for _,to in t['ts']]+([('edge',st.copy(),els)] if els is not None else [])
        # integer or char
        rest=st.copy(); alive=True
        for x,to in t['ts']:
            s=st.copy(); l=ladd(tolin(v),lconst(-x))
            b=mk_eq0(l)
            tr=self.truth(rest,b)
            if tr is not False:
                s=rest.copy()
                try: self.assume(s,b,True); out.append(('edge',s,to))
                except Dead: pass
            try: self.assume(rest,b,False)
            except Dead: alive=False; break
        if alive and els is not None: out.append(('edge',rest,els))
        return out
    # ---------- calls
    def do_call_term(self,fr,key,t,st):
        def f(s):
            a=[self.operand(s,fr,x) for x in t['a']]
            fo=t['f']
            if fo.get('k')=='const' and 'fn' in fo:
                fn=fo['fn']; fv=None
            else:
                fv=self.operand(s,fr,fo); fn=None
            c=Call(fn,t['d']['t'],t.get('sp') or '',[self.op_ty(fr,x) for x in t['a']],fr)
            res=self.invoke(s,fv,a,c) if fn is None else self.call(s,fn,a,c)
            out=[]
            for s2,v in res:
                if t.get('to') is None: continue
                self.typed(v,t['d']['t'])
                self.store(s2,fr,t['d'],v)
                out.append(('edge',s2,t['to']))
            return out
        return self.retry(st,f)
    def call(self,st,fn,args,c):
        """-> [(state,value)]"""
        path=norm_path(fn.get('path') or ''); rp=norm_path(fn.get('rpath') or '') or path
        c.path=path; c.rpath=rp; c.fn=fn
        body=fn.get('body')
        for k in(body,rp,path):
            h=self.anchors.get(k)
            if h:
                r=h(self,st,c,args)
                if r is not None: return r
        for k in(rp,path):
            h=self.natives.get(k)
            if h:
                r=h(self,st,c,args)
                if r is not None: return r
        # value-driven dispatch of closures / fn pointers
        if fn.get('trait') in('core::ops::function::Fn','core::ops::function::FnMut','core::ops::function::FnOnce') and args:
            tup=args[1] if len(args)>1 else UNIT
            av=list(tup[1]) if tup[0]=='tup' else [project(tup,None,0)]
            f=args[0]; d=self.deref(st,f)
            if d[0] in('clo','fn'): return self.invoke(st,f,av,c)
            h=self.anchors.get('dyncall')
            if h:
                r=h(self,st,c,[d]+av)
                if r is not None: return r
        if fn.get('kind')=='closure_once' and args:
            tup=args[1] if len(args)>1 else UNIT
            av=list(tup[1]) if tup[0]=='tup' else []
            return self.invoke(st,args[0],av,c)
        if not body and fn.get('trait') and fn.get('kind') in('unresolved','item','virtual'):
            body=self.resolve_by_value(st,fn,args)
        if body and body in self.F.bodies:
            if any(k==body for k,_ in self.stack):
                self.recursed.add(body)
                if self.onrec:
                    r=self.onrec(st,body,args,c)
                    if r is not None: return r
                return self.opaque(st,c,args,'rec')
            return self.run_body(body,self.spread(body,args),st)
        return self.opaque(st,c,args,'ext')
    def resolve_by_value(self,st,fn,args):
        """a trait method called on an unknown Self: its default body, when the trait has one implementation that keeps it"""
        tr,m=fn.get('trait'),fn.get('method')
        if not(tr or '').startswith(self.F.crate+'::'): return None
        im=self.F.impls_of(tr)
        if len(im)!=1 or not re.fullmatch('[A-Z][A-Z0-9]{0,2}',im[0][0]): return None   # a blanket implementation only
        ks=im[0][1].get(m) or self.F.default_method(tr,m)
        return ks
    def spread(self,body,args):
        return args
    def invoke(self,st,f,av,c):
        """call a closure or function value with the given argument values"""
        d=self.deref(st,f)
        if d[0]=='fn':
            fn=self.fns[d[1]]
            if fn.get('ctor') : 
                r=self.ctor(fn,av,c)
                if r is not None: return [(st,r)]
            at=c.atys; g=fn.get('args') or ()
            if fn.get('trait') and g and isinstance(g[0],int): at=[g[0]]+list(c.atys[1:])   # a trait function acts on its Self type
            c2=Call(fn,c.dty,c.span,at,c.fr); c2.via=c
            return self.call(st,fn,list(av),c2)
        if d[0]=='clo':
            key=d[1]
            if key not in self.F.bodies:
                return self.opaque(st,c,[d]+list(av),'closure')
            if any(k==key for k,_ in self.stack): return self.opaque(st,c,[d]+list(av),'rec')
            b=self.F.bodies[key]; t=self.F.types[b['locals'][1]] if b['argc']>=1 else None
            selfv=d; tmp=None
            if t and t['k']=='ref' and t['mut']:
                if f[0]=='ref': selfv=f
                else:
                    tmp=self.fresh('new'); st=st.copy(); st.mem[tmp]=d; selfv=('ref',tmp,())
            a=list(av)
            return self.run_body(key,[selfv]+a,st)
        return self.opaque(st,c,[d]+list(av),'value')
    def ctor(self,fn,av,c):
        ct=fn['ctor']
        t=None
        if isinstance(ct,dict):
            t=self.F.types[ct['t']]; v=ct.get('v') or 0
            if t.get('name') in IDENT_TYPES: return av[0]
            return ('adt',t['name'],t['variants'][v]['name'],tuple(av))
        return None
    def opaque(self,st,c,args,why):
        name=c.rpath or c.path or '?'
        st=st.copy()
        mut=[a for a in args if a[0]=='ref']
        content=tuple(self.deref(st,a) if a[0]=='ref' else a for a in args)
        content=tuple(self.canon(x) for x in content)
        if why!='rec': self.unknown[name]=self.unknown.get(name,0)+1
        if mut:
            r=self.fresh('ret',name)
            post=[]
            for n,a in enumerate(args):
                if a[0]=='ref':
                    h=('havoc',self.fresh('new'),name); self.write(st,a[1],a[2],h); post.append((n,h))
            st.ev=st.ev+((name,content,r,c.span,tuple(post)),)
        elif why=='rec' or why=='value' or why=='closure':
            r=self.fresh('ret',name)
            st.ev=st.ev+((name,content,r,c.span),)
        else:
            r=('ap',name)+content
        self.typed(r,c.dty)
        h=self.anchors.get('ext')
        if h: h(self,st,c,content,r)
        return [(st,r)]
    def canon(self,x): return x
    # ---------- loops
    def cfg_loop(self,fr,key,head,body,st):
        cfg=self.cfg_of(key); live=cfg['live'][head]; keepm=cfg['mutref']
        def prune(s):
            for c in [c for c in s.mem if c[0]=='L' and c[1]==fr and c[2] not in live and c[2] not in keepm]: del s.mem[c]
        def run(s):
            outs=[]
            for kind,s2,to in self.explore_loop(fr,key,head,body,s):
                if kind=='edge' and to==head: prune(s2); outs.append(('back',s2,None))
                elif kind=='edge': outs.append(('edge',s2,to))
                else: outs.append((kind,s2,to))
            return outs
        st=st.copy(); prune(st)
        return self.loop(st,run,'%s#bb%d'%(key,head))
    def explore_loop(self,fr,key,head,body,s):
        first=self.block(fr,key,head,s); out=[]
        for kind,s2,to in first:
            if kind=='ret': out.append((kind,s2,to)); continue
            if to==head or to not in body: out.append(('edge',s2,to)); continue
            out+=self.explore(fr,key,to,s2,(head,body))
        return out
    def shape(self,st,base,start,coarse=()):
        """the finite control part of a state: variant tags, booleans and literals of cells that may change"""
        def sh(v,d=0):
            k=v[0]
            if k=='bool': return v
            if k=='str': return ('?',) if c in coarse or len(v[1])>8 else v
            if k=='adt' : return (v[1],v[2])+tuple(sh(x,d+1) for x in v[3]) if d<4 else (v[1],v[2])
            if k=='tup': return tuple(sh(x,d+1) for x in v[1])
            if k=='vec': return ('S',) if d else ('S',)
            if k in('clo','fn'): return (k,v[1])
            return ('?',)
        out=[]
        for c,v in st.mem.items(): out.append((c,sh(v)))
        return tuple(sorted(out,key=_k0))
    def accumulates(self,base,mem):
        "cells that hold a literal string at one visit and a computed one at another"
        r=set()
        def go(a,b,c):
            if a[0]=='str' and b[0]!='str' or b[0]=='str' and a[0]!='str' and a[0]!='undef': r.add(c)
            elif a[0]=='str' and b[0]=='str' and (len(a[1])>8 or len(b[1])>8) and a!=b: r.add(c)
            elif a[0]=='adt' and b[0]=='adt' and a[1:3]==b[1:3]:
                for x,y in zip(a[3],b[3]): go(x,y,c)
            elif a[0]==b[0]=='tup':
                for x,y in zip(a[1],b[1]): go(x,y,c)
            elif a[0]==b[0]=='clo':
                for x,y in zip(a[2],b[2]): go(x,y,c)
        for c,v in mem.items():
            if c in base: go(base[c],v,c)
        return r
    def widen_shape(self,sh): return ()
    def drivers(self,st):
        "cells holding an iterator over a short literal sequence or range -> what is left of it"
        r={}
        def go(v,d):
            if v[0]=='tup' and d==0 and v[1] and isinstance(v[1][0],tuple) and v[1][0][:2]==('adt','It'): return go(v[1][0],1)
            if v[0]!='adt' or d>3: return None
            if v[1]=='It' and v[2]=='slice' and v[3][0][0]=='vec' and v[3][1][0]=='int' and len(v[3][0][1])<=8: return len(v[3][0][1])-v[3][1][1]
            if v[1]=='It' or d==0:
                for x in v[3]:
                    if isinstance(x,tuple) and x and x[0]=='adt':
                        n=go(x,d+1)
                        if n is not None: return n
        for c,v in st.mem.items():
            n=go(v,0)
            if n is not None: r[c]=n
        return r
    def unrolled(self,st0,body):
        "the results of a loop over a short literal sequence, one round at a time; None when it is not one"
        d0=self.drivers(st0)
        if not d0: return None
        work=[(st0,0)]; res=[]
        while work:
            s,n=work.pop()
            d=self.drivers(s)
            for kind,s2,to in body(s.copy()):
                if kind!='back': res.append((kind,s2,to)); continue
                d2=self.drivers(s2)
                if n>8 or len(work)+len(res)>40 or not any(d2.get(c,9)<d[c] for c in d): return None
                work.append((s2,n+1))
        return res
    def loop(self,st0,body,name):
        start=self.counter
        if self.drivers(st0):
            self.mute+=1
            try: u=self.unrolled(st0,body)
            finally: self.mute-=1
            if u is not None: return u if self.mute else self.unrolled(st0,body)
        lid=self.fresh('loop')[1]
        pre_ev=st0.ev
        L=Loop(lid,name,st0)
        base=st0.copy(); base.ev=()
        # quick exit: a "loop" that never comes back
        nodes={}
        coarse=set(); L.coarse=coarse
        self.mute+=1
        try:
            while True:
                n=len(coarse)
                for kind,s2,to in body(base.copy()):
                    if kind=='back': coarse|=self.accumulates(base.mem,s2.mem)
                if len(coarse)==n: break
        finally: self.mute-=1
        def mkkey(s): return self.shape(s,base,start,coarse)
        k0=mkkey(base)
        nodes[k0]=Node(dict(base.mem),{},0)
        order=[k0]
        self.mute+=1
        try:
            rounds=0
            while True:
                rounds+=1
                if rounds>24: raise TooBig('loop fixpoint '+name)
                changed=False
                self.infer(L,nodes,order,base,body,k0)
                for k in list(order):
                    nd=nodes[k]
                    s=self.node_state(base,nd)
                    for kind,s2,to in body(s):
                        if kind!='back': continue
                        k2=mkkey(s2)
                        if k2 not in nodes and len(nodes)>=6:
                            k2=self.closest(nodes,k2)
                        if k2 not in nodes:
                            # a new control shape: start from this edge, forgetting in-loop values
                            nodes[k2]=self.first_node(base,s2,start,len(nodes)); order.append(k2); changed=True
                        else:
                            if self.generalise(nodes[k2],s2.mem,start,base): changed=True
                if not changed: break
            L.edges_final=[]
            self.infer(L,nodes,order,base,body,k0)
        finally: self.mute-=1
        # final pass
        outs=[]; edges=[]
        for k in order:
            nd=nodes[k]; s=self.node_state(base,nd)
            for kind,s2,to in body(s):
                if kind=='back':
                    k2=mkkey(s2)
                    if k2 not in nodes: k2=self.closest(nodes,k2)
                    sg=self.match(nodes[k2],s2.mem)
                    edges.append((k,k2,sg,s2))
                else:
                    outs.append((k,kind,s2,to))
        L.nodes={k:nodes[k] for k in order}; L.edges=edges; L.entry=k0; L.base=base
        L.entry_sub=self.match(nodes[k0],base.mem)
        self.loops[lid]=L
        res=[]
        for k,kind,s2,to in outs:
            s3=s2.copy()
            if edges: s3.ev=pre_ev+(('loop',lid,k),)+s2.ev
            else: s3.ev=pre_ev+s2.ev
            res.append((kind,s3,to))
        return self.merge_loop(res)
    def merge_loop(self,res):
        if len(res)<2 or self.nomerge: return res
        groups={}
        for kind,s,to in res:
            groups.setdefault((kind,to if not isinstance(to,tuple) or True else to,s.ev,tuple(sorted(s.mem.items(),key=_k0))),[]).append(s)
        if len(groups)==len(res): return res
        return [(g[0],self.join(ss),g[1]) for g,ss in groups.items()]
    def closest(self,nodes,k2):
        d2=dict(k2); best=None
        for k in nodes:
            d1=dict(k); n=sum(1 for c in d1 if d1[c]!=d2.get(c))
            if best is None or n<best[0]: best=(n,k)
        return best[1]
    def node_state(self,base,nd):
        s=base.copy(); s.mem=dict(nd.mem); s.ev=()
        s.lin=frozenset(set(s.lin)|set(nd.lin))
        for t,vs in nd.var.items(): s.var[t]=vs
        if nd.notes: s.notes=s.notes|nd.notes
        return s
    def first_node(self,base,s2,start,idx):
        nd=Node(dict(base.mem),{},idx)
        # cells as in the new state, values that depend on the iteration become loop symbols
        mem={}
        for c,v in s2.mem.items():
            mem[c]=self.abstract(nd,base.mem.get(c),v,start)
        nd.mem=mem
        return nd
    def abstract(self,nd,v0,v,start):
        if v0==v and not self.born(v,start): return v
        if v[0]=='adt':
            f0=v0[3] if v0 is not None and v0[0]=='adt' and v0[1:3]==v[1:3] else [None]*len(v[3])
            if v[1:3]==('It','slice') and v[3][2]==('len',v[3][0]):
                a=[self.abstract(nd,x,y,start) for i,(x,y) in enumerate(zip(f0,v[3])) if i!=2]
                return ('adt',v[1],v[2],tuple(a[:2]+[('len',a[0])]+a[2:]))
            return ('adt',v[1],v[2],tuple(self.abstract(nd,a,b,start) for a,b in zip(f0,v[3])))
        if v[0]=='tup':
            f0=v0[1] if v0 is not None and v0[0]=='tup' and len(v0[1])==len(v[1]) else [None]*len(v[1])
            return ('tup',tuple(self.abstract(nd,a,b,start) for a,b in zip(f0,v[1])))
        if v[0]=='clo':
            f0=v0[2] if v0 is not None and v0[0]=='clo' and v0[1]==v[1] else [None]*len(v[2])
            return ('clo',v[1],tuple(self.abstract(nd,a,b,start) for a,b in zip(f0,v[2])))
        if v[0] in('bool','str','fn','bytes','ref'): return v
        if v0 is None and not self.born(v,start): return v
        return self.newphi(nd,v)
    def newphi(self,nd,v):
        p=self.fresh('phi'); nd.phis.append(p)
        if v[0] in('int','lin') or v in self.tyr: 
            if v in self.tyr: self.tyr[p]=self.tyr[v]
            nd.ints.add(p)
        if v[0] in('lin',):
            for a,_ in v[2]:
                if a in self.tyr: self.tyr.setdefault(p,self.tyr[a])
                elif a[0] in('len','nchars','count'): self.tyr.setdefault(p,(False,64))
        return p
    def born(self,v,start):
        return any(s[1]>start for s in symbols(v) if s[0] in('phi','ret','new'))
    def generalise(self,nd,mem,start,base):
        """make nd.mem cover mem as well; True if it changed"""
        ch=False; sg={}
        for c in list(nd.mem):
            if c not in mem:
                del nd.mem[c]; ch=True; continue
            t=nd.mem[c]; r=self.au(nd,t,mem[c],sg,start)
            if r!=t: nd.mem[c]=r; ch=True
        return ch
    def au(self,nd,t,v,sg,start):
        if t in nd.phiset():
            if t not in sg: sg[t]=v; return t
            if sg[t]==v: return t
            p=self.fresh('phi'); nd.phis.append(p)
            if t in nd.ints: nd.ints.add(p)
            if t in self.tyr: self.tyr[p]=self.tyr[t]
            sg[p]=v
            return p
        if t==v and not self.born(v,start): return t
        if t==v and not any(p in symbols(t) for p in nd.phiset()): return t
        if t[0]=='adt' and v[0]=='adt' and t[1:3]==v[1:3] and len(t[3])==len(v[3]):
            if t[1:3]==('It','slice') and t[3][2]==('len',t[3][0]) and v[3][2]==('len',v[3][0]):
                # up to the end of either
                S=self.au(nd,t[3][0],v[3][0],sg,start); return ('adt',t[1],t[2],(S,self.au(nd,t[3][1],v[3][1],sg,start),('len',S))+tuple(self.au(nd,a,b,sg,start) for a,b in zip(t[3][3:],v[3][3:])))
            return ('adt',t[1],t[2],tuple(self.au(nd,a,b,sg,start) for a,b in zip(t[3],v[3])))
        if t[0]=='tup' and v[0]=='tup' and len(t[1])==len(v[1]):
            return ('tup',tuple(self.au(nd,a,b,sg,start) for a,b in zip(t[1],v[1])))
        if t[0]=='clo' and v[0]=='clo' and t[1]==v[1]:
            return ('clo',t[1],tuple(self.au(nd,a,b,sg,start) for a,b in zip(t[2],v[2])))
        # what is left of a sequence: the same sequence from a moving place on
        r=self.rest_of(t,v)
        if r is not None and self.suffixes:
            S,i,j,hi=r
            if not self.born(S,start) and not any(p in symbols(S) for p in nd.phiset()):
                if i[0]!='int' or j!=i:
                    k=i if i in nd.phiset() else None
                    if k is None:
                        k=self.newphi(nd,('int',0)); self.tyr[k]=(False,64); sg[k]=j; return ('slice',S,k,hi)
                return ('slice',S,self.au(nd,i,j,sg,start),hi)
        # reuse an existing symbol introduced for the same pair
        for (t0,v0),p in nd.pairs.items():
            if t0==t and sg.get(p)==v: return p
        p=self.newphi(nd,t if t[0] in('int','lin') or t in self.tyr else v)
        if v in self.tyr or v[0] in('int','lin'): nd.ints.add(p)
        sg[p]=v; nd.pairs[(t,v)]=p
        return p
    suffixes=True
    def rest_of(self,t,v):
        "(S,i,j,end) when t and v are S from i and from j on"
        if v[0]!='slice' or v[3]!=('len',v[1]): return None
        if t==v[1]: return (t,('int',0),v[2],v[3])
        if t[0]=='slice' and t[1]==v[1] and t[3]==v[3]: return (t[1],t[2],v[2],v[3])
        return None
    def match(self,nd,mem):
        """substitution of nd's loop symbols that yields mem"""
        sg={}
        P=nd.phiset()
        def go(t,v):
            if t in P: sg.setdefault(t,v); return
            if t[0]=='adt' and v[0]=='adt':
                for a,b in zip(t[3],v[3]): go(a,b)
            elif t[0]=='tup' and v[0]=='tup':
                for a,b in zip(t[1],v[1]): go(a,b)
            elif t[0]=='clo' and v[0]=='clo':
                for a,b in zip(t[2],v[2]): go(a,b)
            elif t[0]=='slice':
                if v==t[1]: go(t[2],('int',0))
                elif v[0]=='slice' and v[1]==t[1] and v[3]==t[3]: go(t[2],v[2])
        for c,t in nd.mem.items():
            if c in mem: go(t,mem[c])
        return sg
    def infer(self,L,nodes,order,base,body,k0):
        """numeric invariants of the loop symbols: the largest inductive subset of the candidates"""
        live=[k for k in order if nodes[k].live_phis()]
        if not live: return
        # edges under the weakest assumptions, to build candidates
        cands={k:None for k in order}
        for k in order: nodes[k].lin=set(); nodes[k].var={}; nodes[k].notes=frozenset()
        def edges():
            es=[('entry',k0,self.match(nodes[k0],base.mem),base)]
            for k in order:
                for kind,s2,to in body(self.node_state(base,nodes[k])):
                    if kind=='back':
                        k2=self.shape(s2,base,0,L.coarse)
                        if k2 not in nodes:
                            if len(nodes)>=6: k2=self.closest(nodes,k2)
                            else: continue
                        es.append((k,k2,self.match(nodes[k2],s2.mem),s2))
            return es
        es=edges()
        # sizelike symbols
        allphi=set(p for k in order for p in nodes[k].live_phis())
        ints=set(p for k in order for p in nodes[k].live_phis() if p in nodes[k].ints)
        self.sizelike|=ints
        ch=True
        while ch:
            ch=False
            for src,k2,sg,s2 in es:
                for p in list(nodes[k2].live_phis()):
                    if p in self.sizelike and p in sg:
                        v=sg[p]
                        if not self.sz(v,s2): self.sizelike.discard(p); ch=True
        # reference terms
        refs=set()
        for src,k2,sg,s2 in es:
            if src=='entry':
                for v in sg.values():
                    if v[0] in('int','lin') or v in self.tyr: refs.add(v)
        crefs={}; texts=set()
        def seqs(v,acc,d=0):
            if v[0]=='adt':
                if v[1]=='It' and v[2]=='ci' and cur is not None: crefs.setdefault(cur,set()).add(('cidx',v[3][0][1],v[3][1])); texts.add(v[3][0][1])
                if v[1]=='It' and v[2] in('slice','chars','vecinto','unord'):
                    acc.add(self.seq_len(base,v[3][0]) if v[2]!='chars' else ('nchars',v[3][0]))
                    acc.add(v[3][2]) if len(v[3])>2 else None
                for x in v[3]: 
                    if isinstance(x,tuple) and x: seqs(x,acc,d+1)
                if v[1]=='core::ops::range::Range' : acc.add(v[3][1])
            elif v[0]=='tup':
                for x in v[1]: seqs(x,acc,d+1)
            elif v[0]=='slice': acc.add(v[3])
        cur=None
        for k in order:
            acc=set(); cur=k
            for v in nodes[k].mem.values(): seqs(v,acc)
            refs|={a for a in acc if not (symbols(a)&allphi)}
        for c in base.lin:
            for a,_ in c[1]:
                if a[0] in('len','nchars') and len(refs)<10: refs.add(a)
        refs.add(('int',0))
        refs={r for r in refs if r[0] in('int','lin','len','nchars','count') or r in self.tyr}
        refs=sorted(refs,key=rep)[:12]
        # which phis are sequences: those with a push or whose init is a vec/str
        inc={k:[e for e in es if e[1]==k] for k in order}
        for k in order:
            nd=nodes[k]; exprs=[]
            for p in nd.live_phis():
                if p in nd.ints: exprs.append((p,p))
                else:
                    vals=[e[2].get(p) for e in inc[k]]
                    if any(v is not None and v[0] in('vec','snoc','str','cat','upd','popd') for v in vals): exprs.append((('len',p),p))
            nd.exprs=exprs; C=set()
            if not inc[k]: continue
            e0=inc[k][0]
            def ev(x,e):
                t,p=x
                if p is None: return tolin(subst(t,e[2]) if t[0]=='cidx' else t)
                v=e[2].get(p)
                if v is None: return None
                return tolin(v) if t==p else tolin(self.seq_len(e[3],v))
            X=exprs+[(r,None) for r in refs]+[(r,None) for r in sorted(crefs.get(k,()),key=rep)]
            for i,x in enumerate(exprs):
                for y in X:
                    if y==x: continue
                    a,b=ev(x,e0),ev(y,e0)
                    if a is None or b is None: continue
                    d=ladd(a,b,-1); f=ladd(tolin(x[0]),tolin(y[0]),-1)
                    if not d[1]:
                        C.add(ladd(f,lconst(-d[0]))); C.add(ladd(lscale(f,-1),lconst(d[0])))
                        if d[0]>0: C.add(f)
                        if d[0]<0: C.add(lscale(f,-1))
                    C.add(f); C.add(lscale(f,-1))
                    if y[1] is None: C.add(ladd(lscale(f,-1),lconst(-1)))
            cands[k]=C
        # drop what an incoming edge violates, until stable
        def holds(c,e):
            m=dict(e[2]);
            l=lconst(c[0])
            for a,kk in c[1]:
                if a[0]=='len' and a[1] in m: l=ladd(l,tolin(self.seq_len(e[3],m[a[1]])),kk)
                elif a in m: l=ladd(l,tolin(m[a]),kk)
                elif a[0]=='cidx': l=ladd(l,tolin(subst(a,m)),kk)
                else: l=ladd(l,(0,((a,1),)),kk)
            return self.prove(e[3],l)
        def bholds(nt,e):
            v=e[2].get(nt[2])
            return v is not None and self.natives.boundary(e[3],nt[1],v)
        if texts:
            for k in order:
                nts=[('bnd',t,p) for t in texts for p in nodes[k].live_phis() if p in nodes[k].ints]
                nodes[k].notes=frozenset(n for n in nts if all(bholds(n,e) for e in inc[k] if e[0]=='entry'))
        for k in order:
            if cands[k]:
                cands[k]={c for c in cands[k] if all(holds(c,e) for e in inc[k] if e[0]=='entry')}
                nodes[k].lin=set(cands[k])
        for _ in range(12):
            es=edges(); bad=False
            for k in order:
                nn=frozenset(n for n in nodes[k].notes if all(bholds(n,e) for e in es if e[1]==k))
                if nn!=nodes[k].notes: bad=True; nodes[k].notes=nn
                if not cands[k]: continue
                keep={c for c in cands[k] if all(holds(c,e) for e in es if e[1]==k)}
                if keep!=cands[k]: bad=True; cands[k]=keep; nodes[k].lin=set(keep)
            if not bad: break
        else:
            for k in order: nodes[k].lin=set(); nodes[k].notes=frozenset()
    def sz(self,v,st):
        if v[0]=='int': return v[1]>=0 and v[1]<1<<31
        if v[0]=='lin': return abs(v[1])<1<<31 and all(self.is_size(a) for a,k in v[2] if k>0) and all(True for a,k in v[2])
        return self.is_size(v)

class Node:
    def __init__(s,mem,phis,idx): s.mem=mem; s.phis=[]; s.ints=set(); s.lin=set(); s.var={}; s.pairs={}; s.idx=idx; s.exprs=[]; s.notes=frozenset()
    def phiset(s): return set(s.phis)
    def live_phis(s):
        used=set()
        for v in s.mem.values(): used|=symbols(v)
        return [p for p in s.phis if p in used]
class Loop:
    def __init__(s,lid,name,st0): s.lid=lid;s.name=name;s.st0=st0;s.nodes={};s.edges=[];s.entry=None;s.entry_sub={}
class Call:
    __slots__=('fn','dty','span','atys','fr','path','rpath','via')
    def __init__(s,fn,dty,span,atys,fr): s.fn=fn;s.dty=dty;s.span=span;s.atys=atys;s.fr=fr;s.path=s.rpath='';s.via=None
def short(k): return k.split('@')[0]
