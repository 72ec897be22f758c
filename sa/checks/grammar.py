"""C10, C11, C36, C37: decisions on the grammars of this crate (see sa/grammar.py)."""
import re
import grammar as GR, summ, helpers
import sim as SIM
from sim import subterms
from grammar import *
from sim import short
from checks import panics
def sn(n): return n.split('::')[-1]
def cyc(edges):
    "strongly connected components with a cycle"
    idx={}; low={}; st=[]; on=set(); out=[]; c=[0]
    def go(v):
        idx[v]=low[v]=c[0]; c[0]+=1; st.append(v); on.add(v)
        for w in sorted(edges.get(v,())):
            if w not in edges: continue
            if w not in idx: go(w); low[v]=min(low[v],low[w])
            elif w in on: low[v]=min(low[v],idx[w])
        if low[v]==idx[v]:
            comp=[]
            while True:
                w=st.pop(); on.discard(w); comp.append(w)
                if w==v: break
            if len(comp)>1 or v in edges.get(v,()): out.append(sorted(comp))
    for v in sorted(edges):
        if v not in idx: go(v)
    return out
def refs(G,t): return {x[1] for x in G.subterms(t) if x[0]=='rule'}
def c10(F,r):
    r.rule=('every grammar rule, evaluated down to its combinators: no rule can run again where it started (left recursion), no repetition has a body that may succeed without consuming, '
            'no repetition retries a failed first item forever; every function and closure of the parsers is interpreted with unknown arguments and no panic site can fire')
    G=Grammar(F)
    r.floor('grammar rules',len(G.keys),26)
    for n,e in sorted(G.bad.items()): r.ob('%s: understood'%sn(n),False,e,F.bodies[G.keys[n]]['span'])
    null=G.nullable(); reps=0
    left={n:G.left(t,null) for n,t in G.t.items()}
    bad=cyc(left)
    for n in G.t: r.ob('%s: does not start with itself'%sn(n),not any(n in c for c in bad),'left recursion through %s'%', '.join(sn(x) for c in bad if n in c for x in c) if any(n in c for c in bad) else 'may start with %s'%', '.join(sorted(map(sn,left[n]))),F.bodies[G.keys[n]]['span'])
    for n,t in G.t.items():
        i=0
        for x in G.subterms(t):
            k=x[0]; ok=None; why=''
            if k in('sep_star','sep_plus','sep_until','sep_until_ig'):
                ok=not(G.N(x[1],null) and G.N(x[2],null)); why='item and separator may both match nothing'
            elif k=='chars_until': ok=not G.N(x[1],null); why='the item may match nothing'
            elif k=='strings_plus_until': ok=False; why='the repetition tries a failed first item again forever'
            elif k in('star','plus','star_until','star_until_ig','plus_until','plus_until_ig','set','exact'): ok=True; why=''
            if ok is None: continue
            i+=1; reps+=1
            r.ob('%s: repetition %d (%s) progresses'%(sn(n),i,k),ok,'' if ok else why,F.bodies[G.keys[n]]['span'])
    r.floor('repetitions',reps,40)
    rec=cyc({n:refs(G,t) for n,t in G.t.items()})
    for c in rec:
        ts={y for n in c for y in re.findall(r'templito::[\w:]+',F.types[F.bodies[G.keys[n]]['locals'][0]]['s'])}
        r.ob('nesting of %s in text is limited'%', '.join(sorted(map(sn,ts))),False,'rules %s: each level of nesting is a level of recursion, without a limit'%', '.join(map(sn,c)))
    r.count('recursive groups of rules',len(rec))
    ix=panics.index(F); roots=[]
    built={norm_path(F.bodies[k]['path']):k for p,k in ix.items() if re.search(r'^templito::template::(?!.*::from_str)',p) and panics.PARSEFN.search(p)}
    def modular(A,st,args,b):
        "the functions that build the tree are analysed one at a time: a call of another one may do anything"
        me=norm_path(b['path'])
        def opq(ai,st,c,args): return ai.opaque(st,c,args,'fn')
        for p,k in built.items():
            if p!=me: A.anchors[F.bodies[k]['path']]=opq; A.anchors[k]=opq
        A.onrec=lambda st,body,args,c: opq(A,st,c,args)
        panics.assume_scope(A,st,args,b)
    for p,k in ix.items():
        if panics.PARSEFN.search(p) or k in G.keys.values(): roots.append((p,k,None,modular))
    for k,b in F.bodies.items():
        if b['closure'] and '@' not in k and b['local'] and (panics.PARSEFN.search(norm_path(b['path'])) or 'gobble::ptrait::Parser>::' in k): roots.append((norm_path(b['path']),k,None,None))
    r.floor('parser functions and closures',len(roots),60)
    panics.close(F,r,roots,stop=lambda k:not panics.PARSEFN.search(k))
    r.assumptions=panics.ASSUME+['gobble 0.6.3: its combinators run their parts as its source says (summarised in sa/grammar.py), its number and name rules terminate and do not panic']
# ---------------------------------------------------------------- what tags and text mean
WSCH=' \t\r\n'
STAR=('star','sep_star','star_until','sep_until','star_until_ig','sep_until_ig','chars_until')
ESC={92:'\\\\',10:'\\n',9:'\\t',13:'\\r',8:'\\b',12:'\\f'}
class Reader:
    """alternatives of the rules in a written form: what is consumed => which value, parts numbered as they are written"""
    def __init__(self,G,anchors):
        self.G=G; self.A=G.A; self.short={sn(n):n for n in G.t}
        self.alpha=frozenset(map(chr,range(9,14)))|frozenset(map(chr,range(32,127)))|frozenset('\u00e9\u4e16')
        self.anchors=anchors
        # rules outside the table that do not recur are read through
        rec={x for c in cyc({n:refs(G,t) for n,t in G.t.items()}) for x in c}
        self.inl=tuple(n for n in G.t if sn(n) not in anchors and n not in rec)
    def isws(self,a): return a[0]=='set' and all(c in WSCH for c in self.G.setof(a[1],self.alpha))
    def chars(self,x):
        m=self.G.setof(x,self.alpha); out=self.alpha-m
        if m==self.alpha: return 'any'
        if len(out)<len(m) or '\u00e9' in m: return 'not '+''.join(sorted(out)).translate(ESC)
        return ''.join(sorted(m)).translate(ESC)
    def first(self,a):
        "the characters or the literal an atom may begin with; None: may be anything"
        k=a[0]
        if k=='lit': return a[1]
        if k=='set': return frozenset(self.G.setof(a[1],self.alpha))
        if k=='prim':
            d=frozenset('0123456789'); l=frozenset(c for c in self.alpha if c.isascii() and c.isalpha())
            return {'UInt':d|{'_'},'Int':d|{'-','_'},'Float':d|{'-','_'},'Bool':frozenset('tf'),'Ident':l|{'_'}}.get(a[1])
        if k=='rule' and a[1] in self.G.t:
            if a[1] in self.busy: return frozenset()
            self.busy.add(a[1])
            try:
                r=set()
                for at,_,_ in self.G.alts(self.G.t[a[1]]):
                    f=self.head(at)
                    if f is None: return None
                    r|=set(f[:1]) if isinstance(f,str) else f
                return frozenset(r)
            finally: self.busy.discard(a[1])
        if k=='rep':
            r=set()
            for y in a[1][1:2]:
                for at,_,_ in self.G.alts(y):
                    f=self.head(at)
                    if f is None: return None
                    r|=set(f[:1]) if isinstance(f,str) else f
            return frozenset(r)
        return None
    def head(self,atoms):
        "what an alternative begins with, blanks aside"
        acc=None
        for a in atoms:
            if a[0] in('not','wordend','fails'): continue
            if a[0]=='peek' : continue
            if self.isws(a) and a[2]==0: continue
            f=self.first(a)
            if a[0]=='rep' and a[1][0] in STAR or a[0]=='set' and a[2]==0:
                if f is None: return None
                acc=(acc or frozenset())|(frozenset(f[:1]) if isinstance(f,str) else f); continue
            if acc is None: return f
            return None if f is None else acc|(frozenset(f[:1]) if isinstance(f,str) else f)
        return acc
    def overlap(self,x,y):
        self.busy=set(); a,b=self.head(x),self.head(y)
        if a is None or b is None: return True
        if isinstance(a,str) and isinstance(b,str): return a.startswith(b) or b.startswith(a)
        if isinstance(a,str): a=frozenset(a[:1])
        if isinstance(b,str): b=frozenset(b[:1])
        return bool(a&b)
    def edge(self,short,i):
        "does every text of the rule allow any blanks at its start (0) or end (-1)"
        n=self.short.get(short)
        if n is None: return False
        c=self.__dict__.setdefault('_edge',{})
        if (n,i) not in c:
            c[(n,i)]=False
            al=[a for a,_,_ in self.G.alts(self.G.t[n],inline=self.inl)]
            def full(a): return self.isws(a) and a[2]==0 and a[3] is None and all(x in self.G.setof(a[1],self.alpha) for x in WSCH)
            c[(n,i)]=bool(al) and all(a and full(a[i]) for a in al)
        return c[(n,i)]
    def unit(self,n):
        b=self.G.F.bodies[self.G.keys[n]]
        return all(v in(UNIT,None) for _,_,v in self.G.alts(self.G.t[n]))
    def sig(self,atoms,num):
        out=[]
        def lit(x):
            if out and out[-1][0]=='lit': out[-1]=('lit',out[-1][1]+x)
            else: out.append(('lit',x))
        for a in atoms:
            k=a[0]
            if k=='lit': lit(a[1])
            elif k=='wordend':
                if out and out[-1][0]=='lit': out[-1]=('word',out[-1][1])
                else: out.append(('x','wordend'))
            elif k=='not':
                if a[1][0]=='lit' and out: out.append(('not',a[1][1]))
            elif k=='end': out.append(('x','end'))
            elif k=='peek': out.append(('x','&('+' | '.join(sorted({self.sig(x,{}) for x,_,_ in self.G.alts(a[1],inline=self.inl)}))+')'))
            elif k in('rule','prim'):
                out.append(('x','<%s>'%(sn(a[1]) if k=='rule' else sn(a[1]).lower())))
                if k=='prim' or not self.unit(a[1]): num[a[-1]]=len(num)+1
            elif k=='set':
                if self.isws(a):
                    full=all(c in self.G.setof(a[1],self.alpha) for c in WSCH)
                    if a[2]:
                        out.append(('x','blank' if full else 'blank[%s]'%self.chars(a[1])))
                        if '.i' not in a[4]: num[a[-1]]=len(num)+1
                    elif full and (not out or out[-1]!=('x','_')): out.append(('x','_'))
                    continue
                out.append(('x','[%s]%s'%(self.chars(a[1]),'' if a[2]==a[3]==1 else '*' if a[2]==0 else '+' if a[3] is None else '{%d}'%a[2]))); num[a[-1]]=len(num)+1
            elif k=='rep':
                t=a[1]; its=[]
                for x,s,v in self.G.alts(t[1],inline=self.inl):
                    nn={}; g=self.sig(x,nn); its.append((g,self.val(v,nn,s)))
                its=sorted(set(its)); sep=''
                if t[0].startswith('sep'):
                    ss=[self.sig(x,{}) for x,_,_ in self.G.alts(t[2])]
                    sep=' by '+'|'.join(x or 'nothing' for x in ss)
                out.append(('x','%s(%s%s)'%('many' if t[0] in STAR else 'some',' | '.join('%s=>%s'%x for x in its),sep))); num[a[-1]]=len(num)+1
            elif k=='fails': out.append(('x','fail'))
            else: out.append(('x','?'+k))
        # a blank beside a rule that takes blanks there itself says nothing new
        keep=[]
        for i,x in enumerate(out):
            if x==('x','_'):
                p=out[i-1][1][1:-1] if i and out[i-1][1].startswith('<') else None; n=out[i+1][1][1:-1] if i+1<len(out) and out[i+1][1].startswith('<') else None
                if self.edge(p,-1) or self.edge(n,0): continue
            keep.append(x)
        out=[(k,x.translate(ESC)) if k!='x' else (k,x) for k,x in keep]
        return ' '.join("'%s'"%x if k=='lit' else "'%s'|"%x if k=='word' else "!'%s'"%x if k=='not' else x for k,x in out)
    def val(self,v,num,s=None):
        if v is None: return '-'
        if v in num: return '#%d'%num[v]
        if v in(UNIT,): return '()'
        V=lambda x: self.val(x,num,s); k=v[0]
        if k=='adt':
            if v[1] in('core::option::Option','alloc::boxed::Box') and v[2]=='Some': return 'Some(%s)'%V(v[3][0])
            return v[2]+('(%s)'%','.join(map(V,v[3])) if v[3] else '')
        if k=='tup': return '(%s)'%','.join(map(V,v[1]))
        if k in('str','litv'): return "'%s'"%v[1].translate(ESC)
        if k=='char': return "'%s'"%chr(v[1]).translate(ESC)
        if k=='int': return str(v[1])
        if k=='chstr': return V(v[1])
        if k=='vec': return '[%s]'%','.join(map(V,v[1]))
        if k=='joined' and v[2]==('str',''): return 'concat(%s)'%V(v[1])
        if k=='snoc': return '%s+[%s]'%(V(v[1]),V(v[2]))
        if k=='cat': return '+'.join(V(x) for x in v[1:])
        if k=='fop': return '%s(%s)'%(v[1],','.join(map(V,v[2:])))
        if k=='cast':
            x=v[2]
            for n,rg in self.ranges().items():
                if ('rule',n) in [(a[0],a[1]) for a in self.cur if a[0]=='rule' and a[-1]==x] and rg[1]<2**31 and rg[0]>=0: return V(x)
            return 'cast(%s)'%V(x)
        if k=='fld' and v[2] in('Some','Ok'): return V(v[1])
        if k=='ap': return '%s(%s)'%(sn(v[1]),','.join(V(x) for x in v[2:]))
        if k=='phi': return 'made'
        return '?'+short(v)
    def ranges(self):
        if not hasattr(self,'_rng'):
            self._rng={}
            for n in self.G.t:
                r=[]
                for at,s,v in self.G.alts(self.G.t[n]):
                    if v is None: continue
                    if v[0]=='int': r.append((v[1],v[1])); continue
                    lo=hi=None
                    if s is not None:
                        for c in(0,1):
                            if self.A.prove_ge(s,v,('int',c)): lo=c
                        for c in(12,31,2**31-1):
                            if hi is None and self.A.prove_ge(s,('int',c),v): hi=c
                    r.append((lo,hi))
                if r and all(a is not None and b is not None for a,b in r): self._rng[n]=(min(a for a,_ in r),max(b for _,b in r))
        return self._rng
    def read(self,n):
        "[(atoms, what, value)] of rule n, in order"
        out=[]; seen=set()
        for atoms,s,v in self.G.alts(self.G.t[n],inline=self.inl):
            self.cur=atoms; num={}; g=self.sig(atoms,num)
            if ('fails',) in atoms: continue
            x=(g,self.val(v,num,s))
            if x not in seen: seen.add(x); out.append((atoms,)+x)
        return out
import os
REF=open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'language.txt')).read()
def reference():
    out={}; cur=None
    for l in REF.split('\n'):
        if not l.strip(): continue
        if not l.startswith(' '): cur=out.setdefault(l.strip(),[]); continue
        g,v=l.strip().rsplit(' => ',1); cur.append((g,v))
    return out
class Made:
    "the loops in grammar closures: a path that starts at parameter 0; a map of all pairs"
    heads=('cp',); 
    def __init__(self,A,kind): self.A=A; self.kind=kind
    def table(self): return {'start':self.l_start,'cp':self.l_cp,'end':self.l_end}
    def l_start(self,A,s,rest):
        from ai import adt
        return SIM.Go((('cp',(('int',0),('map0',) if self.kind=='Map' else ('vec',(adt('templito::expr::VarPart','Num',('int',0)),)))),))
    def l_cp(self,A,s,rest,i,acc):
        from natives import snoc
        out=[]; V=('arg',0)
        for s2,t in A.branch(s,ge(A.seq_len(s,V),iadd(i,('int',1)))):
            e=A.seq_get(s2,V,i)
            nx=('mins',acc,project(e,None,0),project(e,None,1)) if self.kind=='Map' else snoc(acc,e)
            out.append((s2,(('cp',(iadd(i,('int',1)),nx)),) if t else (('end',(acc,)),)))
        return SIM.Cases(out)
    def l_end(self,A,s,rest,acc):
        def f(s,v):
            if v[0]!='adt' or v[2]!=self.kind: return 'yields %s'%short(v)
            return None if self.sim.same(s,v[3][0],acc) else 'yields %s, expected %s'%(short(v[3][0]),short(acc))
        return SIM.Ret(f)
def made(G,n,kind):
    "messages: the closures of rule n that build a value of this kind refine the reference"
    A=G.A; msgs=[]; cnt=0
    for x in G.subterms(G.t[n]):
        if x[0]!='map' or x[2][0]!='clo': continue
        A.loops={}
        outs=A.run_body(x[2][1],[x[2],('arg',0)],St())
        if not any(v[0]=='adt' and v[2]==kind and any(e[0]=='loop' for e in s.ev) for s,v in outs): continue
        cnt+=1; P=Made(A,kind); sim=SIM.Sim(A,P.table(),P.heads); P.sim=sim
        sim.run(outs,(('start',()),)); msgs+=[m for m,p,s in sim.msgs]
    if not cnt: msgs.append('no loop builds it')
    return msgs
def c37(F,r):
    r.rule=('every alternative of every rule of the template language, evaluated from the compiled parser: what it consumes and the value it yields, as a function of its parts, are those of the '
            'reference table; two alternatives that can begin alike are tried in the order of the table')
    G=Grammar(F); ref=reference(); R=Reader(G,set(ref)|{'IOpen','IClose','StringItem','TFile'}); R.busy=set(); n=0; pairs=0
    for n_,e in sorted(G.bad.items()): r.ob('%s: understood'%sn(n_),False,e,F.bodies[G.keys[n_]]['span'])
    for name,want in ref.items():
        rule=R.short.get(name)
        if rule is None: r.ob('%s: found'%name,False,'no such rule in the grammar'); continue
        where=F.bodies[G.keys[rule]]['span']
        try: got=R.read(rule)
        except Exception as e: r.ob('%s: understood'%name,False,'%s %s'%(type(e).__name__,e),where); continue
        if name=='Item': got=[x for x in got if x[1].startswith('<IOpen>')]
        used=set(); pos={}
        for g,v in want:
            n+=1
            i=next((i for i,(_,a,b) in enumerate(got) if a==g and (b==v or 'made' in v)),None)
            alike=[b for _,a,b in got if a==g]
            if i is not None: used|={j for j,(_,a,b) in enumerate(got) if a==g and('made' in v or b==v)}; pos[g]=i
            near=sorted({a for _,a,b in got if (g,v)!=(a,b) and b.split('(')[0]==v.split('(')[0]})
            why='yields %s'%v if i is not None else 'yields %s, expected %s'%(' or '.join(alike),v) if alike else 'no such form; %s'%('found %s'%', '.join(near)[:160] if near else 'nothing yields %s'%v.split('(')[0])
            if i is not None and 'made' in v:
                kind=v.split('(')[0]; msgs=made(G,rule,kind)
                r.ob('%s: %s yields %s'%(name,g,v),not msgs,'every path and loop of the closure' if not msgs else msgs[0],where)
            else: r.ob('%s: %s yields %s'%(name,g,v),i is not None,why,where)
        extra=[(a,b) for j,(_,a,b) in enumerate(got) if j not in used]
        r.ob('%s: has no other form'%name,not [x for x in extra if x[0] not in {g for g,_ in want}],'%d forms'%len(want) if not extra else 'also reads %s as %s'%extra[0],where)
        gs=[g for g,_ in want if g in pos]
        for i,a in enumerate(gs):
            for b in gs[i+1:]:
                strip=lambda at: [x for x in at if not(x[0]=='rule' and sn(x[1])=='IOpen')]
                R.busy=set()
                if R.overlap(strip(got[pos[a]][0]),strip(got[pos[b]][0])):
                    pairs+=1
                    if pos[a]>pos[b]: r.ob('%s: %s is tried before %s'%(name,a,b),False,'the order of the alternatives is reversed',where)
    r.floor('forms of the language',n,75); r.count('pairs of alternatives in order',pairs)
    r.assumptions=['gobble 0.6.3: its combinators run their parts as its source says; its number, boolean and name rules read what they are documented to read (its Float loses the sign of -0.x, which the grammar makes up for: see the fixed list)']
# ---------------------------------------------------------------- C11
def branches(t,through=None):
    "the alternatives at the top of a rule; through: rules to read through {name: term}"
    k=t[0]; B=lambda x: branches(x,through)
    if k=='or': return [x for y in t[1:] for x in B(y)]
    if k in('map','try_map','asv','map_exp'): return [(k,b,t[2]) for b in B(t[1])]
    if k in('brk','ig','string'): return [(k,b) for b in B(t[1])]
    if k=='rule' and through and t[1] in through: return B(through[t[1]])
    return [t]
def parts_of_items(G,items):
    "rules that stand for an item or the inside of one: same result type, not recursive"
    ty=lambda n: F_ty(G,n)
    rec={x for c in cyc({n:refs(G,t) for n,t in G.t.items()}) for x in c}
    return {n:t for n,t in G.t.items() if n not in items and n not in rec and ty(n) in {ty(i) for i in items}}
def F_ty(G,n):
    b=G.F.bodies[G.keys[n]]; m=re.findall(r'templito::[\w:]+',G.F.types[b['locals'][0]]['s']); return m[-1] if m else None
def top_items(G,tops):
    "the rules a template is a sequence of"
    out=set()
    for t in tops:
        for atoms,s,v in G.alts(G.t[t]):
            for a in atoms:
                if a[0]=='rep' and a[1][1][0]=='rule': out.add(a[1][1][1])
    return out
def readers(F,r):
    "the rules handed the whole text; judged by the caller"
    tops=set()
    for k in opener(F):
        A=engine(F)
        def parsed(ai,st,c,args):
            v=cont(ai,st,args[0])
            if v[0]=='adt': tops.add(v[1])
            rr=ai.fresh('ret','parse'); ai.typed(rr,c.dty); return [(st,rr)]
        for p in gobble_paths(F):
            if p.endswith('::parse_s'): A.anchors[p]=parsed
        A.anchors['templito::template::FlatTemplate::to_tree']=lambda ai,st,c,args: (lambda rr:(ai.typed(rr,c.dty),[(st,rr)])[1])(ai.fresh('ret','tree'))
        A.run_body(k,[('arg',0)],St())
    return tops
def ends(G,R,atoms,i):
    "the literals a list of atoms begins (0) or ends (-1) with, blanks aside; rules are read through; None: something else"
    at=[a for a in atoms if a[0] not in('not','wordend','peek','fails') and not(R.isws(a) and a[2]==0)]
    if not at: return None
    a=at[i]
    if a[0]=='lit': return [a[1]]
    if a[0]=='rule' and a[1] in G.t and a[1] not in R.busy:
        R.busy.add(a[1]); out=[]
        try:
            for x,_,_ in G.alts(G.t[a[1]]):
                e=ends(G,R,x,i)
                if e is None: return None
                out+=e
        finally: R.busy.discard(a[1])
        return out
    return None
def reach(G,n,seen):
    if n in seen or n not in G.t: return seen
    seen.add(n)
    for m in refs(G,G.t[n]): reach(G,m,seen)
    return seen
def opener(F):
    "the rule of the whole template text: the one the from_str functions of the template types hand the text to"
    out=set()
    for k,b in F.bodies.items():
        if b['local'] and re.search(r'^<templito::template::\w+ as core::str::traits::FromStr>::from_str$',b['path']) and 'promoted' not in k: out.add(k)
    return sorted(out)
def c11(F,r):
    r.rule=('in the grammar evaluated from the compiled parser: the template is items up to the end of the text, nothing else; an item that begins with {{ ends with }}; an item that does not, '
            'explored as an automaton, never contains {{ unless escaped; whatever begins with a quote or # ends with it; nothing but blanks, punctuation and comments is read without reaching the result')
    G=Grammar(F); R=Reader(G,{sn(n) for n in G.t}); R.busy=set(); R.inl=()
    for n_,e in sorted(G.bad.items()): r.ob('%s: understood'%sn(n_),False,e,F.bodies[G.keys[n_]]['span'])
    ks=opener(F); r.floor('functions that read a template text',len(ks),2)
    tops=set()
    for k in ks:
        A=engine(F); b=F.bodies[k]; bad=[]
        def parsed(ai,st,c,args):
            rr=ai.fresh('ret','parse'); st=st.copy(); st.ev=st.ev+(('parse',(cont(ai,st,args[0]),cont(ai,st,args[1])),rr,c.span),); ai.typed(rr,c.dty); return [(st,rr)]
        for p in gobble_paths(F):
            if p.endswith('::parse_s'): A.anchors[p]=parsed
        for p in ('templito::template::FlatTemplate::to_tree',):
            A.anchors[p]=lambda ai,st,c,args: (lambda rr:(ai.typed(rr,c.dty),[(st,rr)])[1])(ai.fresh('ret','tree'))
        outs=A.run_body(k,[('arg',0)],St()); n=0
        for s,v in outs:
            ev=[e for e in s.ev if e[0]=='parse']
            if len(ev)!=1: bad.append('reads the text %d times'%len(ev)); continue
            if ev[0][1][0][0]=='adt': tops.add(ev[0][1][0][1])
            if ev[0][1][1]!=('arg',0): bad.append('reads something else than the text it is given')
            isok='Ok' in (A.variants_of(s,ev[0][2]) or ('Ok','Err')); iserr='Err' in (A.variants_of(s,ev[0][2]) or('Ok','Err'))
            vs={v[2]} if v[0]=='adt' else set(A.variants_of(s,v) or ('Ok','Err'))
            if iserr and vs!={'Err'} and v!=ev[0][2]: bad.append('yields %s when the text cannot be read'%short(v))
            n+=1
        r.ob('%s: text that cannot be read is an error'%b['path'],not bad and n>0,'%d paths'%n if not bad else bad[0],b['span'])
    r.ob('one rule reads templates',len(tops)==1 and all(t in G.t for t in tops),', '.join(sorted(tops)) or 'none found')
    tops=[t for t in tops if t in G.t]
    items=set()
    for t in tops:
        where=F.bodies[G.keys[t]]['span']
        for atoms,s,v in G.alts(G.t[t]):
            at=[a for a in atoms if not R.isws(a)]
            ok=len(at)==2 and at[0][0]=='rep' and at[1]==('end',) and at[0][1][1][0]=='rule' and len(at[0][1])==2 or (len(at)==2 and at[0][0]=='rep' and at[1]==('end',) and at[0][1][1][0]=='rule')
            ok=ok and v is not None and any(x==at[0][-1] for x in subterms(v))
            r.ob('%s: the template is its items, up to the end of the text'%sn(t),ok,'' if ok else 'also reads %s'%R.sig(atoms,{}),where)
            if at and at[0][0]=='rep' and at[0][1][1][0]=='rule': items.add(at[0][1][1][1])
    tags=texts=0; thr=parts_of_items(G,items)
    for it in items:
        where=F.bodies[G.keys[it]]['span']
        for b in branches(G.t[it],thr):
            al=[(a,s,v) for a,s,v in G.alts(b,inline=tuple(thr)) if ('fails',) not in a]
            R.busy=set(); heads=[ends(G,R,a,0) for a,_,_ in al]
            if all(h and all(x.startswith('{{') for x in h) for h in heads):
                for (a,s,v) in al:
                    tags+=1; R.busy=set(); e=ends(G,R,a,-1); g=R.sig(a,{})
                    ok=bool(e) and all(x.endswith('}}') for x in e)
                    r.ob('tag %s: ends with its closing delimiter'%g,ok,'' if ok else 'may end without }}',where)
                    ok=v is not None and v[0]=='adt' and v[2]!='String'
                    r.ob('tag %s: is not text'%g,ok,'' if ok else 'yields %s'%short(v),where)
            else:
                texts+=1
                bad=plain(G,R,b)
                r.ob('text %s: contains no unescaped {{'%' / '.join(sorted({R.sig(a,{}) for a,_,_ in al})),not bad,'automaton explored' if not bad else bad,where)
    r.floor('tag alternatives',tags,17); r.floor('text alternatives',texts,1)
    # inside tags
    rules=set()
    for it in items: reach(G,it,rules)
    inside=rules-items; quoted=drops=0
    textrules=set()
    for it in items:
        for b in branches(G.t[it],thr):
            R.busy=set()
            if not all((h and all(x.startswith('{{') for x in h)) for h in [ends(G,R,a,0) for a,_,_ in G.alts(b,inline=tuple(thr))]):
                for m in refs(G,b): reach(G,m,textrules)
    only=textrules-set().union(*[reach(G,m,set()) for n in inside-textrules for m in refs(G,G.t[n])]+[set()])
    for n in sorted(inside|items):
        if n in only: continue
        where=F.bodies[G.keys[n]]['span']; unit=R.unit(n)
        for atoms,s,v in G.alts(G.t[n]):
            if ('fails',) in atoms: continue
            g=R.sig(atoms,{}); at=[a for a in atoms if a[0] not in('not','wordend','peek') and not R.isws(a)]
            if not at: continue
            d=at[0][1] if at[0][0]=='lit' else ''
            q=next((c for c in '"\'#' if c in d),None)
            if q:
                quoted+=1; z=at[-1]
                ok=len(at)>1 and z[0]=='lit' and q in z[1]
                r.ob('%s: %s is closed'%(sn(n),g),ok,'' if ok else 'what begins with %s may end without it'%q,where)
            isc=bool(q) and unit
            for i,a in enumerate(at):
                if a[0]=='set' and '"' in G.setof(a[1],R.alpha) and not q and not(i and at[i-1][0]=='lit' and at[i-1][1].endswith('\\')):
                    r.ob('%s: %s leaves quotes alone'%(sn(n),g),False,'%s may swallow a quote'%R.sig((a,),{}),where)
                if a[0] in('lit','end','rule') and (a[0]!='rule' or a[1] in G.t and R.unit(a[1])): continue
                if a[0]=='prim' or a[0] in('set','rep','rule'):
                    drops+=1
                    if v is not None and any(x==a[-1] for x in subterms(v)): continue
                    if isc: continue
                    if a[0]=='set' and all(not c.isalnum() and c not in '"\'{}\\' for c in G.setof(a[1],R.alpha)): continue
                    if v is not None and any(x[0]=='phi' for x in subterms(v)): continue       # a loop over it: C37
                    r.ob('%s: %s: everything read is used'%(sn(n),g),False,'%s is read and ignored'%R.sig((a,),{}),where)
    r.ob('everything read inside a tag is used',drops>0,'%d parts of %d rules'%(drops,len(inside|items)))
    r.floor('quoted forms',quoted,4); r.floor('parts read inside tags',drops,50)
    r.assumptions=['gobble 0.6.3: its combinators run their parts as its source says; a repetition until an end fails when the text is over first']
def plain(G,R,t):
    "explores the text t may consume: None, or how it may contain {{ that is not escaped"
    al=frozenset('{}a \n\\"-') | frozenset(G.alphabet([t])&frozenset('{}\\'))
    N=Nfa(G,al)
    try:
        a=N.new(); z=N.build(t,a)
    except Unknown as e: return 'the text it consumes is not understood (%s)'%e
    class Hit(Exception): pass
    def mon(m,c):
        if m=='esc': return 'escws' if c in WSCH else 'n'
        if m=='escws':
            if c in WSCH: return 'escws'
            if c=='\\': return 'n'
            m='n'
        if c=='\\': return 'esc'
        if c=='{':
            if m=='b': raise Hit()
            return 'b'
        return 'n'
    try: out=words(N,a,z,mon,'n')
    except Hit: return 'an unescaped {{ can be read as text'
    for m,cond in out:
        if m=='b' and not any(len(c)==1 and '{' in c[0] for c in cond): return 'text may end with { before another {'
        if m=='esc': return 'text may end with a lone backslash'
    return None
# ---------------------------------------------------------------- C36
def c36(F,r):
    r.rule=('in the grammar evaluated from the compiled parser: each piece of text yields exactly the characters it consumed, but for an escape (the character after the backslash) and an escaped line break (nothing); '
            'every character can be read; pieces are joined in order; blanks are consumed with a tag only on the side where it has a dash')
    G=Grammar(F); R=Reader(G,{sn(n) for n in G.t}); R.busy=set(); R.inl=()
    for n_,e in sorted(G.bad.items()): r.ob('%s: understood'%sn(n_),False,e,F.bodies[G.keys[n_]]['span'])
    items=top_items(G,[t for t in readers(F,r) if t in G.t]); thr=parts_of_items(G,items)
    r.floor('item rules',len(items),1)
    pieces=set(); tx=0; opens=set(); closes=set()
    for it in items:
        where=F.bodies[G.keys[it]]['span']; seenText=False
        for b in branches(G.t[it],thr):
            al=[(a,s,v) for a,s,v in G.alts(b,inline=tuple(thr)) if ('fails',) not in a]
            for a,s,v in al:
                R.busy=set(); h=ends(G,R,a,0)
                if h and all(x.startswith('{{') for x in h):
                    r.ob('tags are tried before text',not seenText,'' if not seenText else 'text is tried before %s'%R.sig(a,{}),where) if seenText else None
                    at=[x for x in a if x[0] not in('not','wordend','peek')]
                    if at[0][0]=='rule': opens.add(at[0][1])
                    else: r.ob('tag %s begins with its delimiter'%R.sig(a,{}),at[0][0]=='lit','blanks before the tag are dropped',where)
                    if at[-1][0]=='rule': closes.add(at[-1][1])
                    else: r.ob('tag %s ends with its delimiter'%R.sig(a,{}),at[-1][0]=='lit','blanks after the tag are dropped',where)
                    continue
                seenText=True
                at=[x for x in a if x[0] not in('not','wordend','peek')]
                ok=len(at)==1 and at[0][0]=='rep' and v is not None and v[0]=='adt' and v[2]=='String' and v[3][0] in(('joined',at[0][-1],('str','')),)
                tx+=1
                r.ob('text is its pieces, joined in order',ok,'' if ok else 'yields %s'%short(v),where)
                if ok: pieces.add((it,at[0][1][1]))
    r.floor('text alternatives',tx,1); r.floor('kinds of opening delimiter',len(opens),1); r.floor('kinds of closing delimiter',len(closes),1)
    for side,rs in((0,opens),(-1,closes)):
        dash,nodash=('{{-','{{') if side==0 else('-}}','}}'); seen=[]
        for n in rs:
            where=F.bodies[G.keys[n]]['span']
            for atoms,s,v in G.alts(G.t[n]):
                lit=[a[1] for a in atoms if a[0]=='lit']; ws=R.isws(atoms[side]); g=R.sig(atoms,{})
                ok=lit in([dash],[nodash]) and all(a[0]=='lit' or R.isws(a) for a in atoms)
                r.ob('%s: %s is a delimiter'%(sn(n),g),ok,'' if ok else 'reads %s'%lit,where)
                if not ok: continue
                if lit==[nodash]:
                    r.ob('%s: %s leaves the blanks outside alone'%(sn(n),g),not ws,'' if not ws else 'blanks outside a tag without a dash are dropped',where)
                    seen.append(nodash)
                else:
                    full=ws and atoms[side][2]==0 and atoms[side][3] is None and all(c in G.setof(atoms[side][1],R.alpha) for c in WSCH)
                    r.ob('%s: %s takes all blanks on its side'%(sn(n),g),bool(full),'' if full else 'not every blank beside the dash is dropped',where)
                    if side==0: r.ob('%s: %s is tried before %s'%(sn(n),dash,nodash),nodash not in seen,'' if nodash not in seen else 'the dash is read as part of the tag',where)
                    seen.append(dash)
        r.ob('%s and %s delimit tags'%(dash,nodash),set(seen)=={dash,nodash},'' if set(seen)=={dash,nodash} else 'found %s'%sorted(set(seen)))
    n=0
    for it,p in pieces:
        where=F.bodies[G.keys[p[1] if p[0]=='rule' else it]]['span']
        t=G.t[p[1]] if p[0]=='rule' else p
        plainset=set(); escset=set(); wsesc=None; order=[]
        inl=tuple(m for m in reach(G,p[1],set()) if m!=p[1]) if p[0]=='rule' else ()
        for atoms,s,v in G.alts(t,inline=inl):
            n+=1; at=[a for a in atoms if a[0] not in('not','wordend','peek')]; g=R.sig(atoms,{})
            if v is not None: v=G.plain(v)
            nots=[a[1] for a in atoms if a[0]=='not']
            consumed=text(at); 
            if at and at[0][0]=='lit' and at[0][1].startswith('\\'):
                rest=([('lit',at[0][1][1:])] if at[0][1][1:] else [])+at[1:]
                if v==('str',''):
                    ok=bool(rest) and R.isws(rest[0]) and rest[0][2]>=1 and all(a==('lit','\\') for a in rest[1:]) and len(rest)<3
                    r.ob('piece %s: is an escaped line break'%g,ok,'' if ok else 'drops text that is not blank',where)
                    order.append('ws')
                else:
                    one=len(rest)==1 and (rest[0][0]=='set' and rest[0][2]==rest[0][3]==1 or rest[0][0]=='lit' and len(rest[0][1])==1)
                    ok=one and same(v,text(rest))
                    r.ob('piece %s: is the character after the backslash'%g,ok,'' if ok else 'yields %s'%short(v),where)
                    if one: escset|=set(G.setof(rest[0][1],R.alpha)) if rest[0][0]=='set' else {rest[0][1]}
                    if one and rest[0][0]=='set' and any(c in WSCH for c in G.setof(rest[0][1],R.alpha)): order.append('any')
                continue
            ok=v is not None and same(v,consumed)
            r.ob('piece %s: yields the text it consumed'%g,ok,'' if ok else 'yields %s'%short(v),where)
            if not at: continue
            if at[0][0]=='lit' and len(at)==1 and len(at[0][1])==1: plainset.add(at[0][1])
            elif at[0][0]=='set' and len(at)==1 and at[0][2]<=1:
                m=G.setof(at[0][1],R.alpha); plainset|=m
                ok=all(c in WSCH for c in m) or not any(c in WSCH for c in m)
                r.ob('piece %s: blanks and other text are separate pieces'%g,ok or at[0][3]==1,'' if ok else 'a run of text may swallow the blanks before {{-',where)
                if '\\' in m: r.ob('piece %s: leaves the backslash to escapes'%g,False,'an escape may be read as text',where)
        miss=R.alpha-plainset-{'\\'}
        r.ob('every character can be text',not miss,'%d characters, one of each class'%len(R.alpha) if not miss else 'no piece reads %s'%sorted(miss)[:8],where)
        miss=R.alpha-escset-set(WSCH if 'ws' in order else '')
        r.ob('every character can be escaped',not miss,'' if not miss else 'no escape for %s'%sorted(miss)[:8],where)
        r.ob('an escaped line break is tried before an escaped character',not('any' in order and 'ws' in order and order.index('any')<order.index('ws')) and 'ws' in order,'',where)
    r.floor('pieces of text',n,6)
    r.assumptions=['gobble 0.6.3: its combinators run their parts as its source says']
def text(at):
    out=[]
    for a in at:
        if a[0]=='lit': out.append(('str',a[1]))
        elif a[0]=='set': out.append(('chstr',a[-1]) if a[4]=='c.one' else a[-1])
        else: return None
    return out
def same(v,parts):
    if parts is None or v is None: return False
    flat=[]
    def go(x):
        if x[0]=='cat':
            for y in x[1:]:
                if isinstance(y,tuple) and y and isinstance(y[0],tuple): [go(z) for z in y]
                else: go(y)
        elif x[0]=='str' and flat and flat[-1][0]=='str': flat[-1]=('str',flat[-1][1]+x[1])
        elif x[0]=='chstr' and x[1][0]=='char': go(('str',chr(x[1][1])))
        else: flat.append(x)
    go(v); a=list(flat); flat.clear()
    for p in parts: go(p)
    return a==flat
