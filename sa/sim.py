"""Refinement: every execution path of an analysed function (events, loops, result) is matched against a small
reference program.  The reference program is a set of labelled steps over symbolic terms; loops of the analysed function
are matched by an inductively verified correspondence between its loop variables and those of the reference (nothing is
unrolled).

A reference state is a stack of frames (label, (term,...)).  spec[label](A,s,rest,*terms) returns one of
  Go(frames)              silent step
  Cases([(state,frames)]) case distinction (the states partition s)
  Expect([Ev(name,args,then)...])   the next event has to be one of these; then(s,ret)->frames
  Any(f)                  f(s,event)->frames or None (event not allowed)
  Ret(f)                  the function has to return here; f(s,v)->None or a message"""
from ai import *
class Go:
    def __init__(s,fr): s.fr=fr
class Cases:
    def __init__(s,alts): s.alts=alts
class Ev:
    def __init__(s,name,args,then): s.name=name; s.args=args; s.then=then
class Expect:
    def __init__(s,*evs,ret=None): s.evs=evs; s.ret=ret
class Any:
    def __init__(s,f,ret=None): s.f=f; s.ret=ret
class Ret:
    def __init__(s,f): s.f=f
class Either:
    "the function may return here when f(s,v) accepts (None), otherwise the reference goes on with fr"
    def __init__(s,f,fr): s.f=f; s.fr=fr
class Bad(Exception): pass
DBG=__import__('os').environ.get('SIMD')
def home(A,p):
    """(loop, node) a loop symbol belongs to"""
    for L in A.loops.values():
        for k,nd in L.nodes.items():
            if p in nd.phis: return L,k
    return None,None
def inv_eq(A,L,k,t,s=None):
    """t==0 whenever node k of the loop is reached (by induction over its edges, strengthening backwards)"""
    hyp={k:[tolin(t)]}; todo=[(k,t)]; n=0
    def known(st,node,t):
        if A.prove_eq(st,t,('int',0)): return True
        if node is None: return False
        st=st.copy()
        for h in hyp.get(node,()): A.add_lin(st,h,ladd(lconst(0),h,-1))
        return A.prove_eq(st,t,('int',0))
    if s is not None and A.prove_eq(s,t,('int',0)): return True
    while todo:
        node,t=todo.pop(); n+=1
        if n>30: return False
        if node==L.entry and not known(L.base,None,relen(A,L.base,subst(t,L.entry_sub))): return False
        for a,b,sg,es in L.edges:
            if b!=node: continue
            t2=relen(A,es,subst(t,sg))
            if known(es,a,t2): continue
            if not any(x in L.nodes[a].phis for x in subterms(t2)): return False
            hyp.setdefault(a,[]).append(tolin(t2)); todo.append((a,t2))
    return True
def relen(A,s,t):
    """evaluate the lengths in a linear term"""
    l=lconst(0); c,ts=tolin(t); l=lconst(c)
    for a,k in ts: l=ladd(l,tolin(A.seq_len(s,a[1]) if a[0]=='len' else a),k)
    return fromlin(l)
def exits(A,s,p,d):
    """d==0 where the loop of p has been left (state s)"""
    if p[0]!='phi': return False
    L,k=home(A,p)
    if L is None: return False
    # a relation between the list and the cursor, found from the cursor facts of the exit state
    for q in L.nodes[k].ints:
        for c in range(-2,3):
            t=iadd(isub(('len',p),q),('int',c))
            if inv_eq(A,L,k,t):
                s2=s.copy(); A.add_lin(s2,tolin(t),ladd(lconst(0),tolin(t),-1))
                if A.prove_eq(s2,d,('int',0)): return True
    return False
def isint(t): return t[0] in('int','lin') or t[0]=='len'
def short(t,n=160):
    import dbgpp
    x=dbgpp.pp(t); return x if len(x)<n else x[:n]+'…'
def subterms(t):
    st=[t]
    while st:
        x=st.pop()
        if isinstance(x,tuple):
            yield x; st.extend(x)
class Sim:
    """threads: event name -> tuple of thread names (or None) per argument; an argument with thread name N has to be the
    current value of thread N, and the event's effect on it becomes the new value"""
    def __init__(self,A,spec,heads=(),threads=None,ignore=(),thread_spec=True):
        self.A=A; self.spec=spec; self.heads=set(heads); self.threads=threads or {}; self.ignore=set(ignore); self.memo={}; self.msgs=[]; self.nev=0; self.nloops=0; self.npaths=0; self.cur={}
    # ---- comparing terms
    def same(self,s,a,b):
        if a==b: return True
        if b is None: return True
        if callable(b): return b(s,a)
        A=self.A
        if isint(a) or isint(b):
            try: return A.prove_eq(s,a,b)
            except Exception: return False
        if a[0] in('phi','fld','elem','arg') and b[0] in('phi','fld','elem','arg') and a in A.tyr and b in A.tyr and A.prove_eq(s,a,b): return True
        # an ADT known by its variant
        for x,y in((a,b),(b,a)):
            if x[0]=='adt' and y[0]!='adt':
                vs=A.variants_of(s,y)
                if vs is not None and len(vs)==1 and next(iter(vs))==x[2]:
                    return all(self.same(s,f,project(y,x[2],i)) for i,f in enumerate(x[3]))
        if a[0]=='str' and b==('vec',()) or b[0]=='str' and a==('vec',()): return a[-1] in('',()) and b[-1] in('',())
        if a[0]==b[0]=='elem': return self.same(s,a[1],b[1]) and A.prove_eq(s,a[2],b[2])
        if a[0]==b[0] and len(a)==len(b) and a[0] in('adt','tup','vec','cat','snoc','elem','disp','mins','fld','some','slice'):
            return all(self._same(s,x,y) for x,y in zip(a[1:],b[1:]))
        return False
    def _same(self,s,x,y):
        if x==y: return True
        if isinstance(x,tuple) and isinstance(y,tuple):
            if x and y and isinstance(x[0],str) and isinstance(y[0],str): return self.same(s,x,y)
            return len(x)==len(y) and all(self._same(s,p,q) for p,q in zip(x,y))
        return False
    # ---- silent steps
    def act(self,s,fr):
        if not fr: raise Bad('the reference has already finished')
        (lab,env),rest=fr[0],fr[1:]
        a=self.spec[lab](self.A,s,rest,*env)
        if isinstance(a,Cases) and len(a.alts)>1 and all(f==a.alts[0][1] for _,f in a.alts): return Go(a.alts[0][1])
        return a
    def settle(self,s,fr,have,eager=False):
        """[(state,frames)]: silent steps up to a shape already in `have`, else up to the last loop-head label"""
        out=[]; work=[(s,fr,0,None)]
        while work:
            s,fr,n,hd=work.pop()
            if tuple((l,len(e)) for l,e in fr) in have: out.append((s,fr)); continue
            ishd=bool(fr) and fr[0][0] in self.heads
            if ishd and eager=='lab' and hd and hd[1][0][0]==fr[0][0]: out.append(hd); continue
            if ishd: hd=(s,fr)
            if ishd and eager is True: out.append(hd); continue
            if n>60: out.append(hd or (s,fr)); continue
            a=self.act(s,fr)
            if isinstance(a,(Go,Either)): work.append((s,a.fr,n+1,hd))
            elif isinstance(a,Cases):
                if len(a.alts)>1 and hd is not None: out.append(hd)
                else: work+=[(s2,f2,n+1,hd) for s2,f2 in a.alts]
            else: out.append(hd or (s,fr))
        return out
    def best(self,s,fr,t2,keep,nd,sg,banned,node,entry=False):
        "of the loop heads the reference passes for certain, the one whose values the node's variables hold best"
        stops=[]; n=0; s1,f1=s,fr
        while n<20 and f1:
            if f1[0][0] in self.heads: stops.append((s1,f1))
            a=self.act(s1,f1); n+=1
            if isinstance(a,(Go,Either)): f1=a.fr
            elif isinstance(a,Cases) and len(a.alts)==1: s1,f1=a.alts[0]
            else: break
        pick=None; top=-1
        for s1,f1 in stops:
            sh=self.shape(f1,t2); sc=0; lv=self.leaves(f1,t2); fixed=[j in self.static.get(l,()) for l,env in f1 for j in range(len(env))]
            for i,t in enumerate(lv):
                c=[t] if i<len(fixed) and fixed[i] else [x for x in self.cands(s1,keep,nd,sg,t,entry) if x not in banned.get((node,sh,i),())]
                if not c: sc=-1; break
                if any(y in nd.phis for y in subterms(c[0]) if y): sc+=1
            if sc>top: pick=(s1,f1); top=sc
        return [pick] if pick else None
    def ready(self,s,fr):
        """[(state,frames,action)] with action not silent"""
        out=[]; work=[(s,fr,0)]
        while work:
            s,fr,n=work.pop()
            if n>60: raise Bad('the reference does not progress')
            a=self.act(s,fr)
            if isinstance(a,(Go,Either)): work.append((s,a.fr,n+1))
            elif isinstance(a,Cases): work+=[(s2,f2,n+1) for s2,f2 in a.alts]
            else: out.append((s,fr,a))
        return out
    def returning(self,s,fr,v):
        "[(state,action)] reached silently where the function returns v; the ways out that accept v are left out"
        out=[]; work=[(s,fr,0,None,0)]
        while work:
            s,fr,n,why,hd=work.pop()
            if fr and fr[0][0] in self.heads:
                hd+=1
                if hd>2 and why: raise Bad(why)
            if n>60: raise Bad(why or 'the reference does not progress')
            a=self.act(s,fr)
            if isinstance(a,Go): work.append((s,a.fr,n+1,why,hd))
            elif isinstance(a,Either):
                m=a.f(s,v)
                if m: work.append((s,a.fr,n+1,m,hd))
            elif isinstance(a,Cases): work+=[(s2,f2,n+1,why,hd) for s2,f2 in a.alts]
            else: out.append((s,a))
        return out
    # ---- one event
    def event(self,s,fr,th,ev):
        """[(s,frames,threads)]"""
        name,content,ret=ev[0],ev[1],ev[2]; post=dict(ev[4]) if len(ev)>4 else {}
        self.nev+=1
        th=dict(th); kinds=self.threads.get(name,())
        for i,k in enumerate(kinds):
            if k is None or i>=len(content): continue
            if k in th and not self.same(s,content[i],th[k]):
                raise Bad('%s is applied to another %s (%s instead of %s)'%(name,k,short(content[i],60),short(th[k],60)))
            if i in post and k in th: th[k]=post[i]
        th=tuple(sorted(th.items()))
        if name in self.ignore: return [(s,fr,th)]
        out=[]
        for s2,f2,a in self.ready(s,fr):
            if isinstance(a,Any):
                r=a.f(s2,ev)
                if isinstance(r,str): raise Bad(r)
                out+=[(s2,x,th) for x in ([r] if r and isinstance(r[0],tuple) and len(r[0])==2 and isinstance(r[0][0],str) else r)]
                continue
            if isinstance(a,Ret): raise Bad('%s(%s) where the function should return'%(name,', '.join(short(c,60) for c in content)))
            why=[]
            for e in a.evs:
                if e.name!=name: why.append('expected '+e.name); continue
                badi=[i for i,x in enumerate(e.args) if not(i<len(content) and self.same(s2,content[i],x))]
                if badi: why.append('%s with argument %s = %s, expected %s'%(name,badi[0],short(content[badi[0]]) if badi[0]<len(content) else 'none',short(e.args[badi[0]]) if isinstance(e.args[badi[0]],tuple) else 'another value')); continue
                out.append((s2,e.then(s2,ret),th)); break
            else: raise Bad('%s(%s) happens; %s'%(name,', '.join(short(c,50) for c in content[:2]),' or '.join(why)))
        return out
    def events(self,states,evs):
        for ev in evs:
            nx=[]
            for s,fr,th in states:
                if ev[0]=='loop': nx+=self.through(s,fr,th,ev[1],ev[2])
                else: nx+=self.event(s,fr,th,ev)
            states=nx
        return states
    # ---- loops
    def leaves(self,fr,th): return [t for _,env in fr for t in env]+[t for _,t in th]
    def shape(self,fr,th): return (tuple((l,len(e)) for l,e in fr),tuple(k for k,_ in th))
    def build(self,shape,vals):
        vals=list(vals); fr=[]
        for l,n in shape[0]: fr.append((l,tuple(vals[:n]))); vals=vals[n:]
        return tuple(fr),tuple((k,v) for k,v in zip(shape[1],vals))
    def cands(self,s,keep,nd,sg,t,entry):
        r=[]; late=[]
        for p in nd.phis:
            if p not in sg: continue
            v=sg[p]
            if v==t: r.append(p); continue
            if isinstance(t,tuple) and (isint(t) or t in self.A.tyr) and (isint(v) or v in self.A.tyr):
                d=isub(t,v)
                if d[0]=='int': r.append(iadd(p,d)); continue
                if not any(x in nd.phis or x[0]=='phi' for x in subterms(d) if x): late.append(iadd(p,d))
                u=iadd(t,v)
                if u[0]!='int' and not any(x in nd.phis or x[0]=='phi' for x in subterms(u) if x): (r if not entry or v[0]!='int' else late).append(isub(u,p)); continue
                if self.A.prove_eq(s,t,v): r.append(p); continue
            if t[0] in('adt','cat','snoc') and self.same(s,v,t): r.append(p)
        if entry or t in keep: r.append(t)
        r+=late
        # an int that is a fixed distance from a length known at the node
        if t[0] in('cat','adt','tup','snoc') and not entry:
            m={v:p for p,v in sg.items() if v[0] not in('int',)}
            u=subst(t,m)
            if u!=t: r.append(u)
        elif t[0] in('cat','adt','tup','snoc'):
            m={v:p for p,v in sg.items() if v[0] not in('int','str','vec')}
            u=subst(t,m)
            if u!=t: r.append(u)
        return r
    def through(self,s,fr,th,lid,key):
        """reference states at loop node `key`, where this path leaves the loop"""
        L=self.A.loops[lid]
        mk=(lid,fr,th,self.eager)
        if mk not in self.memo:
            self.memo[mk]=Bad('recursive loop correspondence')
            try: self.memo[mk]=self.induct(L,s,fr,th); self.nloops+=1
            except Bad as e: self.memo[mk]=e
        M=self.memo[mk]
        if isinstance(M,Bad): raise M
        out=[]
        for shape,cs in M.get(key,{}).items():
            f2,t2=self.build(shape,[c[0] for c in cs]); out.append((s,f2,t2))
        if not out: return []      # no reference state can be here: the node is unreachable from this entry
        return out
    strong={}
    eager=False
    static={}      # label -> positions of its values that no step changes
    def consts(self,L):
        "facts about integer loop variables that hold only constants: edge number -> strengthened state"
        if id(L) in self.strong: return
        self.strong=dict(self.strong); self.strong[id(L)]={}
        val={}     # (node,phi) -> constant, or None
        def flow(node,sg,src):
            ch=False
            for p in L.nodes[node].ints:
                if p not in sg: continue
                v=sg[p]; u=subst(v,{q:('int',k) for (n,q),k in val.items() if n==src and k is not None}) if src is not None else v
                k=u[1] if u[0]=='int' else None
                old=val.get((node,p),'unset')
                if old=='unset': val[(node,p)]=k; ch=True
                elif old is not None and old!=k: val[(node,p)]=None; ch=True
            return ch
        flow(L.entry,L.entry_sub,None); ch=True; seen={L.entry}
        while ch:
            ch=False
            for a,b,sg,es in L.edges:
                if a in seen:
                    if b not in seen: seen.add(b); ch=True
                    ch|=flow(b,sg,a)
        for ei,(a,b,sg,es) in enumerate(L.edges):
            cs=[(p,k) for (n,p),k in val.items() if n==a and k is not None]
            if cs:
                es=es.copy()
                try:
                    for p,k in cs: self.A.add_lin(es,tolin(isub(p,('int',k))),tolin(isub(('int',k),p)))
                except Dead: continue
                self.strong[id(L)][ei]=es
    def induct(self,L,s,fr,th):
        A=self.A
        keep=set(self.leaves(fr,th)); ent=[]; self.consts(L)
        for s2,f2 in (self.eager=='best' and self.best(L.base,fr,th,keep,L.nodes[L.entry],L.entry_sub,{},L.entry,True) or self.settle(L.base,fr,(),self.eager)):
            ent.append((s2,f2)); keep|=set(self.leaves(f2,th))
        banned={}    # (node,shape,leaf index) -> set of refuted candidates
        first=None; stack=[]; low=[]
        for rnd in range(60):
            M={}; O={}; restart=False; before={k:set(v) for k,v in banned.items()}
            def arrive(s2,f2,t2,node,sg,entry):
                """record or check; True when a candidate was refuted"""
                sh=self.shape(f2,t2); lv=self.leaves(f2,t2); nd=L.nodes[node]
                if sh not in M.setdefault(node,{}):
                    cs=[]; fixed=[j in self.static.get(l,()) for l,env in f2 for j in range(len(env))]
                    for i,t in enumerate(lv):
                        c=[t] if i<len(fixed) and fixed[i] else [x for x in self.cands(s2,keep,nd,sg,t,entry) if x not in banned.get((node,sh,i),())]
                        if not c:
                            e=Bad('no loop variable of %s keeps %s (%s)'%(L.name,short(t,80),sh[0][0][0] if sh[0] else '')); e.leaf=(sh,i,t); raise e
                        cs.append(c)
                    M[node][sh]=cs; O.setdefault(node,{})[sh]=[list(c) for c in cs]; return 'new'
                # the first one represents the value; the others are alternatives to it
                for i,(t,c) in enumerate(zip(lv,M[node][sh])):
                    if not self.same(s2,subst(c[0],sg),t):
                        banned.setdefault((node,sh,i),set()).add(c[0])
                        if len(c)==1: raise Bad('a loop of %s does not keep in step: %s'%(L.name,short(t,80)+(DBG and short(t,4000)+' AGAINST '+short(subst(c[0],sg),4000) or '')))
                        return 'ref'
                    c[1:]=[x for x in c[1:] if self.same(s2,subst(x,sg),t)]
            def place(s2,f2,t2,node,sg,n,hd=0):
                if f2 and f2[0][0] in self.heads:
                    hd+=1
                    if hd>3: return None
                sh=self.shape(f2,t2)
                if sh in M.get(node,{}) and all(any(self.same(s2,subst(x,sg),t) for x in c) for t,c in zip(self.leaves(f2,t2),M[node][sh])): return [(s2,f2)]
                if n>12 or not f2: return None
                a=self.act(s2,f2)
                if isinstance(a,(Go,Either)): return place(s2,a.fr,t2,node,sg,n+1,hd)
                if not isinstance(a,Cases): return None
                out=[]
                for s3,f3 in a.alts:
                    r=place(s3,f3,t2,node,sg,n+1,hd)
                    if r is None: return None
                    out+=r
                return out
            try:
                for s2,f2 in ent: arrive(s2,f2,th,L.entry,L.entry_sub,True)
                done=set(); work=True
                while work and not restart:
                    work=False
                    for ei,(a,b,sg,es) in enumerate(L.edges):
                        es=self.strong[id(L)].get(ei,es)
                        for sh in list(M.get(a,{})):
                            if (ei,sh) in done: continue
                            f2,t2=self.build(sh,[c[0] for c in M[a][sh]])
                            st=self.events([(es,f2,t2)],es.ev)
                            for s3,f3,t3 in st:
                                for s4,f4 in place(s3,f3,t3,b,sg,0) or self.eager in('lab','best') and b not in M and self.best(s3,f3,t3,keep,L.nodes[b],sg,banned,b) or self.settle(s3,f3,{x[0] for x in M.get(b,{})}):
                                    r=arrive(s4,f4,t3,b,sg,False)
                                    if r=='ref': restart=True
                            done.add((ei,sh)); work=True
                            if restart: break
                        if restart: break
                if not restart: return M
                low+=[(n,before) for n in self.suspects(O,None)]
            except Bad as e:
                # a wrong choice of representative may be to blame: refute it and try again, most suspicious first
                first=first or e
                stack+=[(n,before) for n in reversed(self.suspects(O,getattr(e,'leaf',None)))]
                if not stack and not low: raise first
                n,old=stack.pop() if stack else low.pop(0); banned={k:set(v) for k,v in old.items()}; banned.setdefault(n[:3],set()).add(n[3])
        raise first or Bad('no loop correspondence found for '+L.name)
    def suspects(self,M,leaf):
        r=[]
        for node in M:
            for sh,cs in M[node].items():
                for i,c in enumerate(cs):
                    if len(c)>1:
                        w=0
                        if leaf and c[0]==leaf[2]: w+=1
                        if leaf and sh==leaf[0] and i==leaf[1]: w+=2
                        r.append((-w,len(r),(node,sh,i,c[0])))
        return [x for _,_,x in sorted(r)][:4]
    # ---- whole function
    def run(self,outs,fr0,th0=()):
        """messages of paths that do not refine the reference"""
        for s,v in outs:
            self.npaths+=1
            m=self.one(s,v,fr0,th0)
            if m and any(e[0]=='loop' for e in s.ev):   # once more, entering loops at the first loop head instead of the last
                for md in (True,'lab','best'):
                    self.eager=md
                    try: m=m if self.one(s,v,fr0,th0) else []
                    finally: self.eager=False
                    if not m: break
            self.msgs+=[(t,path(s),s) for t in m]
        return self.msgs
    def one(self,s,v,fr0,th0):
        msgs=[]
        try:
            for s2,f2,t2 in self.events([(s,fr0,tuple(sorted(dict(th0).items())))],s.ev):
                self.cur=dict(t2)
                for s3,a in self.returning(s2,f2,v):
                    if isinstance(a,(Any,Expect)) and a.ret: m=a.ret(s3,v)
                    elif isinstance(a,Ret): m=a.f(s3,v)
                    elif isinstance(a,Any): m=None
                    else: m='returns %s where %s is still to happen'%(short(v,80),' or '.join(e.name for e in a.evs))
                    if m: msgs.append(m)
        except Bad as e: msgs.append(str(e))
        return msgs
def canon(A,s,x):
    "the list element x under the name the path has facts about"
    if x[0]=='elem' and x not in s.var:
        for y in s.var:
            if y[0]=='elem' and y[1]==x[1] and A.prove_eq(s,y[2],x[2]): return y
    return x
def path(s): return ' ; '.join((e[0] if e[0]!='loop' else 'loop') for e in s.ev)[:300]
def want(s_same,val,what='result'):
    def f(s,v):
        if s_same(s,v,val): return None
        return '%s is %s, expected %s'%(what,short(v),short(val))
    return f
