"""C21: equality of values; C08 (first part): the order of values.  The complete case table of the comparison is computed
(every pair of variants, every path) and each entry decided against the theory of integers and of floats with NaN."""
import work, summ
from ai import *
from natives import cont,ap,one as ONE
from sim import short
TD='templito::tdata::TData'; NUM=('Int','UInt','Float')
CMPS=(summ.ORDER,summ.PC,summ.EQ,summ.NE)+tuple('<%s as core::cmp::PartialOrd>::%s'%(TD,o) for o in('lt','le','gt','ge'))+tuple('core::cmp::PartialOrd::%s@%s'%(o,TD) for o in('lt','le','gt','ge'))
A0,A1=('arg',0),('arg',1)
def i2f(x): return ('i2f',x,64)
def vars_of(s,x,allv):
    v=s.var.get(x); return sorted(v) if v else list(allv)
class Numbers:
    """the possible relations of two numbers on one path: ('lt'|'eq'|'gt'), or ('nan',is a NaN,is b NaN)"""
    def __init__(self,A,s,va,vb):
        self.A=A; self.s=s; self.va=va; self.vb=vb
        self.a=project(A0,va,0); self.b=project(A1,vb,0)
        self.x=self.a if va=='Float' else i2f(self.a); self.y=self.b if vb=='Float' else i2f(self.b)
    def val(self,at,rel,na,nb):
        "truth of an atom in a scenario, None when it does not say"
        x,y=self.x,self.y; nan=na or nb
        k=at[0]
        if k not in('feq','fle','flt'): return None
        p,q=at[1],at[2]
        if p==q and p in(x,y):
            isnan=(p==x and na) or (p==y and nb and p!=x)
            return (k!='flt') and not isnan
        if {p,q}!={x,y} : return None
        if nan: return False
        r=rel if p==x else {'lt':'gt','gt':'lt','eq':'eq'}[rel]
        return {'feq':r=='eq','fle':r in('lt','eq'),'flt':r=='lt'}[k]
    def fits(self,rel,na,nb):
        for at,v in self.s.atom.items():
            w=self.val(at,rel,na,nb)
            if w is not None and w!=v: return False
        return True
    def possible(self,b): return any(t for _,t in self.A.branch(self.s,b))
    def ints(self,p,q):
        "relations of two integers the facts allow"
        r=set()
        if self.possible(ge(p,iadd(q,('int',1)))): r.add('gt')
        if self.possible(ge(q,iadd(p,('int',1)))): r.add('lt')
        if self.possible(mk_eq0(tolin(isub(p,q)))): r.add('eq')
        return r
    def all(self):
        out=set(); va,vb=self.va,self.vb
        if 'Float' not in(va,vb): return self.ints(self.a,self.b)
        for na in((False,True) if va=='Float' else (False,)):
            for nb in((False,True) if vb=='Float' else (False,)):
                if na or nb:
                    if self.fits(None,na,nb): out.add(('nan',na,nb))
                    continue
                for rel in('lt','eq','gt'):
                    if not self.fits(rel,False,False): continue
                    if rel!='eq' or va==vb=='Float': out.add(rel)
                    # rounding the integer gives exactly the float: the float is a whole number, its integer value is exact
                    elif va=='Float': out|=self.ints(('f2i',self.a),self.b)
                    else: out|=self.ints(self.a,('f2i',self.b))
        return out
def okey(F,path):
    ks=[k for k,b in F.bodies.items() if b['path']==path and b['kind']=='fn' and 'promoted' not in k and '@' not in k]
    return ks[0] if ks else None
OF={'Less':'lt','Equal':'eq','Greater':'gt'}
def const_ord(A,s,v):
    "the orderings a returned term can be: [(state, name)]"
    if v[0]=='adt' and v[1]==ORD: return v[2]
    vs=A.variants_of(s,v)
    if vs and len(vs)==1: return next(iter(vs))
    return None
def ordterm(v,va):
    a,b=project(A0,va,0),project(A1,va,0)
    if v[0]=='ord' and v[2:]==(a,b): return True
def table(F,key,args):
    """cases (va,vb) -> list of (result, problem) of a comparison function"""
    A=work.interp(F,drop=CMPS); A.nomerge=True
    outs=A.run_body(key,args,St())
    cell={}; bad=[]; nanfirst=nanlast=True; nums=0; nanwhy=['','']
    for s,v in outs:
        if any(e[0]!='loop' for e in s.ev): bad.append('comparing performs %s'%s.ev[0][0])
        for va in vars_of(s,A0,summ.ALLV):
            for vb in vars_of(s,A1,summ.ALLV):
                c=const_ord(A,s,v)
                if va in NUM and vb in NUM:
                    if c is None: bad.append('%s against %s: result %s'%(va,vb,short(v))); continue
                    nums+=1
                    for sc in Numbers(A,s,va,vb).all():
                        if sc[0]=='nan':
                            last={(True,False):'gt',(False,True):'lt',(True,True):'eq'}[sc[1:]]; first={'gt':'lt','lt':'gt','eq':'eq'}[last]
                            if OF[c]!=last: nanlast=False; nanwhy[0]='%s/%s: %s where %s'%(va,vb,c,nanname(sc))
                            if OF[c]!=first: nanfirst=False; nanwhy[1]='%s/%s: %s where %s'%(va,vb,c,nanname(sc))
                        elif sc!=OF[c]: bad.append('%s against %s: %s although the first can be %s'%(va,vb,c,{'lt':'smaller','eq':'equal','gt':'greater'}[sc]))
                elif va!=vb or (va in NUM)!=(vb in NUM):
                    cell.setdefault((va,vb),set()).add(c or 'varies: '+short(v,60))
                else:
                    if c is not None:
                        # a constant, or the outcome of comparing the contents
                        w=[t for t,x in s.var.items() if ordterm(t,va)]
                        if w and next(iter(s.var[w[0]]))!=c: bad.append('%s against %s: the order of the contents is not kept'%(va,vb))
                        cell.setdefault((va,vb),set()).add('ord' if w else c)
                    elif ordterm(v,va): cell.setdefault((va,vb),set()).add('ord')
                    else: bad.append('%s against %s: result %s is not an order of the contents'%(va,vb,short(v)))
    if not(nanfirst or nanlast): bad.append('the place of NaN among the numbers is not consistent: %s; %s'%tuple(nanwhy))
    return dict(cell={k:sorted(x) for k,x in cell.items()},bad=bad,paths=len(outs),nums=nums,unknown=sorted(A.unknown))
def nanname(sc): return {(True,False):'the first is NaN',(False,True):'the second is NaN',(True,True):'both are NaN'}[sc[1:]]
def order_obs(F,r,where,t):
    cell=t['cell']
    r.ob('%s: numbers compare by value across numeric types'%where,not t['bad'],'%d cases of number pairs'%t['nums'] if not t['bad'] else t['bad'][0])
    cls=lambda v:'number' if v in NUM else v
    rel={}; bad=[]
    for(a,b),rs in cell.items():
        if a==b: continue
        if len(rs)!=1 or rs[0] not in('Less','Greater'): bad.append('%s against %s: %s'%(a,b,', '.join(rs))); continue
        rel.setdefault((cls(a),cls(b)),set()).add(rs[0])
    for(a,b),rs in sorted(rel.items()):
        if len(rs)!=1: bad.append('%s against %s: not the same for all values'%(a,b))
        elif rel.get((b,a))!={'Less':{'Greater'},'Greater':{'Less'}}[next(iter(rs))]: bad.append('%s against %s is %s, but the other way round %s'%(a,b,next(iter(rs)),', '.join(rel.get((b,a),['missing']))))
    C=sorted({cls(v) for v in summ.ALLV})
    for a in C:
        for b in C:
            if a!=b and (a,b) not in rel: bad.append('%s against %s: no result'%(a,b))
    if not bad:
        for a in C:
            for b in C:
                for c in C:
                    if len({a,b,c})==3 and rel[(a,b)]=={'Less'} and rel[(b,c)]=={'Less'} and rel[(a,c)]!={'Less'}: bad.append('cycle: %s < %s < %s < %s'%(a,b,c,a))
    r.ob('%s: values of different kinds are in one strict order of kinds'%where,not bad,'%d pairs of kinds'%len(rel) if not bad else bad[0])
    bad=[]
    for v in summ.ALLV:
        if v in NUM: continue
        rs=cell.get((v,v),[])
        if len(rs)!=1 or rs[0] not in('Equal','ord'): bad.append('%s against %s: %s'%(v,v,', '.join(rs) or 'no result'))
    r.ob('%s: values of one kind are ordered by their contents or all equal'%where,not bad,'' if not bad else bad[0])
    r.count(where+' paths',t['paths'])
# ---------------------------------------------------------------- equality
def eqbodies(F):
    out={}
    for k,b in F.bodies.items():
        if b['kind']!='fn' or 'promoted' in k or '@' in k or not b.get('local',True): continue
        for m in('eq','ne'):
            if b['path'].endswith(' as core::cmp::PartialEq>::'+m): out[k]=(b['path'][1:].split(' as ')[0],m)
    return out
def reachable(F,t):
    "types whose equality decides that of t (by name)"
    byname={}
    for i,x in enumerate(F.types):
        if x.get('k')=='adt': byname.setdefault(x['name'],[]).append(i)
    seen=set(); names=set(); todo=list(byname.get(t,()))
    while todo:
        i=todo.pop()
        if i in seen: continue
        seen.add(i); x=F.types[i]
        if x.get('k')=='adt': names.add(x['name'])
        todo+=[a for a in x.get('args',()) if isinstance(a,int)]
        for key in('t','of','elem','inner'):
            if isinstance(x.get(key),int): todo.append(x[key])
        for a in x.get('ts',()) or ():
            if isinstance(a,int): todo.append(a)
        if x.get('k')=='adt' and x['name'].startswith('templito::'):
            for v in x['variants']: todo+=[f[1] for f in v['f']]
    return names
def eqfield(A,s,p,q,d=0):
    "True / False / None: are p and q shown equal on this path"
    if p==q: return True
    for at,v in s.atom.items():
        if at[0] in('eqs','eqb','eqv','eqT','eqL','feq') and set(at[-2:])=={p,q}: return v
    if p in A.tyr and q in A.tyr:
        if A.prove_eq(s,p,q): return True
        if A.prove_ge(s,p,iadd(q,('int',1))) or A.prove_ge(s,q,iadd(p,('int',1))): return False
    vp,vq=A.variants_of(s,p),A.variants_of(s,q)
    for x,y in((vp,q),(vq,p)):
        if x and len(x)==1:
            t=s.atom.get(('isvar',y,next(iter(x))))
            if t is False: return False
            if t: vp=vq=x
    if vp and vq:
        if not(set(vp)&set(vq)): return False
        if len(vp)==len(vq)==1 and d<6:
            v=next(iter(vp)); n=arity(A,s,p,q,v)
            rs=[eqfield(A,s,project(p,v,i),project(q,v,i),d+1) for i in range(n)]
            if False in rs: return False
            if n==0 and v not in('None',): return None
            return None if None in rs else True
    # a tuple taken apart
    fs={i for at in list(s.atom)+list(s.var) for t in sub(at) if len(t)==4 and t[0]=='fld' and t[1] in(p,q) and t[2] is None for i in[t[3]]}
    if fs and d<6:
        rs=[eqfield(A,s,project(p,None,i),project(q,None,i),d+1) for i in range(max(fs)+1)]
        if False in rs: return False
    return None
def arity(A,s,p,q,v): return {'Some':1,'None':0,'Ok':1,'Err':1}.get(v,0)
def sub(t):
    st=[t]
    while st:
        x=st.pop()
        if isinstance(x,tuple):
            yield x; st.extend(x)
def one_eq(F,root):
    k,ty,m,V,same,allv,fields=root
    A=work.interp(F,drop=CMPS); A.nomerge=True
    def other(ai,st,c,args):
        x,y=cont(ai,st,args[0]),cont(ai,st,args[1]); x,y=sorted((x,y),key=rep)
        b=('eqL',x,y); return ONE(st,mk_not(b) if c.rpath.endswith('::ne') else b)
    for k2,(t2,m2) in eqbodies(F).items():
        if t2!=ty: A.anchors[F.bodies[k2]['path']]=other
    A.onrec=lambda st,body,args,c: other(A,st,c,args)
    st=St(); st.var[A0]=frozenset([V]); st.var[A1]=frozenset([V] if same else [x for x in allv if x!=V])
    bad=[]; n=0
    outs=A.run_body(k,[A0,A1],st)
    for s0,v0 in outs:
        if any(e[0]!='loop' for e in s0.ev): bad.append('comparing performs %s'%s0.ev[0][0])
        for s,t in A.branch(s0,v0):
            n+=1
            if m=='ne': t=not t
            for va in vars_of(s,A0,allv):
                for vb in vars_of(s,A1,allv):
                    w='%s and %s'%(va,vb)
                    if ty==TD and va in NUM and vb in NUM:
                        for sc in Numbers(A,s,va,vb).all():
                            e=sc=='eq'
                            if t!=e and not(sc[0]=='nan' and sc[1] and sc[2]): bad.append('%s are %s although %s'%(w,'equal' if t else 'not equal',{'lt':'the first can be smaller','gt':'the first can be greater','eq':'their values can be the same'}.get(sc) or nanname(sc)))
                        continue
                    if va!=vb:
                        if t: bad.append('%s can be equal'%w)
                        continue
                    rs=[eqfield(A,s,project(A0,va,i),project(A1,va,i)) for i in range(len(fields[va]))]
                    if t and not all(x is True for x in rs): bad.append('two values %s are equal although %s may differ'%(va,fields[va][[x is True for x in rs].index(False)]))
                    if not t and False not in rs: bad.append('two values %s are not equal although nothing in them differs'%va)
    return dict(bad=bad,n=n,paths=len(outs),unknown=sorted(A.unknown))
def variants_of_type(F,name):
    for x in F.types:
        if x.get('k')=='adt' and x['name']==name: return [(v['name'],[f[0] for f in v['f']]) for v in x['variants']]
def c21(F,r):
    r.rule=('all cases of the equality of values, and of every type of this crate a value can contain: equal exactly when both have the same variant and every field is equal (numbers: exactly when the values agree, decided over integers and floats); '
            'the order used for sorting puts numbers of equal value, and values of equal content, beside each other')
    es=eqbodies(F); names=reachable(F,TD); roots=[]
    for k,(t,m) in es.items():
        if t not in names: continue
        vs=variants_of_type(F,t); allv=[v for v,_ in vs]; fl=dict(vs)
        for v in allv:
            roots.append((k,t,m,v,True,allv,fl))
            if len(allv)>1: roots.append((k,t,m,v,False,allv,fl))
    r.floor('types with an equality of their own inside values',len({x[1] for x in roots}),7)
    if not any(x[1]==TD and x[2]=='eq' for x in roots): r.ob('equality of values',False,'no implementation found')
    n=0; seen=set()
    for root,x,e in work.pool(F,roots,one_eq,200):
        k,t,m,v,same=root[:5]
        nm='%s::%s: %s against %s'%(t.split('::')[-1],m,v,v if same else 'the other variants')
        if e: r.ob(nm+': analysed',False,e); continue
        n+=x['n']
        r.ob(nm,not x['bad'],'%d cases'%x['n'] if not x['bad'] else x['bad'][0],F.bodies[k]['span'])
    r.count('cases',n)
    k=okey(F,summ.ORDER)
    if not k: r.ob('the order of values',False,'%s not found'%summ.ORDER); return
    (_,t,e),=work.pool(F,[k],lambda F,k:table(F,k,[A0,A1]),200)
    if e: r.ob('order: analysed',False,e); return
    bad=list(t['bad'])+['%s against %s: %s'%(a,b,x) for (a,b),x in t['cell'].items() if a==b and x not in(['Equal'],['ord'])]
    r.ob('equal values are never ordered one before the other',not bad,'%d paths'%t['paths'] if not bad else bad[0],F.bodies[k]['span'])
    r.assumptions=['equality and order of text, dates and vectors, boxes and maps of comparable things are those of the standard library and chrono']
