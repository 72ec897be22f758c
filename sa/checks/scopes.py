"""C12, C19 (and parts of C16, C17): what the scope does, and that it is used in a balanced way."""
import work, summ
from ai import *
from sim import *
from natives import variants
from checks import render as R
def P(t,v,i=0): return project(t,v,i)
SC='templito::scope::Scope'
Z=('int',0); ONE=('int',1)
def fields(F):
    """field index by role"""
    for t in F.types:
        if t.get('name')==SC and t.get('variants'):
            d={}
            for i,(n,ty) in enumerate(t['variants'][0]['f']):
                x=F.ts(ty)
                d['maps' if 'HashMap' in x or 'BTreeMap' in x else 'params' if 'dyn' in x else 'pnames']=i
            return d,t['variants'][0]['name'],len(t['variants'][0]['f'])
    raise Bad('Scope not found')
def keys(F,m): return [k for k,b in F.bodies.items() if b['kind']=='fn' and norm_path(b['path'])==SC+'::'+m]
def run(F,k,m,n,st=None):
    A=work.interp(F,drop=tuple(SC+'::'+x for x in('new','with_pnames','top','get','set','set_root','push','pop'))); A.nomerge=True
    st=st or St()
    return A,A.run_body(k,[('arg',i) for i in range(n)],st)
def methods(F):
    """[(method, ok, message)] : effect of every method of Scope on its frames, for any scope with at least one frame"""
    d,vn,nf=fields(F); M=('fld',('arg',0),vn,d['maps']); N=('len',M); out=[]
    def fld(v,r): return P(v,vn,d[r])
    def start(A=None):
        st=St(); AI(F).add_lin(st,ladd(tolin(N),lconst(-1))); return st
    def after(s): return s.mem.get(('sym',('arg',0)),('arg',0))
    def unchanged(A,s,v,roles): return all(fld(v,r)==P(('arg',0),vn,d[r]) for r in roles)
    def others(A,s,m,skip):
        """all frames but `skip` are the old ones"""
        j=('idx','j'); s=s.copy(); A.tyr[j]=(False,64)
        A.add_lin(s,tolin(j),ladd(ladd(tolin(N),lconst(-1)),tolin(j),-1))
        bad=False
        for s2,t in A.branch(s,mk_eq0(tolin(isub(j,skip)))):
            if t: continue
            x=A.seq_get(s2,m,j)
            if x==('elem',M,j): continue
            # the engine may need the comparison spelled out
            ok=False
            for s3,u in A.branch(s2,ge(j,skip)):
                y=A.seq_get(s3,m,j)
                ok=y==('elem',M,j) or A.prove_ge(s3,Z,ONE)
                if not ok: bad=True
        return not bad
    for m in('set','set_root'):
        ks=keys(F,m)
        if not ks: out.append((m,False,'method not found')); continue
        for k in ks:
            A,outs=run(F,k,m,3,start()); ok=bool(outs); msg=''
            for s,v in outs:
                x=after(s); mp=fld(x,'maps'); ix=Z if m=='set_root' else isub(N,ONE)
                if not unchanged(A,s,x,('params','pnames')): ok,msg=False,'changes the parameters'
                elif not A.prove_eq(s,A.seq_len(s,mp),N): ok,msg=False,'changes the number of frames'
                elif not is_ins(A.seq_get(s,mp,ix),A.seq_get(s,M,ix)): ok,msg=False,'does not bind the given name to the given value in the %s frame'%('outermost' if m=='set_root' else 'innermost')
                elif not frame_eq(A,s,mp,M,N,ix): ok,msg=False,'changes another frame'
            out.append((m,ok,msg))
    for m in('push','pop'):
        ks=keys(F,m)
        if not ks: out.append((m,False,'method not found')); continue
        A,outs=run(F,ks[0],m,1,start()); ok=bool(outs); msg=''
        for s,v in outs:
            x=after(s)
            if x==('arg',0): mp=M
            else:
                mp=fld(x,'maps')
                if not unchanged(A,s,x,('params','pnames')): ok,msg=False,'changes the parameters'
            L=A.seq_len(s,mp)
            if m=='push':
                if not(A.prove_eq(s,L,iadd(N,ONE)) and A.seq_get(s,mp,N)==('map0',) and frame_eq(A,s,mp,M,N,None)): ok,msg=False,'does not add exactly one empty frame'
            else:
                for s2,t in A.branch(s,ge(N,('int',2))):
                    if not(A.prove_eq(s2,L,isub(N,ONE) if t else N) and frame_eq(A,s2,mp,M,isub(N,ONE) if t else N,None)): ok,msg=False,'does not remove exactly the innermost frame, keeping the outermost'
        out.append((m,ok,msg))
    ks=keys(F,'top')
    if ks:
        A,outs=run(F,ks[0],'top',1,start())
        ok=bool(outs) and all(v==('elem',M,Z) or A.seq_get(s,M,Z)==v for s,v in outs)
        out.append(('top',ok,'does not return the outermost frame'))
    else: out.append(('top',False,'method not found'))
    for m in('with_pnames','new'):
        ks=keys(F,m)
        if not ks: out.append((m,False,'method not found')); continue
        A,outs=run(F,ks[0],m,2 if m=='with_pnames' else 1)
        ok=bool(outs)
        for s,v in outs:
            def val(x): return A.deref(s,x) if x[0]=='ref' else x
            ok=ok and v[0]=='adt' and [val(z) for z in A_items(A,s,fld(v,'maps'))]==[('map0',)] and fld(v,'params')==('arg',0) and (fld(v,'pnames')==('arg',1) if m=='with_pnames' else A.prove_eq(s,A.seq_len(s,fld(v,'pnames')),Z))
        out.append((m,ok,'does not start with one empty frame and the given parameters'))
    return out
def A_items(A,s,t): return list(t[1]) if t[0]=='vec' else [t]
def is_ins(x,old): return x==('mins',old,('arg',1),('arg',2))
def frame_eq(A,s,new,old,n,skip):
    """new[j]==old[j] for all j<n, j!=skip"""
    j=('idx','j'); A.tyr[j]=(False,64); s=s.copy(); A.add_lin(s,tolin(j),ladd(ladd(tolin(n),lconst(-1)),tolin(j),-1))
    sts=[s]
    if skip is not None:
        sts=[]
        for s2,t in A.branch(s,ge(j,iadd(skip,ONE))):
            if t: sts.append(s2)
        for s2,t in A.branch(s,ge(skip,iadd(j,ONE))):
            if t: sts.append(s2)
    for s2 in sts:
        if A.prove_ge(s2,Z,ONE): continue
        x=A.seq_get(s2,new,j); y=A.seq_get(s2,old,j)
        if x!=y and not(x[0]=='elem' and y[0]=='elem' and x[1]==y[1] and A.prove_eq(s2,x[2],y[2])): return False
    return True
class GetSpec:
    heads=('m','pn')
    def __init__(self,F): 
        self.d,self.vn,_=fields(F); self.sim=None
    def f(self,r): return P(('arg',0),self.vn,self.d[r])
    def table(self): return {k[2:]:getattr(self,k) for k in dir(self) if k.startswith('l_')}
    def l_none(self,A,s,rest): return R.retv(self.sim,NONE)
    def l_val(self,A,s,rest,x):
        S=('arg',1); want=('ap','getv',x,A.seq_slice(s,S,ONE,A.seq_len(s,S)))
        def f(s,v):
            if v==want: return
            if v==some(x) and A.prove_eq(s,A.seq_len(s,S),ONE): return
            if v[0]=='ap' and v[1]=='getv' and v[2]==x and R.is_copy(A,s,v[3],S,ONE): return
            return 'returns %s, expected %s'%(short(v),short(want))
        return Ret(f)
    def l_get(self,A,s,rest):
        S=('arg',1)
        return Cases([(s2,(('id',()),) if t else (('none',()),)) for s2,t in A.branch(s,ge(A.seq_len(s,S),ONE))])
    def l_id(self,A,s,rest):
        h=A.seq_get(s,('arg',1),Z); out=[]
        for s2 in variants(A,s,h,('Num','Id')):
            if next(iter(s2.var[h]))=='Num': out.append((s2,(('par',(P(h,'Num'),)),)))
            else: out.append((s2,(('m',(P(h,'Id'),Z)),)))
        return Cases(out)
    def l_par(self,A,s,rest,n):
        ps=self.f('params')
        return Cases([(s2,(('val',(A.seq_get(s2,ps,n),)),) if t else (('none',()),)) for s2,t in A.branch(s,ge(A.seq_len(s,ps),iadd(n,ONE)))])
    def l_m(self,A,s,rest,k,i):
        ms=self.f('maps'); n=A.seq_len(s,ms); out=[]
        for s1,t in A.branch(s,ge(n,iadd(i,ONE))):
            if not t: out.append((s1,(('pn',(k,Z)),))); continue
            m=A.seq_get(s1,ms,isub(n,iadd(i,ONE)))
            for s2,u in A.branch(s1,('mapin',m,k)): out.append((s2,(('val',(('mapval',m,k),)),) if u else (('m',(k,iadd(i,ONE))),)))
        return Cases(out)
    def l_pn(self,A,s,rest,k,i):
        # no parameters left: the result is nothing whatever the other names are
        if A.truth(s,ge(A.seq_len(s,self.f('params')),iadd(i,ONE))) is False: return Either(R.retv(self.sim,NONE).f,(('pnx',(k,i)),))
        return self.l_pnx(A,s,rest,k,i)
    def l_pnx(self,A,s,rest,k,i):
        ns=self.f('pnames'); n=A.seq_len(s,ns); out=[]
        for s1,t in A.branch(s,ge(n,iadd(i,ONE))):
            if not t: out.append((s1,(('none',()),))); continue
            for s2,u in A.branch(s1,('eqs',)+tuple(sorted((k,A.seq_get(s1,ns,i)),key=rep))): out.append((s2,(('par',(i,)),) if u else (('pn',(k,iadd(i,ONE))),)))
        return Cases(out)
def getter(F):
    ks=keys(F,'get')
    if not ks: raise Bad('Scope::get not found')
    A,outs=run(F,ks[0],'get',2); S=GetSpec(F); sim=Sim(A,S.table(),S.heads); S.sim=sim
    sim.run(outs,(('get',()),)); return A,sim,outs
def seen(A): return A.visited
class Depth:
    """push/pop balance: rules = event -> (least depth, exact?)"""
    heads=('d',)
    def __init__(self,rules,allow=None): self.rules=rules; self.sim=None; self.allow=allow
    def table(self): return {'d':self.d}
    def d(self,A,s,rest,n):
        def f(s,ev):
            k=ev[0]
            if k=='Scope::push': return (('d',(iadd(n,ONE),)),)
            if k=='Scope::pop':
                if not A.prove_ge(s,n,ONE): return 'Scope::pop removes a frame this function did not push'
                return (('d',(isub(n,ONE),)),)
            r=self.rules(A,s,ev,n) if self.rules else None
            if r: return r
            return (('d',(n,)),)
        def ret(s,v):
            if not A.prove_eq(s,n,Z): return 'returns with %s frame(s) still pushed'%short(n)
        return Any(f,ret)
def depth(F,path,nargs,rules,extra=None,threads=None):
    k=R.body(F,path); A=R.interp(F,'run_values','run_command')
    if extra: A.anchors.update(extra)
    S=Depth(rules); sim=Sim(A,S.table(),S.heads,R.TH); S.sim=sim
    outs=A.run_body(k,[('arg',i) for i in range(nargs)],St())
    sim.run(outs,(('d',(Z,)),),threads or {}); return A,sim,outs
def inner(*names):
    def f(A,s,ev,n):
        if ev[0] in names and not A.prove_ge(s,n,ONE): return '%s happens in the surrounding frame, no frame was pushed for it'%ev[0]
    return f
def match_rule(A,s,ev,n):
    if ev[0]=='Scope::set' and ev[1][1]==('str','@') or ev[0]=='Expr::run':
        if not A.prove_ge(s,n,ONE): return 'the filter binds its name in the surrounding frame'
    elif ev[0] in('Scope::set','Pattern::match_data') and not A.prove_eq(s,n,Z): return 'a capture is bound in a frame that is removed again'
T='templito::template::'
DROOTS={'TreeItem::run':(R.RI,4,inner('TreeItem::run','Pattern::match_data'),{'scope':('arg',1)}),
        'run_block':(T+'run_block',4,inner('TreeItem::run'),{'scope':('arg',1)}),
        'run_exp':(T+'TreeTemplate::run_exp',4,None,None),
        'front_matter':(T+'TreeTemplate::front_matter',2,None,None),
        'match_data':('templito::pattern::Pattern::match_data',5,match_rule,{'scope':('arg',2)})}
def one_depth(F,root):
    n,(p,a,rules,th)=root
    ex={T+'run_block':summ.event('run_block',(1,2))} if n=='front_matter' else None
    A,sim,outs=depth(F,p,a,rules,ex,th); return [m[:2] for m in sim.msgs],sim.nev,sim.nloops,len(outs),seen(A)
ERRS=('Expr::run','TreeItem::run','run_block','run_exp','TreeTemplate::run','run_values','run_command','helper',R.GT)
class Errors:
    """an error result is returned, nothing else happens after it but removing frames"""
    heads=('e0','e1')
    def __init__(self,exempt): self.exempt=exempt; self.nerr=0; self.nex=0
    def table(self): return {'e0':self.e0,'e1':self.e1,'er':self.er}
    def e0(self,A,s,rest):
        def f(s,ev):
            if ev[0] not in ERRS: return (('e0',()),)
            self.nerr+=1
            if self.exempt and self.exempt(A,s,ev): self.nex+=1; return (('e0',()),)
            return (('er',(ev[2],('str',ev[0]))),)
        return Any(f)
    def er(self,A,s,rest,r,name):
        out=[]
        for s2 in variants(A,s,r,('Err','Ok')):
            out.append((s2,(('e0',()),) if next(iter(s2.var[r]))=='Ok' else (('e1',(P(r,'Err') if name[1]!=R.GT else ('str','any'),name)),)))
        return Cases(out)
    def e1(self,A,s,rest,p,name):
        def f(s,ev):
            if ev[0]=='Scope::pop': return (('e1',(p,name)),)
            return '%s happens after %s has failed'%(ev[0],name[1])
        def ret(s,v):
            if v==p[1]: return
            if not(v[0]=='adt' and v[1]==RES and v[2]=='Err'): return 'returns %s although %s has failed'%(short(v,80),name[1])
            if p!=('str','any') and not any(x==p for x in subterms(v)): return 'returns another error than that of %s: %s'%(name[1],short(v,80))
        return Any(f,ret)

def ex_tree(A,s,ev): return ev[0]=='Expr::run' and ev[1][0][0]=='fld' and ev[1][0][2]=='If'
def ex_first(A,s,ev): return ev[0]=='Expr::run' and A.truth(s,('eqs',)+tuple(sorted((('arg',0),('str','first')),key=rep))) is True
def ex_filter(A,s,ev): return ev[0]=='Expr::run' and ev[1][0][0]=='fld' and ev[1][0][2]=='Filter'
EROOTS={'TreeItem::run':(R.RI,4,ex_tree,('run_values','run_command')),'run_block':(T+'run_block',4,None,()),'run_exp':(T+'TreeTemplate::run_exp',4,None,()),
        'TreeTemplate::run':(T+'TreeTemplate::run',4,None,()),
        'Expr::run':('templito::expr::Expr::run',4,None,('run_values','run_command')),'run_command':('templito::expr::run_command',5,ex_first,('run_values',)),
        'run_values':('templito::expr::run_values',4,None,()),'match_data':('templito::pattern::Pattern::match_data',5,ex_filter,())}
def one_err(F,root):
    n,(p,a,ex,evs)=root
    k=R.body(F,p); A=R.interp(F,*evs); S=Errors(ex); sim=Sim(A,S.table(),S.heads,{})
    outs=A.run_body(k,[('arg',i) for i in range(a)],St())
    sim.run(outs,(('e0',()),)); return [m[:2] for m in sim.msgs],S.nerr,S.nex,len(outs),seen(A)
