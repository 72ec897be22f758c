"""C42: what the write helpers leave in a file.  C43: what scan_dir and file_img_dimensions report.

Reference programs over file system accesses, as for C28."""
import helpers, work, effects, natives
import sim as SIM
from sim import Go,Cases,Ev,Expect,Ret,Either
from ai import *
from natives import cont,setv,one,ap,variants,snoc2,snoc
from sim import short
from checks import files as FS
from checks.files import P,path_of,anyerr,refused,io_anchors
TD='templito::tdata::TData'
I0=('int',0); I1=('int',1)
def td(v,*x): return ('adt',TD,v,tuple(x))
def typ(ai,c,r): ai.typed(r,c.dty); return r
# ---------- the accesses of a writer, one event each however they are spelled
def write_anchors(A):
    def ev(ai,st,name,content,c):
        r=ai.fresh('ret',name); s=st.copy(); s.ev=s.ev+((name,content,r,c.span),); return s,r
    def mkdir(ai,st,c,args):
        s,r=ev(ai,st,'mkdir',(cont(ai,st,args[0]),),c); return [(s,typ(ai,c,r))]
    def fopen(ai,st,c,args):
        o=cont(ai,st,args[0]); last={}
        if o[0]=='adt' and o[1]=='OO' and o[3][0][0]=='vec':
            for x in o[3][0][1]: last[x[1][0][1]]=x[1][1]
            on={k for k,v in last.items() if v!=FALSE}
            name='recreate' if on-{'read'}=={'write','create','truncate'} and all(v==TRUE for k,v in last.items() if k in on) else 'open with '+','.join(sorted(on))
        else: name='open with unknown options'
        s,r=ev(ai,st,name,(cont(ai,st,args[1]),),c); return [(s,typ(ai,c,r))]
    def fcreate(ai,st,c,args):
        s,r=ev(ai,st,'recreate',(cont(ai,st,args[0]),),c); return [(s,typ(ai,c,r))]
    def fwrite(ai,st,c,args):
        s,r=ev(ai,st,'recreate',(cont(ai,st,args[0]),),c); out=[]
        for s2 in variants(ai,s,r,('Err','Ok')):
            if next(iter(s2.var[r]))=='Err': out.append((s2,err(project(r,'Err',0)))); continue
            s3,r2=ev(ai,s2,'io:write',(project(r,'Ok',0),cont(ai,s2,args[1])),c); out.append((s3,typ(ai,c,r2)))
        return out
    A.anchors.update({'std::fs::create_dir_all':mkdir,'std::fs::OpenOptions::open':fopen,'std::fs::File::create':fcreate,'std::fs::write':fwrite})
class WriteSpec:
    """form 0: every text on its own; 1, 2: the texts joined first (before / after the file is opened); 3: between the folder and the file"""
    heads=('wl','acc')
    def __init__(self,A,locked,form): self.A=A; self.locked=locked; self.form=form
    def table(self): return {k[2:]:getattr(self,k) for k in dir(self) if k.startswith('l_')}
    S=('arg',0)
    def l_err(self,A,s,rest): return Ret(anyerr)
    def l_ok(self,A,s,rest): return Ret(lambda s,v: None if v[0]=='adt' and v[2]=='Ok' or v[0]!='adt' and A.variants_of(s,v)==frozenset(['Ok']) else 'returns %s after the text was written'%short(v))
    def split(self,A,s,r,f,names=('Err','Ok')): return Cases([(s1,(('err',()),) if next(iter(s1.var[r]))==names[0] else f(project(r,names[1],0))) for s1 in variants(A,s,r,names)])
    def l_wr(self,A,s,rest):
        n=A.seq_len(s,self.S)
        return Cases([(s2,(('wr2',()),) if t else (('err',()),)) for s2,t in A.branch(s,ge(n,('int',2)))])
    def refusal(self,e):
        return lambda s,v: None if refused(self.A,s,('disp',e)) and anyerr(s,v) is None else 'returns %s although the path was not refused'%short(v)
    def l_wr2(self,A,s,rest):
        if self.form==1: return Go((('acc',(I1,('str',''))),))
        return Go((('mk',()),))
    def l_mk(self,A,s,rest,*x):
        # nothing is touched when the path is refused or has no folder to lie in
        p=ap('std::path::Path::parent',path_of(self.locked,A.seq_get(s,self.S,I0))); no=self.refusal(A.seq_get(s,self.S,I0))
        def f(s,v):
            if A.variants_of(s,p)==frozenset(['None']): return anyerr(s,v)
            return no(s,v) if self.locked else 'returns %s before the file is opened'%short(v)
        return Expect(Ev('mkdir',(project(p,'Some',0),),lambda s,r:(('dir2',(r,)+x),)),ret=f)
    def l_dir2(self,A,s,rest,r,*x): return self.split(A,s,r,lambda _:(('acc',(I1,('str',''))),) if self.form==3 else (('op',x),))
    def l_op(self,A,s,rest,*x): return Expect(Ev('recreate',(path_of(self.locked,A.seq_get(s,self.S,I0)),),lambda s,r:(('op2',(r,)+x),)))
    def l_op2(self,A,s,rest,r,*x):
        def f(h):
            if self.form in(1,3): return (('one',(h,x[0])),)
            if self.form==2: return (('acc',(I1,('str',''),h)),)
            if self.locked: return (('one',(h,('disp',A.seq_get(s,self.S,I1)))),)
            return (('wl',(I1,h)),)
        return self.split(A,s,r,f)
    def l_one(self,A,s,rest,h,t): return Expect(Ev('io:write',(h,t),lambda s,r:(('one2',(r,)),)))
    def l_one2(self,A,s,rest,r): return self.split(A,s,r,lambda _:(('ok',()),))
    def more(self,A,s,j,go,end):
        return Cases([(s2,go if t else end) for s2,t in A.branch(s,ge(A.seq_len(s,self.S),iadd(j,I1)))])
    def l_wl(self,A,s,rest,j,h): return self.more(A,s,j,(('w1',(j,h)),),(('ok',()),))
    def l_w1(self,A,s,rest,j,h): return Expect(Ev('io:write',(h,('disp',A.seq_get(s,self.S,j))),lambda s,r:(('w2',(j,h,r)),)))
    def l_w2(self,A,s,rest,j,h,r): return self.split(A,s,r,lambda _:(('wl',(iadd(j,I1),h)),))
    def l_acc(self,A,s,rest,j,acc,*h):
        end=(('one',(h[0],acc)),) if h else (('op' if self.form==3 else 'mk',(acc,)),)
        return self.more(A,s,j,(('acc',(iadd(j,I1),A.cat(acc,('disp',A.seq_get(s,self.S,j))))+h),),end)
class MSim(SIM.Sim):
    """maps compared whatever order their entries were put in"""
    def parts(self,m):
        d={}
        while m[0]=='mins' and m[2][0]=='str':
            d.setdefault(m[2],m[3]); m=m[1]
        return d,m
    def same(self,s,a,b):
        if isinstance(a,tuple) and isinstance(b,tuple) and a and b and a[0]=='mins' and b[0]=='mins':
            x,p=self.parts(a); y,q=self.parts(b)
            if x or y: return set(x)==set(y) and all(self.same(s,v,y[k]) for k,v in x.items()) and (p==q or p[0]==q[0]=='mins' and self.same(s,p,q))
        return super().same(s,a,b)
    def cands(self,s,keep,nd,sg,t,entry):
        r=super().cands(s,keep,nd,sg,t,entry)
        if isinstance(t,tuple) and t[0]=='mins':
            for p in nd.phis:
                if p in sg and p not in r and self.same(s,sg[p],t): r.insert(0,p)
        return r

def one42(F,root):
    f,locked=root; best=None
    for form in (0,1,2,3):
        A=work.interp(F); A.nomerge=True; io_anchors(A); write_anchors(A)
        S=WriteSpec(A,locked,form); sim=SIM.Sim(A,S.table(),S.heads); S.sim=sim
        outs=A.run_body(f[1][0] if isinstance(f[1],tuple) else f[1],[('arg',0)],St()) if f[0]=='fn' else A.run_body(f[1],[f,('arg',0)],St())
        sim.run(outs,(('wr',()),))
        x=dict(msgs=[(m,p) for m,p,s in sim.msgs],paths=len(outs),ev=sim.nev,loops=sim.nloops,form=form,good=sum(1 for s,v in outs if v[0]=='adt' and v[2]=='Ok'))
        if best is None: best=x
        if not x['msgs']: return x
    return best
def registered(F,m,name):
    rs,_=helpers.registrations(F,m)
    return [f for reg in rs for n,f in reg if n==('str',name)]
def c42(F,r):
    r.rule=('refinement: every path of each write helper (folders made, file replaced, texts written, result) matches a reference program: the folder the file lies in is made, the file is opened for replacing its content, '
            'each text given is written once and in order through that one handle, and any failure is an error; obligation per helper')
    roots=[]
    for m,locked in(('with_write_lock',True),('with_free_files',False)):
        fs=registered(F,m,'write')
        if not fs: r.ob('%s/write is registered'%m,False,'no helper of this name is registered'); continue
        roots.append((fs[-1],locked))
    n=0
    for (f,locked),x,e in work.pool(F,roots,one42,300):
        lab='write (%s)'%('locked' if locked else 'free')
        if e: r.ob(lab+': analysed',False,e); continue
        n+=1
        r.ob(lab+': follows the reference',not x['msgs'],'%d paths'%x['paths'] if not x['msgs'] else '%s (events: %s)'%x['msgs'][0])
        r.ob(lab+': can succeed',x['good']>0,'%d paths return Ok'%x['good'])
        r.count(lab+' paths',x['paths']); r.count(lab+' accesses matched',x['ev'])
    r.floor('write helpers',len(roots),2)
    r.assumptions=['the system does what create_dir_all, opening for truncation and write_all document','the locked helper writes its second argument, the free one all after the first, as their descriptions say']
# ---------- scan_dir
class ScanSpec:
    heads=('ents','mx')
    def __init__(self,A,roles,mode): self.A=A; self.R=roles; self.mode=mode
    def table(self): return {k[2:]:getattr(self,k) for k in dir(self) if k.startswith('l_')}
    def split(self,A,s,r,f,bad=(('err',()),),names=('Err','Ok')): return Cases([(s1,bad if next(iter(s1.var[r]))==names[0] else f(project(r,names[1],0))) for s1 in variants(A,s,r,names)])
    def l_err(self,A,s,rest): return Ret(anyerr)
    def l_sc(self,A,s,rest): return Expect(Ev('read_dir',(self.R['full'],),lambda s,r:(('sc2',(r,)),)))
    def l_sc2(self,A,s,rest,r): return self.split(A,s,r,lambda d:(('ents',(d,I0,self.R['list0'])),))
    def l_ents(self,A,s,rest,d,j,acc):
        return Cases([(s2,(('ent',(d,j,acc)),) if t else (('fin',(acc,)),)) for s2,t in A.branch(s,ge(A.seq_len(s,d),iadd(j,I1)))])
    def l_fin(self,A,s,rest,acc):
        if self.mode=='ret': return Ret(lambda s,v: None if self.sim.same(s,v,ok(acc)) else 'returns %s, expected the list %s'%(short(v),short(acc)))
        def f(s,v):
            if not(v[0]=='adt' and v[2]=='Ok'): return 'returns %s, expected Ok'%short(v)
            l=A.read(s,'RES',())
            return None if self.sim.same(s,l,acc) else 'leaves %s in the list, expected %s'%(short(l),short(acc))
        return Ret(f)
    def l_ent(self,A,s,rest,d,j,acc):
        e=A.seq_get(s,d,j); nx=(('ents',(d,iadd(j,I1),acc)),)
        return self.split(A,s,e,lambda x:(('en2',(x,d,j,acc)),),nx)
    def l_en2(self,A,s,rest,x,d,j,acc):
        nx=(('ents',(d,iadd(j,I1),acc)),)
        return Cases([(s2,nx if t else (('en3',(x,d,j,acc)),)) for s2,t in A.branch(s,self.hidden(x))])
    def hidden(self,x): return ap('str_starts_with',ap('std::fs::DirEntry::file_name',x),('str','_'))
    def l_en3(self,A,s,rest,x,d,j,acc):
        return self.split(A,s,ap('std::fs::DirEntry::file_type',x),lambda ft:(('kind',(ft,x,d,j,acc)),))
    def l_kind(self,A,s,rest,ft,x,d,j,acc):
        nx=(('ents',(d,iadd(j,I1),acc)),); F_,D_=ap('std::fs::FileType::is_file',ft),ap('std::fs::FileType::is_dir',ft)
        fl=(('flt',(x,d,j,acc)),); di=(('dir',(x,d,j,acc)),)
        if A.truth(s,D_) is True: return Go(di)
        out=[]
        for s1,t in A.branch(s,F_):
            if t: out.append((s1,fl)); continue
            for s2,u in A.branch(s1,D_): out.append((s2,di if u else nx))
        return Cases(out)
    def l_flt(self,A,s,rest,x,d,j,acc):
        g=self.R['reg']; nx=(('ents',(d,iadd(j,I1),acc)),); go=(('fil',(x,d,j,acc)),); out=[]
        for s1 in variants(A,s,g,('None','Some')):
            if next(iter(s1.var[g]))=='None': out.append((s1,go)); continue
            for s2,t in A.branch(s1,ap('regex::regex::string::Regex::is_match',project(g,'Some',0),ap('std::fs::DirEntry::path',x))): out.append((s2,go if t else nx))
        return Cases(out)
    def l_fil(self,A,s,rest,x,d,j,acc): return Expect(Ev('open',(lambda s,p: self.entry(s,p,x),),lambda s,r:(('fi2',(r,x,d,j,acc)),)))
    def entry(self,s,p,x):
        return p==ap('std::fs::DirEntry::path',x) or p[0]=='join' and self.sim.same(s,p[1],self.R['full']) and p[2]==ap('std::fs::DirEntry::file_name',x)
    def l_fi2(self,A,s,rest,r,x,d,j,acc): return self.split(A,s,r,lambda h:(('fi3',(h,x,d,j,acc)),),(('ents',(d,iadd(j,I1),acc)),))
    def l_fi3(self,A,s,rest,h,x,d,j,acc): return Expect(Ev('read',(h,('str','str')),lambda s,r:(('fi4',(r,x,d,j,acc)),)))
    def l_fi4(self,A,s,rest,r,x,d,j,acc):
        m=('map0',)
        for k,v in(('item_full_path',ap('std::fs::DirEntry::path',x)),('item_path',self.R['short']),('item_file',ap('std::fs::DirEntry::file_name',x))): m=('mins',m,('str',k),td('String',v))
        t=ap('parsed',('ioread',r))
        return self.split(A,s,t,lambda tr:(('mx',(d,j,acc,('entries',ap('front',tr,self.R['fm'])),I0,m)),),(('push',(m,d,j,acc)),))
    def l_mx(self,A,s,rest,d,j,acc,E,i,m):
        e=A.seq_get(s,E,i)
        return Cases([(s2,(('mx',(d,j,acc,E,iadd(i,I1),('mins',m,project(e,None,0),project(e,None,1)))),) if t else (('push',(m,d,j,acc)),)) for s2,t in A.branch(s,ge(A.seq_len(s,E),iadd(i,I1)))])
    def l_push(self,A,s,rest,m,d,j,acc): return Go((('ents',(d,iadd(j,I1),snoc(acc,td('Map',m)))),))
    def l_dir(self,A,s,rest,x,d,j,acc):
        return Cases([(s2,(('rec',(x,d,j,acc)),) if t else (('ents',(d,iadd(j,I1),acc)),)) for s2,t in A.branch(s,ge(self.R['depth'],I1))])
    def l_rec(self,A,s,rest,x,d,j,acc):
        R=self.R; n=ap('std::fs::DirEntry::file_name',x)
        want={'full':lambda s,p: self.entry(s,p,x),'short':('join',R['short'],n),'depth':isub(R['depth'],I1),'list0':acc,'fm':R['fm'],'reg':R['reg']}
        return Expect(Ev('scan',tuple(want[k] for k in R['order']),lambda s,r:(('rec2',(r,d,j,acc)),)))
    def l_rec2(self,A,s,rest,r,d,j,acc):
        def f(v):
            a=A.cat(acc,v) if self.mode=='ret' else ap('scanned',r)
            return (('ents',(d,iadd(j,I1),a)),)
        return self.split(A,s,r,f)
class ScanTop:
    heads=()
    def __init__(self,A,locked,order,mode): self.A=A; self.locked=locked; self.order=order; self.mode=mode
    def table(self): return {k[2:]:getattr(self,k) for k in dir(self) if k.startswith('l_')}
    S=('arg',0)
    def l_err(self,A,s,rest): return Ret(anyerr)
    def has(self,A,s,n,yes,no): return Cases([(s2,yes if t else no) for s2,t in A.branch(s,ge(A.seq_len(s,self.S),('int',n)))])
    def depth(self,s):
        """[(state, how deep)]: the second argument as a count, 0 without one"""
        A=self.A; import summ
        for s0,t in A.branch(s,ge(A.seq_len(s,self.S),('int',2))):
            if not t: yield s0,I0; continue
            e=A.seq_get(s0,self.S,I1)
            for s1 in variants(A,s0,e,summ.ALLV):
                v=next(iter(A.variants_of(s1,e)))
                if v=='UInt': yield s1,project(e,'UInt',0)
                elif v=='Int':
                    n=project(e,'Int',0)
                    for s2,u in A.branch(s1,ge(n,I0)): yield s2,n if u else I0
                else: yield s1,I0
    def filt(self,s):
        A=self.A
        for s0,t in A.branch(s,ge(A.seq_len(s,self.S),('int',3))):
            if not t: yield s0,NONE; continue
            g=ap('regex::regex::string::Regex::new',('disp',A.seq_get(s0,self.S,('int',2))))
            for s1 in variants(A,s0,g,('Err','Ok')): yield s1,NONE if next(iter(s1.var[g]))=='Err' else some(project(g,'Ok',0))
    def l_top(self,A,s,rest):
        def f(s,v):
            if A.truth(s,ge(A.seq_len(s,self.S),I1)) is False: return anyerr(s,v)
            if self.locked and refused(A,s,('disp',A.seq_get(s,self.S,I0))): return anyerr(s,v)
            return 'returns %s although a folder is given%s'%(short(v),' and its path was not refused' if self.locked else '')
        every=lambda alts: lambda s,v: all(self.sim.same(s2,v,x) for s2,x in alts(s))
        want={'full':path_of(self.locked,A.seq_get(s,self.S,I0)),'short':('str',''),'depth':every(self.depth),'list0':('vec',()),'reg':every(self.filt),
              'fm':lambda s,v: v[0]=='ap' and v[1]=='with_defaults' and v[2][0]=='adt' and all(x==('map0',) for x in v[2][3])}
        return Expect(Ev('scan',tuple(want[k] for k in self.order),lambda s,r:(('t7',(r,)),)),ret=f)
    def l_t7(self,A,s,rest,r):
        out=[]
        for s1 in variants(A,s,r,('Err','Ok')):
            if next(iter(s1.var[r]))=='Err': out.append((s1,(('err',()),)))
            else: out.append((s1,(('t8',(project(r,'Ok',0) if self.mode=='ret' else ap('scanned',r),)),)))
        return Cases(out)
    def l_t8(self,A,s,rest,l): return Ret(lambda s,v: None if self.sim.same(s,v,ok(td('List',l))) else 'returns %s, expected the list of all that was found'%short(v))
def ftype(F,t):
    t=F.types[t]; m=False
    while t['k']=='ref': m=m or t.get('mut'); t=F.types[t['t']]
    return t,m
def scan_roles(F,k):
    """which parameter of the recursive function plays which part, from their types"""
    b=F.bodies[k]; roles=[]; paths=[]
    for i in range(b['argc']):
        t,m=ftype(F,b['locals'][i+1]); n=t.get('name') or t.get('s')
        if n in('std::path::Path','std::path::PathBuf'): roles.append('path'); paths.append(i)
        elif t['k']=='int': roles.append('depth')
        elif n=='alloc::vec::Vec' and m: roles.append('list0')
        elif n=='core::option::Option': roles.append('reg')
        elif n and n.startswith('templito::func_man::'): roles.append('fm')
        else: return None
    if len(paths)!=2 or any(roles.count(x)!=1 for x in('depth','reg','fm')): return None
    out=[]
    for a,b_ in(('full','short'),('short','full')):
        o=list(roles); o[paths[0]]=a; o[paths[1]]=b_; out.append(tuple(o))
    return out
def scan_hook(key,order):
    li=order.index('list0') if 'list0' in order else None
    def h(ai,st,c,args):
        r=ai.fresh('ret','scan'); s=st.copy(); s.ev=s.ev+(('scan',tuple(cont(ai,st,a) for a in args),r,c.span),); ai.typed(r,c.dty)
        if li is not None: setv(ai,s,args[li],ap('scanned',r))
        return [(s,r)]
    return h
def anchors43(F,A):
    io_anchors(A)
    def pure(name):
        def h(ai,st,c,args): return one(st,typ(ai,c,ap(name,*[cont(ai,st,a) for a in args])))
        return h
    for k in F.bodies:
        q=k.split('@')[0]
        if 'TreeTemplate' in q and q.endswith('::from_str') and '{closure' not in q: A.anchors[k]=pure('parsed')
        if '::TreeTemplate::front_matter' in q and '{closure' not in q and 'promoted' not in q: A.anchors[k]=pure('front')
    for k in list(A.anchors):
        if k.endswith('TreeTemplate::front_matter'): A.anchors[k]=pure('front')
    A.anchors['<templito::template::TreeTemplate as core::str::traits::FromStr>::from_str']=pure('parsed')
    A.anchors['templito::template::TreeTemplate::front_matter']=pure('front')
def one43(F,root):
    kind,f,locked,k,order=root
    A=work.interp(F); A.nomerge=True; anchors43(F,A)
    mode='ref' if 'list0' in order else 'ret'
    A.anchors[k]=scan_hook(k,order)
    if kind=='top':
        S=ScanTop(A,locked,order,mode); fr=(('top',()),)
        outs=A.run_body(f[1][0] if isinstance(f[1],tuple) else f[1],[('arg',0)],St()) if f[0]=='fn' else A.run_body(f[1],[f,('arg',0)],St())
    else:
        st=St(); args=[]; R={'order':order,'list0':('vec',())}
        for i,o in enumerate(order):
            if o=='list0': st.mem['RES']=('list0',); R['list0']=('list0',); args.append(('ref','RES',()))
            else: R[o]=('arg',i); args.append(('arg',i))
        S=ScanSpec(A,R,mode); fr=(('sc',()),)
        outs=A.run_body(k,args,st)
    sim=MSim(A,S.table(),S.heads); S.sim=sim
    sim.run(outs,fr)
    return dict(msgs=[(m,p) for m,p,s in sim.msgs],paths=len(outs),ev=sim.nev,loops=sim.nloops,good=sum(1 for s,v in outs if not(v[0]=='adt' and v[2]=='Err')))
def recursive(F,f):
    """functions reached from f that may call themselves and list a directory"""
    cg=effects.CallGraph(F); b=f[1][0] if isinstance(f[1],tuple) else f[1]
    r=[]
    for k in cg.reach([b])[0]:
        if k in F.bodies and F.bodies[k]['local'] and any(k in cg.reach([x])[0] for x in calls_of(F,k)): r.append(k)
    return [k for k in r if any('std::fs::read_dir' in q for q in names_of(F,k))]
def calls_of(F,k):
    out=[]
    for b in F.bodies[k]['blocks']:
        t=b['t']
        if t['k']=='call' and t['f'].get('k')=='const' and 'fn' in t['f']:
            x=t['f']['fn'].get('body')
            if x in F.bodies and F.bodies[x]['local']: out.append(x)
    return out
def names_of(F,k):
    return [t['f']['fn']['path'] for b in F.bodies[k]['blocks'] for t in(b['t'],) if t['k']=='call' and t['f'].get('k')=='const' and 'fn' in t['f']]
# ---------- file_img_dimensions
class DimSpec:
    heads=()
    def __init__(self,A,locked): self.A=A; self.locked=locked
    def table(self): return {k[2:]:getattr(self,k) for k in dir(self) if k.startswith('l_')}
    S=('arg',0)
    def path(self,s):
        e=self.A.seq_get(s,self.S,I0); t=project(e,'String',0)
        return (('join',P,t),('join',P,('disp',e))) if self.locked else (t,('disp',e))
    def l_top(self,A,s,rest):
        e=A.seq_get(s,self.S,I0)
        def f(s,v):
            if A.truth(s,ge(A.seq_len(s,self.S),I1)) is False or 'String' not in(A.variants_of(s,e) or('String',)): return anyerr(s,v)
            if self.locked and(refused(A,s,project(e,'String',0)) or refused(A,s,('disp',e))): return anyerr(s,v)
            return 'returns %s although a path is given'%short(v)
        return Expect(Ev('picture',(lambda s,p: p in self.path(s),),lambda s,r:(('d2',(r,)),)),ret=f)
    def l_d2(self,A,s,rest,r): return Cases([(s1,(('err',()),) if next(iter(s1.var[r]))=='Err' else (('d3',(project(r,'Ok',0),)),)) for s1 in variants(A,s,r,('Err','Ok'))])
    def l_err(self,A,s,rest): return Ret(anyerr)
    def l_d3(self,A,s,rest,x):
        def f(s,v):
            if not(v[0]=='adt' and v[2]=='Ok' and v[3][0][0]=='adt' and v[3][0][2]=='Map'): return 'returns %s, expected a map'%short(v)
            d,b=MSim.parts(None,v[3][0][3][0])
            if b!=('map0',) or set(d)!={('str','w'),('str','h')}: return 'the entries are %s, expected w and h'%', '.join(sorted(k[1] for k in d))
            for k,i,nm in(('w',0,'width'),('h',1,'height')):
                q=d[('str',k)]; good=(ap('image::image::GenericImageView::'+nm,x),project(x,None,i))+tuple(project(ap(n_,x),None,i) for n_ in('image::image::GenericImageView::dimensions','<image::dynimage::DynamicImage as image::image::GenericImageView>::dimensions'))
                if not(q[0]=='adt' and q[2]=='UInt' and(q[3][0] in good or q[3][0][0]=='ap' and q[3][0][1].endswith('::'+nm) and q[3][0][2:]==(x,))): return '%s is %s, expected the %s of the picture'%(k,short(q),nm)
        return Ret(f)
def picture(ai,st,c,args):
    r=ai.fresh('ret','picture'); s=st.copy(); s.ev=s.ev+(('picture',(cont(ai,st,args[0]),),r,c.span),); return [(s,typ(ai,c,r))]
def onedim(F,root):
    kind,f,locked=root[:3]
    A=work.interp(F); A.nomerge=True; io_anchors(A)
    for k in('image::dynimage::open','image::open','image::image_dimensions','image::dynimage::image_dimensions','image::io::free_functions::image_dimensions','imagesize::size'): A.anchors[k]=picture
    S=DimSpec(A,locked); sim=SIM.Sim(A,S.table(),S.heads); S.sim=sim
    outs=A.run_body(f[1][0] if isinstance(f[1],tuple) else f[1],[('arg',0)],St()) if f[0]=='fn' else A.run_body(f[1],[f,('arg',0)],St())
    sim.run(outs,(('top',()),))
    return dict(msgs=[(m,p) for m,p,s in sim.msgs],paths=len(outs),ev=sim.nev,loops=sim.nloops,good=sum(1 for s,v in outs if v[0]=='adt' and v[2]=='Ok'))
def any43(F,root): return onedim(F,root) if root[0]=='dim' else one43(F,root)
def c43(F,r):
    r.rule=('refinement: every path of scan_dir, of the function it recurses through, and of file_img_dimensions (accesses, loops, recursive calls, entries reported, result) matches a reference program, '
            'for the folder-locked and the free set; the recursive call is replaced by its own contract (its list grows by what it finds); obligation per helper and per recursive function')
    roots=[]; seen=set(); labs=[]
    for m,locked in(('with_folder_lock',True),('with_free_files',False)):
        w='locked' if locked else 'free'
        fs=registered(F,m,'file_img_dimensions')
        if not fs: r.ob('%s/file_img_dimensions is registered'%m,False,'no helper of this name is registered')
        else: roots.append(('dim',fs[-1],locked)); labs.append(('file_img_dimensions (%s)'%w,len(labs)))
        fs=registered(F,m,'scan_dir')
        if not fs: r.ob('%s/scan_dir is registered'%m,False,'no helper of this name is registered'); continue
        ks=recursive(F,fs[-1])
        if len(ks)!=1: r.ob('scan_dir (%s): one recursive listing function'%w,False,'%d functions list a directory and call themselves'%len(ks)); continue
        orders=scan_roles(F,ks[0])
        if not orders: r.ob('scan_dir (%s): parameters of the recursive function'%w,False,'the parts its parameters play are not recognised'); continue
        g=len(labs)
        for o in orders:
            roots.append(('top',fs[-1],locked,ks[0],o)); labs.append(('scan_dir (%s)'%w,g)) 
            roots.append(('rec',None,locked,ks[0],o)); labs.append(('recursion of scan_dir (%s)'%w,g))
    res=work.pool(F,roots,any43,400); tot=dict(paths=0,ev=0,loops=0); groups={}
    for (root,x,e),(lab,g) in zip(res,labs):
        groups.setdefault((g,lab),[]).append((root[4] if len(root)>4 else None,x,e))
    def bad(x,e): return e or (x['msgs'][0][0] if x['msgs'] else None)
    # of the two ways to read the two path parameters, the one that fits best is judged
    for g in sorted({g for g,_ in groups}):
        labsg=[l for gg,l in groups if gg==g]; orders=[o for o,_,_ in groups[(g,labsg[0])]]
        best=min(orders,key=lambda o:(sum(1 for l in labsg for oo,x,e in groups[(g,l)] if oo==o and bad(x,e)),sum(len(x['msgs']) if x else 99 for l in labsg for oo,x,e in groups[(g,l)] if oo==o)))
        for l in labsg:
            for o,x,e in groups[(g,l)]:
                if o!=best: continue
                if e: r.ob(l+': analysed',False,e); continue
                for k in tot: tot[k]+=x[k]
                r.ob(l+': follows the reference',not x['msgs'],'%d paths'%x['paths'] if not x['msgs'] else '%s (events: %s)'%x['msgs'][0])
                r.ob(l+': can succeed',x['good']>0,'%d paths'%x['good'])
    r.floor('functions',len(groups),6); r.count('paths',tot['paths']); r.count('accesses matched',tot['ev']); r.count('loops matched',tot['loops'])
    r.assumptions=['an entry the system cannot read while a directory is listed is left out; a file that cannot be opened likewise','front_matter is decided by C17, parsing by C10 and C37','a filter that is no valid regular expression filters nothing',
                   'width and height are those the image library reports']
