"""C02, C03: folder-locked helpers only touch paths inside their folder.  C28: the locked and the free file helpers
follow one reference.

Every file system access met while interpreting a helper (its closure, and recursive functions on their own) is an
event with the path term and the state it happens in; a path term is inside the folder when it is built from the folder
by steps that cannot leave it, given the facts of that state."""
import re, helpers, work, effects, natives
from ai import *
from natives import cont,setv,one,ap,variants
from sim import home,subterms,short
P=helpers.LOCK
# path arguments of the functions with file system authority
PATHS={'std::fs::'+k:v for k,v in {'read_dir':(0,),'metadata':(0,),'symlink_metadata':(0,),'read':(0,),'read_to_string':(0,),'canonicalize':(0,),'read_link':(0,),'exists':(0,),
 'File::open':(0,),'File::open_buffered':(0,),'File::create':(0,),'File::create_new':(0,),'File::options':(),'OpenOptions::open':(1,),'create_dir':(0,),'create_dir_all':(0,),'write':(0,),'remove_file':(0,),'remove_dir':(0,),'remove_dir_all':(0,),
 'rename':(0,1),'copy':(0,1),'hard_link':(0,1),'soft_link':(0,1),'set_permissions':(0,),'DirBuilder::create':(1,)}.items()}
PATHS.update({'std::path::Path::'+k:(0,) for k in 'exists try_exists is_file is_dir is_symlink metadata symlink_metadata canonicalize read_dir read_link'.split()})
PATHS.update({'image::open':(0,),'image::image_dimensions':(0,),'imagesize::size':(0,),'image::io::reader::ImageReader::open':(0,),'image::io::Reader::open':(0,),'std::os::unix::fs::symlink':(0,1)})
HANDLE=re.compile(r'^<&?(mut )?std::fs::(File|ReadDir|DirEntry).* as |^std::fs::(DirEntry|ReadDir|File|Metadata|FileType|Permissions|OpenOptions|DirBuilder)::|^image::.*GenericImageView|^<.* as std::io|^io:|^std::io::(Read|Write|BufRead|read_to_string)|^write$')
def pathargs(name):
    n=re.sub(r'::<.*?>(?=::|$)','',name); n=re.sub(r'^(image|imagesize)::(\w+::)+(\w+)$',r'\1::\3',n)
    if n in PATHS: return PATHS[n]
    for k in PATHS:
        if n.split('<')[0]==k: return PATHS[k]
    return None
# ---------- proofs about texts and paths
def forall(A,s,seq,test):
    """was every element of seq examined on this path?  test(state,elem)->bool at each step of a search loop that ran to the end"""
    n=A.seq_len(s,seq)
    if n[0]=='int' and n[1]<=8 and all(test(s,A.seq_get(s,seq,('int',i))) for i in range(n[1])): return True
    for e in list(s.ev)+[e for ev in A.chain for e in ev]:
        if e[0]!='loop': continue
        L=A.loops.get(e[1])
        if L is None: continue
        for q in L.nodes[e[2]].phis:
            if q in L.nodes[e[2]].ints and A.prove_ge(s,q,n) and cursor(A,L,e[2],q,seq,test): return True
    return False
def cursor(A,L,key,q,seq,test):
    """q counts the elements examined so far, from 0"""
    pick={key:q}; todo=[key]; 
    # backwards over the edges: the cursor at the source of each edge
    while todo:
        k=todo.pop(); q=pick[k]
        if k==L.entry:
            v=L.entry_sub.get(q,q)
            if not A.prove_eq(L.base,v,('int',0)): return False
        for a,b,sg,es in L.edges:
            if b!=k: continue
            v=sg.get(q,q); ok=False
            for p in ([pick[a]] if a in pick else [x for x in L.nodes[a].ints]):
                if A.prove_eq(es,v,p): ok=True
                elif A.prove_eq(es,v,iadd(p,('int',1))) and test(es,A.seq_get(es,seq,p)): ok=True
                if ok:
                    if a not in pick: pick[a]=p; todo.append(a)
                    break
            if not ok: return False
    return True
def notdots(A,s,e):
    "the text e is not '..'"
    if e[0]=='str': return e[1]!='..'
    return any(v is False and a[0] in('eqs','eqT') and e in a and ('str','..') in a for a,v in s.atom.items())
def noparent(A,s,S):
    """no component of the path S is .."""
    if S[0]=='str': return '..' not in S[1].split('/')
    def comp(es,e):
        vs=A.variants_of(es,e)
        if vs is not None: return 'ParentDir' not in vs
        return False
    if forall(A,s,('comps',S),comp): return True
    if forall(A,s,('compstrs',S),lambda es,e: notdots(A,es,e)): return True
    for sep in(('char',47),('str','/'),('int',47)):
        for f in('split','split_terminator','rsplit'):
            if forall(A,s,('splitseq',f,S,sep),lambda es,e: notdots(A,es,e)): return True
    return any(v is False and a[0]=='ap' and a[1] in('str_contains','contains') and a[2]==S and a[3]==('str','..') for a,v in s.atom.items())
def atom(A,s,b): return A.truth(s,b)
def relative(A,s,S):
    if S[0]=='str': return not S[1].startswith('/')
    return atom(A,s,('isabs',S)) is False
def contained(A,s,base,S):
    """join(base,S) lies inside base"""
    x=('join',base,S)
    r=('ap','strip_prefix',x,base)
    if not(noparent(A,s,S) or noparent(A,s,x) and base!=P or noparent(A,s,r)): return 'a component of %s may be ..'%short(S,80)
    if relative(A,s,S): return None
    if atom(A,s,('pstarts',x,base)) is not True: return '%s may be absolute and nothing shows that the joined path starts with the folder'%short(S,80)
    if atom(A,s,('isabs',base)) is True or atom(A,s,('isabs',x)) is False: return None
    return '%s may be absolute while the folder is the empty path'%short(S,80)
def entry_name(A,x):
    "a name read from a directory"
    return x[0]=='ap' and x[1]=='std::fs::DirEntry::file_name' or x[0]=='fld' and entry_name(A,x[1]) or x[0]=='ap' and x[1] in('std::path::Path::file_name',) and entry_path(A,x[2])
def entry_path(A,x): return x[0]=='ap' and x[1]=='std::fs::DirEntry::path' or x[0]=='fld' and entry_path(A,x[1])
def outside(A,s,x,assume=(),seen=None):
    """None when the path x is inside the folder, else the reason"""
    seen=seen if seen is not None else set()
    if x==P or x in assume or entry_path(A,x): return None
    if x[0]=='join':
        b,n=x[1],x[2]
        why=outside(A,s,b,assume,seen)
        if why: return why
        if entry_name(A,n): return None
        return contained(A,s,b,n)
    if x[0]=='phi':
        if x in seen: return None
        seen.add(x); L,k=home(A,x)
        if L is None: return 'the path is not known'
        if k==L.entry:
            why=outside(A,L.base,L.entry_sub.get(x,x),assume,seen)
            if why: return why
        for a,b,sg,es in L.edges:
            if b==k:
                why=outside(A,es,sg.get(x,x),assume,seen)
                if why: return why
        return None
    r=root_of(x)
    if r: return all_outside(A,s,r[0],r[1],assume,seen)
    return 'the path %s does not come from the folder'%short(x,80)
def root_of(x):
    """(sequence, projection) when x is (part of) an element taken from a sequence"""
    pr=()
    while True:
        if x[0]=='fld': pr=(x[2:],)+pr; x=x[1]
        elif x[0]=='elem': return x[1],pr
        elif x[0]=='ap' and x[1] in('pop','popd','last') : return x[2],pr
        else: return None
def proj_by(x,pr):
    for v,i in pr: x=project(x,v,i)
    return x
def all_outside(A,s,q,pr,assume,seen):
    """the projection pr of every element of sequence q is inside"""
    key=('seq',q,pr)
    if key in seen: return None
    seen.add(key)
    if q==('str',''): return None
    if q[0]=='vec':
        for e in q[1]:
            w=outside(A,s,proj_by(e,pr),assume,seen)
            if w: return w
        return None
    if q[0]=='snoc': return all_outside(A,s,q[1],pr,assume,seen) or outside(A,s,proj_by(q[2],pr),assume,seen)
    if q[0]=='cat':
        for p in q[1]:
            w=all_outside(A,s,p,pr,assume,seen)
            if w: return w
        return None
    if q[0] in('popd','slice'): return all_outside(A,s,q[1],pr,assume,seen)
    if q[0]=='phi':
        L,k=home(A,q)
        if L is None: return 'the sequence of paths is not known'
        if k==L.entry:
            w=all_outside(A,L.base,L.entry_sub.get(q,q),pr,assume,seen)
            if w: return w
        for a,b,sg,es in L.edges:
            if b==k:
                w=all_outside(A,es,sg.get(q,q),pr,assume,seen)
                if w: return w
        return None
    return 'the path comes from %s'%short(q,60)
def refused(A,s,S=None):
    """a fact of the state that shows a path argument (S) leads out of the folder"""
    def mine(x): return S is None or any(t==S for t in subterms(x))
    for a,v in s.atom.items():
        if a[0]=='pstarts' and a[2]==P and v is False and mine(a[1]): return True
        if a[0]=='isabs' and v is True and mine(a[1]) and a[1]!=P and s.atom.get(('isabs',P)) is False: return True
        if a[0] in('eqs','eqT') and v is True and ('str','..') in a and mine(a): return True
    for t,vs in s.var.items():
        if t[0]=='elem' and t[1][0]=='comps' and vs==frozenset(['ParentDir']) and mine(t): return True
    return False
# ---------- the accesses of one function
def run(F,f,args=None):
    A=work.interp(F); A.nomerge=True; A.evst={}; A.chain=()
    def onrec(st,body,args,c):
        s=st.copy(); r=A.fresh('ret','rec'); A.typed(r,c.dty)
        content=tuple(cont(A,s,a) for a in args)
        for i,a in enumerate(args):
            if a[0]=='ref': setv(A,s,a,('havoc',A.fresh('new'),'rec'))
        s.ev=s.ev+(('rec:'+body,content,r,c.span),); A.evst[r]=s
        return [(s,r)]
    A.onrec=onrec
    for k in touching(F):
        def h(ai,st,c,args,k=k):
            vals=[cont(ai,st,a) for a in args]
            if any(v==P or v[0] in('clo','fn') for v in vals): return None
            return onrec(st,k,args,c)
        A.anchors[k]=h
    if args is not None: return A,A.run_body(f,args,St())
    if f[0]=='fn': return A,A.run_body(f[1][0] if isinstance(f[1],tuple) else f[1],[('arg',0)],St())
    return A,A.run_body(f[1],[f,('arg',0)],St())
def touching(F):
    """local named functions that can reach a file system access"""
    if hasattr(F,'_touching'): return F._touching
    cg=effects.CallGraph(F); F._touching=[]
    for k,b in F.bodies.items():
        if b['kind']!='fn' or not b['local'] or b['closure'] or '@' in k: continue
        if not any(pathlike(F,b['locals'][i+1]) for i in range(b['argc'])): continue
        par,ext=cg.reach([k])
        if any(pathargs(f['path']) for f,_,_ in ext): F._touching.append(k)
    return F._touching
def all_events(A,outs):
    """every event of the final abstract executions, once, with the events of the enclosing loops' entries"""
    seen=set(); todo=[(s.ev,()) for s,v in outs]; lids=set()
    while todo:
        ev,ch=todo.pop()
        for e in ev:
            if e[0]=='loop':
                if e[1] in lids or e[1] not in A.loops: continue
                lids.add(e[1]); L=A.loops[e[1]]; c2=(L.base.ev,)+ch
                todo.append((L.base.ev,ch)); todo+=[(es.ev,c2) for a,b,sg,es in L.edges]
            elif e[2] is not None and e[2] not in seen: seen.add(e[2]); yield e,ch
def pathlike(F,ty):
    t=F.types[ty]
    while t['k'] in('ref','ptr'): t=F.types[t['t']]
    return t.get('k') in('str','param') or t.get('name') in('std::path::Path','std::path::PathBuf','alloc::string::String','str')
def analyse(F,root):
    """root=(label,function value or body key,indices of the parameters assumed inside or None)"""
    label,f,assume=root
    if assume is None: A,outs=run(F,f); asm=()
    else:
        n=F.bodies[f]['argc']; A,outs=run(F,f,[('arg',i) for i in range(n)]); asm=tuple(('arg',i) for i in assume)
    acc=[]; recs=[]
    for e,A.chain in all_events(A,outs):
        name=e[0]
        if name.startswith('rec:'):
            s=A.evst[e[2]]
            recs.append((name[4:],[i for i,x in enumerate(e[1]) if outside(A,s,x,asm) is None])); continue
        au=effects.authority(name)
        if au is None and pathargs(name) is None and not natives.IMPURE_EXTRA.search(name): continue
        pa=pathargs(name)
        if pa is None:
            if HANDLE.search(name): acc.append((name,au,e[3],None,'handle')); continue
            acc.append((name,au,e[3],'%s is not a file system call this analysis knows'%name,'unknown')); continue
        s=A.evst.get(e[2])
        for i in pa:
            x=e[1][i]
            if s is None: why='no state'
            else:
                why=outside(A,s,x,asm)
                if why and name.split('::')[-1] in('create_dir','create_dir_all') and x[0]=='fld' and x[1][0]=='ap' and x[1][1]=='std::path::Path::parent':
                    why=outside(A,s,x[1][2],asm)      # the parent of an inside path is inside, or the folder's own parent
            acc.append((name,au,e[3],why,'path'))
    bad=[]
    nref=0
    for s,v in outs:
        if refused(A,s):
            nref+=1
            if not(v[0]=='adt' and v[2]=='Err'): bad.append('answers %s although a path was refused'%short(v,80))
    return dict(acc=acc,recs=recs,bad=bad,nref=nref,outs=len(outs),visited=set(A.visited))
WRITEFN=re.compile(r'write|create|remove|rename|copy|link|set_|append|truncate|OpenOptions')
def decide(F,r,sets,wantwrite):
    roots=[]
    for m in sets:
        rs,_=helpers.registrations(F,m)
        if not rs: r.ob('registrations of '+m,False,'registration method not found'); continue
        for reg in rs:
            for n,f in reg: roots.append(('%s/%s'%(m,n[1] if n[0]=='str' else 'helper'),f,None))
    r.count('helpers',len(roots)); done={}; todo=roots; fns=set(); npath=0; nref=0; seen=set()
    while todo:
        nxt={}
        for root,x,e in work.pool(F,todo,analyse,240):
            label=root[0]
            if e: r.ob('%s: analysed'%label,False,e); continue
            fns|=x['visited']; nref+=x['nref']
            for name,au,span,why,kind in x['acc']:
                n=name.split('<')[0] if not name.startswith('<') else name
                key='%s: %s'%(label,name)
                if kind=='path': npath+=1
                seen.add(key); r.ob(key,why is None,why or '',span)
            r.ob('%s: a refused path is an error'%label,not x['bad'],x['bad'][0] if x['bad'] else '')
            for b,idx in x['recs']:
                k=nxt.setdefault((label,b),None)
                nxt[(label,b)]=set(idx) if k is None else k&set(idx)
        todo=[]
        for (label,b),idx in nxt.items():
            ps=tuple(sorted(idx)); k=(b,ps); base=label.split(' > ')[0]
            if k in done: continue
            done[k]=1; todo.append(('%s > %s'%(base,norm_path(F.bodies[b]['path']).split('::')[-1]),b,ps))
        if len(done)>40: r.ob('recursion',False,'too many cases'); break
    r.count('functions interpreted',len(fns)); r.count('file system accesses judged',npath); r.count('refusing paths',nref)
    return roots,npath,nref
RULE=('abstract interpretation of every helper registered by the set, from its MIR with an unknown argument list and an unknown folder; obligation per file system access (path-taking call): '
      'in the state it happens in, its path is built from the folder by steps that cannot leave it (joined text without parent components and not absolute elsewhere, names read from an inside directory); '
      'obligation per returning path: a path found to lead out ends in an error')
ASSUME=['paths are judged by their text: what symbolic links point to is outside the property','std::path functions behave as documented','unix path syntax']
def c02(F,r):
    r.rule=RULE
    roots,npath,nref=decide(F,r,['with_folder_lock'],False)
    r.floor('folder-locked helpers',len(roots),7); r.floor('path accesses',npath,8); r.floor('refusing paths found',nref,14)
    r.assumptions=ASSUME
def c03(F,r):
    r.rule=RULE+'; and no call that creates, changes or removes anything is reachable from the folder-locked read helpers (call graph)'
    roots,npath,nref=decide(F,r,['with_write_lock'],True)
    r.floor('write-locked helpers',len(roots),1); r.floor('path accesses',npath,2); r.floor('refusing paths found',nref,2)
    from checks import authority
    ms=authority.methods(F,'with_folder_lock'); r.floor('with_folder_lock',len(ms),1)
    par,hits=authority.scan(F,r,'with_folder_lock',ms,{'read'})
    bad=[]
    r.floor('functions reached from with_folder_lock',len(par),20)
    r.assumptions=ASSUME
# ---------- C28: one reference for the locked and the free helpers
import sim as SIM
from sim import Go,Cases,Ev,Expect,Ret
import scan
TD='templito::tdata::TData'
def io_anchors(A):
    """the different ways to spell an access, as one event each"""
    def ev(st,name,content,c,ty=None):
        r=A.fresh('ret',name); s=st.copy(); s.ev=s.ev+((name,content,r,c.span),)
        return s,r
    def meta(ai,st,c,args):
        s,r=ev(st,'metadata',(cont(ai,st,args[0]),),c); ai.typed(r,c.dty); return [(s,r)]
    def kind(name):
        def h(ai,st,c,args):
            s,r=ev(st,'metadata',(cont(ai,st,args[0]),),c)
            return [(s2,FALSE if next(iter(s2.var[r]))=='Err' else (ap('std::fs::Metadata::'+name,project(r,'Ok',0)) if name else TRUE)) for s2 in variants(ai,s,r,('Err','Ok'))]
        return h
    def opn(ai,st,c,args):
        s,r=ev(st,'open',(cont(ai,st,args[0]),),c); ai.typed(r,c.dty); return [(s,r)]
    def whole(k):
        def h(ai,st,c,args):
            s,r=ev(st,'open',(cont(ai,st,args[0]),),c); out=[]
            for s2 in variants(ai,s,r,('Err','Ok')):
                if next(iter(s2.var[r]))=='Err': out.append((s2,err(project(r,'Err',0)))); continue
                s3,r2=ev(s2,'read',(project(r,'Ok',0),('str',k)),c)
                for s4 in variants(ai,s3,r2,('Err','Ok')):
                    out.append((s4,err(project(r2,'Err',0)) if next(iter(s4.var[r2]))=='Err' else ok(('ioread',r2))))
            return out
        return h
    def rd(k):
        def h(ai,st,c,args):
            s,r=ev(st,'read',(cont(ai,st,args[0]),('str',k)),c); setv(ai,s,args[1],ai.cat(cont(ai,s,args[1]),('ioread',r))); ai.typed(r,c.dty); return [(s,r)]
        return h
    def rdir(ai,st,c,args):
        s,r=ev(st,'read_dir',(cont(ai,st,args[0]),),c); ai.typed(r,c.dty); return [(s,r)]
    M={'std::fs::metadata':meta,'std::path::Path::metadata':meta,'std::path::Path::is_file':kind('is_file'),'std::path::Path::is_dir':kind('is_dir'),'std::path::Path::exists':kind(None),'std::fs::exists':meta,
       'std::fs::File::open':opn,'std::fs::read_to_string':whole('str'),'std::fs::read':whole('bytes'),'std::fs::read_dir':rdir,'std::path::Path::read_dir':rdir}
    for t in('std::fs::File','&std::fs::File','std::io::buffered::bufreader::BufReader<std::fs::File>'):
        for tr in('alloc::io::read::Read','std::io::Read','core::io::read::Read'):
            M['<%s as %s>::read_to_string'%(t,tr)]=rd('str'); M['<%s as %s>::read_to_end'%(t,tr)]=rd('bytes')
    A.anchors.update(M)
def path_of(locked,x): return ('join',P,('disp',x)) if locked else ('disp',x)
def anyerr(s,v):
    if not(v[0]=='adt' and v[2]=='Err'): return 'returns %s where an error is due'%short(v)
class FileSpec:
    heads=('each','cat','dl','ents')
    def __init__(self,A,locked,kind): self.A=A; self.locked=locked; self.kind=kind; self.sim=None; self.lists=()
    def table(self): return {k[2:]:getattr(self,k) for k in dir(self) if k.startswith('l_')}
    S=('arg',0)
    def ret(self,mk):
        return Ret(lambda s,v: None if self.sim.same(s,v,ok(mk)) else 'returns %s, expected %s'%(short(v),short(ok(mk))))
    def refuse(self,e):
        if not self.locked: return None
        return lambda s,v: None if refused(self.A,s,('disp',e)) and anyerr(s,v) is None else 'returns %s although no path was refused'%short(v)
    def l_anyerr(self,A,s,rest): return Ret(anyerr)
    def l_bool(self,A,s,rest,b): return self.ret(('adt',TD,'Bool',(b,)))
    def step(self,A,s,i,ev,then,done):
        out=[]
        for s2,t in A.branch(s,ge(A.seq_len(s,self.S),iadd(i,('int',1)))): out.append((s2,(('do',(i,('str',ev))+then),) if t else done))
        return Cases(out)
    def l_each(self,A,s,rest,i): return self.step(A,s,i,'metadata',(),(('bool',(TRUE,)),))
    def l_do(self,A,s,rest,i,ev,*acc):
        e=A.seq_get(s,self.S,i); p=path_of(self.locked,e); n=ev[1]
        nx={'metadata':'md','open':'op','list':'li'}[n]
        evs=[Ev(n,(p,),lambda s,r:((nx,(i,r)+acc),))]
        return Expect(*evs,ret=self.refuse(e))
    def l_md(self,A,s,rest,i,r):
        out=[]
        for s1 in variants(A,s,r,('Err','Ok')):
            if next(iter(s1.var[r]))=='Err': out.append((s1,(('bool',(FALSE,)),))); continue
            for s2,t in A.branch(s1,ap('std::fs::Metadata::'+self.kind,project(r,'Ok',0))):
                out.append((s2,(('each',(iadd(i,('int',1)),)),) if t else (('bool',(FALSE,)),)))
        return Cases(out)
    # file, file_bytes
    def l_cat(self,A,s,rest,i,acc): return self.step(A,s,i,'open',(acc,),(('text',(acc,)),))
    def l_text(self,A,s,rest,acc): return self.ret(('adt',TD,'String' if self.kind=='file' else 'Bytes',(acc,)))
    def split(self,A,s,r,f): return Cases([(s1,(('anyerr',()),) if next(iter(s1.var[r]))=='Err' else f(project(r,'Ok',0))) for s1 in variants(A,s,r,('Err','Ok'))])
    def l_op(self,A,s,rest,i,r,acc): return self.split(A,s,r,lambda h:(('rd',(i,h,acc)),))
    def l_rd(self,A,s,rest,i,h,acc): return Expect(Ev('read',(h,('str','str' if self.kind=='file' else 'bytes')),lambda s,r:(('rd2',(i,acc,r)),)))
    def l_rd2(self,A,s,rest,i,acc,r): return self.split(A,s,r,lambda x:(('cat',(iadd(i,('int',1)),A.cat(acc,('ioread',r)))),))
    # dir
    def l_dir(self,A,s,rest):
        n=A.seq_len(s,self.S)
        return Cases([(s2,(('do',(('int',0),('str','list'))),) if t else (('dl',(('int',0),('vec',()))),)) for s2,t in A.branch(s,mk_eq0(tolin(isub(n,('int',1)))))])
    def l_dl(self,A,s,rest,i,acc): return self.step(A,s,i,'list',(acc,),(('list',(acc,)),))
    def l_list(self,A,s,rest,acc): return self.ret(('adt',TD,'List',(acc,)))
    def l_li(self,A,s,rest,i,r,*acc):
        if not acc:
            return Cases([(s1,(('fin',(r,next(iter(s1.var[r])))),)) for s1 in variants(A,s,r,('Err','Ok'))])
        return self.split(A,s,r,lambda x:(('dl',(iadd(i,('int',1)),natives.snoc(acc[0],x))),))
    def l_fin(self,A,s,rest,r,v):
        if v=='Err': return Ret(lambda s,v: None if v==r else anyerr(s,v))
        return self.ret(project(r,'Ok',0))
    # the listing of one directory
    def l_lst(self,A,s,rest,p): return Expect(Ev('read_dir',(p,),lambda s,r:(('lst2',(r,)),)))
    def l_lst2(self,A,s,rest,r): return self.split(A,s,r,lambda R:(('ents',(R,('int',0),('vec',()))),))
    def l_ents(self,A,s,rest,R,j,acc):
        out=[]
        for s2,t in A.branch(s,ge(A.seq_len(s,R),iadd(j,('int',1)))): out.append((s2,(('ent',(R,j,acc)),) if t else (('list',(acc,)),)))
        return Cases(out)
    def l_ent(self,A,s,rest,R,j,acc):
        e=A.seq_get(s,R,j); nx=iadd(j,('int',1)); out=[]
        for s1 in variants(A,s,e,('Err','Ok')):
            if next(iter(s1.var[e]))=='Err': out.append((s1,(('ents',(R,nx,acc)),))); continue
            t=ap('std::fs::DirEntry::file_name',project(e,'Ok',0))
            for s4,u in A.branch(s1,('isutf8',t)): out.append((s4,(('ents',(R,nx,natives.snoc(acc,('adt',TD,'String',(t,))))),) if u else (('anyerr',()),)))
        return Cases(out)
def listers(F):
    """local functions that list the directory given as their only argument"""
    return [k for k in touching(F) if F.bodies[k]['argc']==1]
def one28(F,root):
    name,f,locked=root
    A=work.interp(F); A.nomerge=True; io_anchors(A)
    S=FileSpec(A,locked,name if name!='lister' else 'dir'); sim=SIM.Sim(A,S.table(),S.heads); S.sim=sim
    if name=='dir':
        for k in listers(F):
            def h(ai,st,c,args):
                s=st.copy(); r=ai.fresh('ret','list'); ai.typed(r,c.dty); s.ev=s.ev+(('list',(cont(ai,st,args[0]),),r,c.span),); return [(s,r)]
            A.anchors[k]=h
    if name=='lister': outs=A.run_body(f,[('arg',0)],St()); fr=(('lst',(('arg',0),)),)
    else:
        outs=A.run_body(f[1][0] if isinstance(f[1],tuple) else f[1],[('arg',0)],St()) if f[0]=='fn' else A.run_body(f[1],[f,('arg',0)],St())
        fr={'is_file':(('each',(('int',0),)),),'is_dir':(('each',(('int',0),)),),'file':(('cat',(('int',0),('str',''))),),'file_bytes':(('cat',(('int',0),('vec',()))),),'dir':(('dir',()),)}[name]
    sim.run(outs,fr)
    return dict(msgs=[(m,p) for m,p,s in sim.msgs],paths=len(outs),ev=sim.nev,loops=sim.nloops,visited=set(A.visited),unknown=sorted(A.unknown))
NAMES28=('is_file','is_dir','file','file_bytes','dir')
def c28(F,r):
    r.rule=('refinement: every path of each helper (accesses, loops, result) matches the reference of its name, the same for the folder-locked and the free version up to the path each argument stands for; '
            'obligation per helper and per function that lists one directory')
    roots=[]
    for m,locked in(('with_folder_lock',True),('with_free_files',False)):
        rs,_=helpers.registrations(F,m)
        if not rs: r.ob('registrations of '+m,False,'registration method not found'); continue
        d={n[1]:f for reg in rs for n,f in reg if n[0]=='str'}
        for n in NAMES28:
            if n not in d: r.ob('%s/%s is registered'%(m,n),False,'no helper of this name is registered')
            else: roots.append((n,d[n],locked))
    n=len(roots)
    par=set()
    cg=effects.CallGraph(F)
    for nm,f,_ in roots:
        if nm=='dir': par|=set(cg.reach([f[1][0] if isinstance(f[1],tuple) else f[1]])[0])
    for k in listers(F):
        if k in par: roots.append(('lister',k,False))
    tot=dict(paths=0,ev=0,loops=0)
    for root,x,e in work.pool(F,roots,one28,300):
        lab='%s (%s)'%(root[0],'locked' if root[2] else 'free') if root[0]!='lister' else norm_path(F.bodies[root[1]]['path'])
        if e: r.ob('%s: analysed'%lab,False,e); continue
        for k in tot: tot[k]+=x[k]
        r.ob('%s follows the reference'%lab,not x['msgs'],'%d paths'%x['paths'] if not x['msgs'] else '%s (events: %s)'%x['msgs'][0],'')
    r.floor('helpers',n,10); r.count('paths',tot['paths']); r.count('accesses matched',tot['ev']); r.count('loops matched',tot['loops'])
    r.assumptions=['entries the system cannot read while a directory is listed are left out of the listing','the two helpers of a pair are given the same folder when compared']
