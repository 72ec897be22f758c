"""C44: the typed views of a value and the ways a host makes values and templates.  C45: rand stays in the range asked for."""
import work, helpers
from ai import *
from natives import variants
from sim import *
from sim import short
from checks import lists as LS
scan=LS.scan
from checks import conv as CV
from checks.lists import td,I0,I1,S,key,truthy
from checks.conv import T,X
NONE_='None'
def of(F,path): return [k for k in F.bodies if k==path or k.startswith(path+'::<') and '{closure' not in k]
def opt(v):
    "(True, x) for Some(x), (False, None) for None, None otherwise"
    if v[0]=='adt' and v[2]=='Some': return True,v[3][0]
    if v[0]=='adt' and v[2]=='None': return False,None
    return None
def kinds(A,s,x):
    x=canon(A,s,x)
    for s2 in variants(A,s,x,scan.ALLV): yield s2,(x[2] if x[0]=='adt' else next(iter(s2.var[x]))),x
def splitopt(A,s,v):
    "a result that is no constructor yet"
    if v[0]=='adt': return [(s,v)]
    return [(s2,('adt','Option','Some',(project(v,'Some',0),)) if next(iter(s2.var[v]))=='Some' else ('adt','Option','None',())) for s2 in variants(A,s,v,('None','Some'))]
def views(F,name):
    A=LS.engine(F); sim=Sim(A,{},()); K=('arg',1)
    f,=of(F,T+'::'+name)[:1] or [None]
    if not f: return dict(msgs=['there is no TData::'+name],paths=0)
    outs=A.run_body(f,[X,K] if name.startswith('get_') else [X],St()); msgs=[]
    def want(s,k,x):
        """what the view of a value of kind k gives: [(state, Some? , term or a boolean condition)]"""
        p=project(x,k,0)
        if name=='as_str': return [(s,k=='String',p)]
        if name=='as_float': return [(s,k in('UInt','Int','Float'),p if k=='Float' else ('i2f',p,64))]
        if name=='as_usize':
            if k=='UInt': return [(s,True,p)]
            return [(s1,t,p) for s1,t in A.branch(s,ge(p,I0))] if k=='Int' else [(s,False,None)]
        if name=='as_bool':
            if k in('Template','Date','Bytes'): return [(s,False,None)]
            return [(s1,True,('bool',t)) for s1,t in A.branch(s,truthy(k,x,A,s))]
        if k!='Map': return [(s,False,None)]
        m,e=('mapin',p,K),('mapval',p,K); out=[]
        for s1,t in A.branch(s,m):
            if not t: out.append((s1,False,None)); continue
            if name=='get_key_string': out.append((s1,True,('disp',e))); continue
            for s2,k2,e2 in kinds(A,s1,e): out.append((s2,k2=='String',project(e2,'String',0)))
        return out
    n=0
    for s0,v0 in outs:
        for s,v in splitopt(A,s0,v0):
            for s1,k,x in kinds(A,s,X):
                for s2,some,w in want(s1,k,x):
                    n+=1; g=opt(v)
                    if g is None: msgs.append('gives %s'%short(v,120)); continue
                    if g[0]!=some: msgs.append('gives %s for %s'%(short(v,120),k)); continue
                    if not some: continue
                    if w[0]=='bool' and name=='as_bool':
                        for s3,t in A.branch(s2,g[1]):
                            if t!=w[1]: msgs.append('gives %s for %s'%(short(v,120),k))
                    elif not same(A,sim,s2,g[1],w,name): msgs.append('gives %s for %s, expected %s'%(short(g[1],120),k,short(w,120)))
    return dict(msgs=msgs,paths=n)
def same(A,sim,s,a,b,name):
    if sim.same(s,a,b): return True
    # the text of an entry that is a text is that text
    if name=='get_key_string' and b[0]=='disp':
        e=canon(A,s,b[1])
        if s.var.get(e)==frozenset(['String']): return sim.same(s,a,project(e,'String',0))
    return False
class Lst(CV.Conv):
    "every element of a slice becomes a text, in order"
    heads=CV.Conv.heads+('sl1',)
    def s_x(self): pass
    def l_start(self,A,s,rest): return Go((('sl1',(I0,('vec',()))),))
    def l_sl1(self,A,s,rest,i,o): return self.more(A,s,X,i,lambda e:(('sl1',(iadd(i,I1),CV.snoc(o,td('String',e)))),),CV.val(td('List',o)))
def slices(F,f):
    A=LS.engine(F); P=Lst(F,A,f); sim=CV.CSim(A,P.table(),P.heads); sim.static=P.static; P.sim=sim; P.texts=set()
    outs=A.run_body(f,[X],St()); sim.run(outs,(('start',()),))
    return dict(msgs=[m for m,p,s in sim.msgs],paths=len(outs))
def split(A,s,v):
    if v[0]=='adt' or v[0]!='ap': return [(s,v)]
    return [(s2,('adt','Result',k,(project(v,k,0),))) for s2 in variants(A,s,v,('Err','Ok')) for k in s2.var[v]]
def loads(F,f):
    "the template parsed from the whole text of the file, or an error"
    A=LS.engine(F); outs=A.run_body(f,[X],St()); msgs=[]; n=0
    OPEN,READ=('std::fs::File::open','std::fs::OpenOptions::open'),('read_to_string',)
    for s,v in [(s2,w) for s1,v1 in outs for s2,w in split(A,s1,v1)]:
        n+=1
        io=[e for e in s.ev if e[0] in OPEN or e[0].endswith('read_to_string') or e[0].endswith('fs::read')]
        bad=[e for e in io if s.var.get(e[2])==frozenset(['Err'])]
        if not(v[0]=='adt' and v[2] in('Ok','Err')): msgs.append('gives %s'%short(v,150)); continue
        tx=[t for t in s.var if t[0]=='ap' and t[1]=='tt_parse']
        if v[2]=='Err':
            if not bad and not any(s.var[t]==frozenset(['Err']) for t in tx): msgs.append('refuses a file that is read and parsed: %s'%short(v,150))
            continue
        if bad or not io: msgs.append('gives a template although the file was not read'); continue
        first=io[0]
        if not sim_same(A,s,first[1][0],X): msgs.append('opens %s'%short(first[1][0],120)); continue
        r=v[3][0]
        if r[0]=='fld' and r[1][0]=='ap' and r[1][1]=='tt_parse' and r[2]=='Ok':
            t=r[1][2]; last=io[-1][2]
            if t in(('ioread',last),project(last,'Ok',0)): continue
            msgs.append('parses %s'%short(t,150)); continue
        msgs.append('gives %s'%short(v,150))
    return dict(msgs=msgs,paths=n)
def sim_same(A,s,a,b): return Sim(A,{},()).same(s,a,b) or (a[0]=='disp' and a[1]==b)
def one(F,root):
    kind,x=root
    return {'view':views,'slice':slices,'load':loads,'rand':rand}[kind](F,x)
VIEWS=('as_str','as_bool','as_usize','as_float','get_key_str','get_key_string')
def report(F,r,roots):
    paths=0
    for (k,n),x,e in work.pool(F,roots,one,300):
        nm=n if isinstance(n,str) else key(n)
        nm=nm.replace('templito::','').replace('alloc::string::','')
        if e: r.ob('%s: analysed'%nm,False,e); continue
        paths+=x['paths']; r.ob('%s: gives what the value holds'%nm if k!='rand' else 'rand: stays in the range asked for',not x['msgs'],'%d cases'%x['paths'] if not x['msgs'] else x['msgs'][0],F.bodies[n]['span'] if n in F.bodies else '')
        r.floor('cases of '+nm,x['paths'],1)
    r.count('cases',paths)
def c44(F,r):
    r.rule='every path of the typed views (as_str, as_bool, as_usize, as_float, get_key_str, get_key_string), of the conversions of lists of texts, and of load: compared, kind by kind, with what the value or file holds'
    sl=sorted(k for k in F.bodies if k.startswith('<%s as core::convert::From<&[' % T) and k.endswith('>::from')); ld=of(F,'templito::template::TreeTemplate::load')
    r.floor('conversions of lists of texts',len(sl),2); r.floor('load',len(ld),1)
    report(F,r,[('view',n) for n in VIEWS]+[('slice',k) for k in sl]+[('load',k) for k in ld])
    r.assumptions=['parsing a text is decided by C10, C11, C25, C36 and C37; the text of a value by C31']
# ---------------------------------------------------------------- C45
def rand(F,f):
    A=LS.engine(F); outs=LS.start(A,f); msgs=[]; n=0; sim=Sim(A,{},()); N=A.seq_len(St(),S)
    def draws(s,t): return [e for e in s.ev if e[0]=='rand' and e[2] in set(subterms(t))]
    def within(s,t,lo,hi):
        "t is drawn from lo.. up to but not including hi, and each of them may come"
        d=draws(s,t)
        if len(d)!=1 or len(d[0][1])!=2: return 'gives %s, which is not one number drawn at random'%short(t,120)
        a,b=d[0][1]
        if not A.prove_ge(s,t,lo) or not A.prove_ge(s,isub(hi,I1),t): return 'gives %s, which may lie outside %s to %s'%(short(t,100),short(lo,60),short(hi,60))
        if not A.prove_eq(s,isub(t,d[0][2]),isub(lo,a)): return 'gives %s instead of the number drawn'%short(t,120)
        if not A.prove_eq(s,isub(b,a),isub(hi,lo)): return 'draws from %s to %s instead of %s to %s'%tuple(short(x,60) for x in(a,b,lo,hi))
    def case(s,v,n2,k0,x0,k1,x1):
        good=v[0]=='adt' and v[2]=='Ok'; w=canon(A,s,v[3][0]) if good else None
        if v[0]!='adt' or good and w[0]!='adt' and w[0]!='elem': return 'gives %s'%short(v,120)
        p0=project(x0,k0,0)
        if n2=='none':
            if not good: return 'refuses to give a number without arguments'
            if not(w[2]=='Float' and draws(s,w[3][0]) and draws(s,w[3][0])[0][1]==() and w[3][0]==draws(s,w[3][0])[0][2]): return 'gives %s without arguments'%short(w,120)
            return None
        if n2=='two':
            p1=project(x1,k1,0)
            if k0!=k1 or k0 not in('Int','UInt','Float'): return 'gives %s for %s and %s'%(short(w,120),k0,k1) if good else None
            if k0=='Float':
                lt=A.truth(s,A.fcmp(s,'Lt',p0,p1)); fin=[A.truth(s,('ap','f64::is_finite',p)) for p in(p0,p1)]
                if not good: return None if lt is False or False in fin or any(t[0]=='ap' and t[1] in('f64::is_finite','f64::is_infinite','f64::is_nan') for t in s.atom) and lt is not True else 'refuses two numbers in order'
                d=draws(s,w)
                return None if w[2]=='Float' and len(d)==1 and w[3][0]==d[0][2] and len(d[0][1])==2 and sim.same(s,d[0][1][0],p0) and sim.same(s,d[0][1][1],p1) else 'gives %s for two floats'%short(w,120)
            if not good: return None if A.prove_ge(s,p0,p1) else 'refuses two numbers in order'
            return within(s,w[3][0],p0,p1) if w[0]=='adt' and w[2]==k0 else 'gives %s for two %ss'%(short(w,120),k0)
        if k0 in('Int','UInt'):
            if not good: return None if A.prove_ge(s,I0,p0) else 'refuses a positive number'
            return within(s,w[3][0],I0,p0) if w[0]=='adt' and w[2]==k0 else 'gives %s for one %s'%(short(w,120),k0)
        if k0=='Float':
            if not good: return 'refuses a number'
            if w[0]=='adt' and w[2]=='Float':
                t=w[3][0]; d=draws(s,t)
                if len(d)==1 and d[0][1]==() and t[0]=='fop' and t[1]=='Mul' and set(t[2:4])=={d[0][2],p0}: return None
            return 'gives %s for one float'%short(w,120)
        if k0=='List':
            nl=A.seq_len(s,p0)
            if not good: return None if A.prove_ge(s,I0,nl) else 'refuses a list that is not empty'
            if w[0]!='elem' or not sim.same(s,w[1],p0): return 'gives %s for a list'%short(w,120)
            return within(s,w[2],I0,nl)
        return 'gives %s for %s'%(short(w,120),k0) if good else None
    for s,v in outs:
        for s0,z in A.branch(s,ge(I0,N)):
            if z: n+=1; m=case(s0,v,'none','Null',td('Null'),'Null',td('Null')); msgs+=[m] if m else []; continue
            for s1,t in A.branch(s0,ge(N,('int',3))):
                for s2,u in ([(s1,False)] if t else A.branch(s1,ge(N,('int',2)))):
                    for s3,k0,x0 in kinds(A,s2,A.seq_get(s2,S,I0)):
                        for s4,k1,x1 in (kinds(A,s3,A.seq_get(s3,S,I1)) if u else [(s3,'Null',td('Null'))]):
                            n+=1; m=case(s4,v,'two' if u else 'one',k0,x0,k1,x1); msgs+=[m] if m else []
    return dict(msgs=msgs,paths=n)
def c45(F,r):
    r.rule='every path of rand, by number and kind of arguments: the result is drawn by the generator from exactly the range (or the positions of the list) the arguments name; failing paths are those of an empty range or list or of other kinds'
    rs,_=helpers.registrations(F,'with_defaults'); fs={nm[1]:f for reg in rs or [] for nm,f in reg if nm[0]=='str'}
    if 'rand' not in fs: r.ob('rand: registered',False,'no default helper of this name'); return
    report(F,r,[('rand',fs['rand'])])
    r.assumptions=['the generator gives values of the half-open range it is asked for (rand 0.7)']
