"""Helpers that build text: C22 (escaping), C31 (text of values), C33 (base64), C38 (text helpers), C39 (SVG), C40 (paths),
C41 (inspection, map), C30 (processes).  Each helper refines a reference program (see sa/sim.py)."""
import re
import work, summ, scan, helpers
from ai import *
from sim import *
from natives import variants,cont,setv,snoc,ap,chstr,some,sep_pat
from checks import lists as LS
from checks.lists import td,anyerr,FAIL,I0,I1,NIL,S,ANY,key
NUL=('str',''); NOIN=('none',)
def text(x): return ('disp',x)
class TSim(Sim):
    "a value known to be a String is its text (that is C31 for String)"
    def same(self,s,a,b):
        if Sim.same(self,s,a,b): return True
        if callable(b) or b is None: return False
        x,y=norm(a),norm(b)
        return (x!=a or y!=b) and Sim.same(self,s,x,y)
def norm(t):
    if not isinstance(t,tuple) or not t: return t
    if t[0]=='fld' and len(t)==4 and t[2]=='String' and rooted(t[1]): return ('disp',norm(t[1]))
    r=tuple(norm(x) for x in t)
    return r if r!=t else t
def rooted(t):
    while isinstance(t,tuple) and t[0] in('elem','fld'): t=t[1]
    return t==S
ENT={'&':('&amp;','&#38;','&#x26;','&#038;'),'<':('&lt;','&#60;','&#x3c;','&#x3C;','&#060;'),'>':('&gt;','&#62;','&#x3e;','&#x3E;','&#062;'),
     '"':('&quot;','&#34;','&#x22;','&#034;'),"'":('&#39;','&apos;','&#x27;','&#039;')}
KINDS=dict(Bool='bool',String='string',Int='int',UInt='uint',Float='float',List='list',Map='map',Template='template',Null='null',Date='date',Bytes='bytes')
FORMS=dict(html_esc=(1,2,3,4),xml_esc=(1,2,3,4),cat=(2,),join_with=(2,),bread_crumbs=(1,10,11))
class Text(LS.ListSpec):
    heads=('esc','ech','ecg','cat','jw','spl','con','sfi','dbg','len','mp','pj','bo','ba','bc','ex','dsp')
    def __init__(self,F,A,name): LS.ListSpec.__init__(self,F,A,name); self.ent={c:e[0] for c,e in ENT.items()}
    def literals(self,outs):
        "which of the possible references the helper uses for a character"
        lits=set()
        def f(t):
            for x in subterms(t):
                if x and x[0]=='str' and isinstance(x[1],str): lits.add(x[1])
        for s,v in outs: f(v)
        for L in self.A.loops.values():
            for e in L.edges:
                for x in e[2].values(): f(x)
        for c,es in ENT.items():
            u=[e for e in es if any(e in l for l in lits)]
            if len(u)==1: self.ent[c]=u[0]
    def need(self,A,s,n,go): return self.split(A,s,ge(A.seq_len(s,S),('int',n)),lambda s:go(*[A.seq_get(s,S,('int',i)) for i in range(n)]),lambda s:FAIL)
    def give(self,x): return (('give',(x,)),)
    def string(self,x): return self.give(td('String',x))
    def tried(self,A,s,r,f):
        "r is Ok(x): f(x); an error otherwise"
        return Cases([(s2,f(project(r,'Ok',0)) if 'Ok' in s2.var[r] else FAIL) for s2 in variants(A,s,r,('Err','Ok'))])
    # escaping
    # form 0: one text for all arguments; form 1: a text for each argument, joined in order;
    # form 2: a list of the texts of the arguments, put together at the end; form 3: the same, each text made by replacements
    form=0; chain=None
    def empty(self): return NUL if self.form<2 else NIL
    def plus(self,o,*xs):
        if self.form<2: return self.A.cat(o,*xs)
        return snoc(o,xs[0] if len(xs)==1 else self.A.cat(*xs))
    def whole(self,o,sep=NUL): return o if self.form<2 else ('joined',o,sep)
    def replaced(self,outs):
        "a chain of replacements that escapes a text: & first, every special character once"
        def f(t):
            seen=[]; b=t
            while b[0]=='ap' and b[1]=='str_replace' and len(b)==5:
                p,e=b[3],b[4]
                if p[0] in('int','char'): p=('str',chr(p[1]))
                if p[0]!='str' or e[0]!='str' or e[1] not in ENT.get(p[1],()): return None
                seen.append(p[1]); b=b[2]
            return b if len(seen)==5 and seen[-1]=='&' and set(seen)==set(ENT) else None
        ts=[v for s,v in outs]+[x for L in self.A.loops.values() for e in L.edges for x in e[2].values()]
        for t in ts:
            for x in subterms(t):
                if x and x[0]=='ap' and x[1]=='str_replace':
                    b=f(x)
                    if b is not None: self.chain=(x,b); return True
        return False
    def s_html_esc(self,A,s): return Go((('esc',(I0,self.empty())),))
    s_xml_esc=s_html_esc
    def l_esc(self,A,s,rest,i,o):
        def f(e):
            if self.chain: return (('esc',(iadd(i,I1),self.plus(o,subst(self.chain[0],{self.chain[1]:text(e)})))),)
            return (('ech',(text(e),I0,i,o)),) if self.form==0 else (('ecg',(text(e),I0,i,o,NUL)),)
        return self.more(A,s,S,i,f,self.string(self.whole(o)))
    def l_ecg(self,A,s,rest,t,j,i,o,p): return self.l_ech(A,s,rest,t,j,i,o,p)
    def l_ech(self,A,s,rest,t,j,i,o,p=None):
        cs=('chars',t); out=[]
        for s1,m in A.branch(s,ge(A.seq_len(s,cs),iadd(j,I1))):
            if not m: out.append((s1,(('esc',(iadd(i,I1),o if p is None else self.plus(o,p))),))); continue
            import natives
            c=natives.elem(A,s1,cs,j); work=[s1]
            nx=lambda x:(('ech',(t,iadd(j,I1),i,A.cat(o,x))),) if p is None else (('ecg',(t,iadd(j,I1),i,o,A.cat(p,x))),)
            for ch,e in self.ent.items():
                left=[]
                for s2 in work:
                    for s3,eq in A.branch(s2,mk_eq0(ladd(tolin(c),lconst(-ord(ch))))):
                        if eq: out.append((s3,nx(('str',e))))
                        else: left.append(s3)
                work=left
            out+=[(s2,nx(('chstr',c))) for s2 in work]
        return Cases(out)
    # text of values
    def s_cat(self,A,s): return Go((('cat',(I0,self.empty())),))
    def l_cat(self,A,s,rest,i,o): return self.more(A,s,S,i,lambda e:(('cat',(iadd(i,I1),self.plus(o,text(e)))),),self.string(self.whole(o)))
    def s_join_with(self,A,s): return self.need(A,s,2,lambda sep,l:(('jwx',(sep,l)),))
    def l_jwx(self,A,s,rest,sep,l): return self.kinds(A,s,l,lambda s,v,p:(('jw',(text(sep),p(),I0,self.empty())),) if v=='List' else FAIL)
    def l_jw(self,A,s,rest,sep,l,i,o):
        if self.form==2: return self.more(A,s,l,i,lambda e:(('jw',(sep,l,iadd(i,I1),self.plus(o,text(e)))),),self.string(self.whole(o,sep)))
        if A.prove_eq(s,i,I0) and i!=I0: i=I0
        def nx(e):
            return (('jw',(sep,l,iadd(i,I1),A.cat(o,sep,text(e)) if A.prove_ge(s,i,I1) else A.cat(o,text(e)))),)
        if not A.prove_ge(s,i,I1) and i!=I0:
            return Cases([(s2,rest0) for s2,t in A.branch(s,ge(i,I1)) for rest0 in [(('jw',(sep,l,i if t else I0,o)),)]])
        return self.more(A,s,l,i,nx,self.string(o))
    # split
    def s_split(self,A,s): return self.need(A,s,1,lambda x:(('sp0',(x,)),))
    def l_sp0(self,A,s,rest,x):
        return self.split(A,s,ge(A.seq_len(s,S),('int',2)),lambda s:(('sp1',(x,A.seq_get(s,S,I1))),),lambda s:(('sp2',(x,('str','\n'))),))
    def l_sp1(self,A,s,rest,x,y): return self.kinds(A,s,y,lambda s,v,p:(('sp2',(x,p() if v=='String' else ('str','\n'))),))
    def l_sp2(self,A,s,rest,x,sep): return self.kinds(A,s,x,lambda s,v,p:(('spl',(('splitseq','split',p(),sep),I0,NIL)),) if v=='String' else FAIL)
    def l_spl(self,A,s,rest,q,i,o): return self.more(A,s,q,i,lambda e:(('spl',(q,iadd(i,I1),snoc(o,td('String',e)))),),self.give(td('List',o)))
    # str_contains: some of the other arguments occurs in the first
    def s_str_contains(self,A,s): return self.need(A,s,2,lambda h,n:(('con',(text(h),I1)),))
    def l_con(self,A,s,rest,h,i): return self.more(A,s,S,i,lambda e:(('cone',(h,i,e)),),self.give(td('Bool',FALSE)))
    def l_cone(self,A,s,rest,h,i,e):
        return Cases([(s2,self.give(td('Bool',TRUE)) if t else (('con',(h,iadd(i,I1))),)) for n in [self.alias(s,('ap','str_contains',h,text(e)))] for s2,t in A.branch(s,n)])
    def alias(self,s,b):
        "the name the path has a fact about"
        for x in s.atom:
            if x[:2]==b[:2] and len(x)==len(b) and all(self.same(s,p,q) for p,q in zip(x[2:],b[2:])): return x
        return b
    def s_str_replace(self,A,s): return self.need(A,s,3,lambda x,n,r:self.string(ap('str_replace',text(x),text(n),text(r))))
    def s_str_replace_n(self,A,s):
        def f(s):
            x,n,r=[A.seq_get(s,S,('int',i)) for i in range(3)]
            return (('rn',(x,n,r)),)
        return self.split(A,s,ge(A.seq_len(s,S),('int',3)),f,lambda s:FAIL)
    def l_rn(self,A,s,rest,x,n,r):
        return self.split(A,s,ge(A.seq_len(s,S),('int',4)),lambda s:(('rn1',(x,n,r,A.seq_get(s,S,('int',3)))),),lambda s:(('rn2',(x,n,r,I1)),))
    def l_rn1(self,A,s,rest,x,n,r,k):
        def f(s,v,p):
            if v=='UInt': return (('rn2',(x,n,r,p())),)
            if v=='Int': return (('rn3',(x,n,r,p())),)
            return (('rn2',(x,n,r,I1)),)
        return self.kinds(A,s,k,f)
    def l_rn3(self,A,s,rest,x,n,r,k): return self.split(A,s,ge(k,I0),lambda s:(('rn2',(x,n,r,k)),),lambda s:(('rn2',(x,n,r,I1)),))
    def l_rn2(self,A,s,rest,x,n,r,k): return Go(self.string(ap('str_replacen',text(x),text(n),text(r),k)))
    def s_regex(self,A,s): return self.need(A,s,2,lambda x,g:(('rg',(text(x),ap('regex::regex::string::Regex::new',text(g)))),))
    def l_rg(self,A,s,rest,x,g): return self.tried(A,s,g,lambda r:self.give(td('Bool',ap('regex::regex::string::Regex::is_match',r,x))))
    def s_debug(self,A,s): return Go(self.string(NUL)) 
    # characters from their numbers; what is no character number is left out
    def s_string_from_ints(self,A,s): return Go((('sfi',(I0,NUL)),))
    def l_sfi(self,A,s,rest,i,o): return self.more(A,s,S,i,lambda e:(('sfe',(e,i,o)),),self.string(o))
    def l_sfe(self,A,s,rest,e,i,o):
        skip=(('sfi',(iadd(i,I1),o)),)
        def f(s,v,p): return (('sfn',(p(),i,o)),) if v in('Int','UInt') else skip
        return self.kinds(A,s,e,f)
    def l_sfn(self,A,s,rest,n,i,o):
        skip=(('sfi',(iadd(i,I1),o)),)
        return self.split(A,s,ge(n,I0),lambda s:(('sfc',(n,i,o)),),lambda s:skip)
    def l_sfc(self,A,s,rest,n,i,o):
        # the number may have been narrowed: any text made by from_u32 of it
        skip=(('sfi',(iadd(i,I1),o)),); r=None
        for x in s.var:
            if x[0]=='ap' and x[1]=='char::from_u32' and len(x)==3 and(self.A.prove_eq(s,x[2],n) or x[2][0]=='cast' and self.A.prove_eq(s,x[2][2],n)): r=x
        if r is None: raise Bad('the character of a number is not asked for')
        return Cases([(s2,(('sfi',(iadd(i,I1),A.cat(o,chstr(project(r,'Some',0))))),) if 'Some' in s2.var[r] else skip) for s2 in variants(A,s,r,('None','Some'))])
    # base64
    def s_as_base64(self,A,s): return self.need(A,s,1,lambda x:(('b64',(x,)),))
    s_from_base64=s_as_base64
    def l_b64(self,A,s,rest,x):
        def f(s,v,p):
            if v not in('String','Bytes'): return FAIL
            if self.name=='as_base64': return self.string(ap('base64::encode::encode',p()))
            return (('b64d',(ap('base64::decode::decode',p()),)),)
        return self.kinds(A,s,x,f)
    def l_b64d(self,A,s,rest,r): return self.tried(A,s,r,lambda x:self.give(td('Bytes',x)))
    # svg
    SVG={'xy':(2,('x','y'),2),'xywh':(4,('x','y','width','height'),4),'cxyrr':(4,('cx','cy','rx','ry'),4),'xy12':(4,('x','y','x2','y2'),4),'fl_stk':(3,('fill','stroke','stroke-width'),3)}
    def svg(self,A,s):
        n,at,u=self.SVG[self.name]
        def go(s,unit):
            a=[A.seq_get(s,S,('int',i)) for i in range(n)]; o=NUL
            for i,(x,nm) in enumerate(zip(a,at)):
                un=unit if self.name!='fl_stk' or i==2 else NUL
                o=A.cat(o,('str','%s%s="'%(' ' if i else '',nm)),text(x),un,('str','"'))
            return self.string(o)
        out=[]
        for s1,t in A.branch(s,ge(A.seq_len(s,S),('int',n))):
            if not t: out.append((s1,FAIL)); continue
            out+=[(s2,go(s2,text(A.seq_get(s2,S,('int',u))) if m else NUL)) for s2,m in A.branch(s1,ge(A.seq_len(s1,S),('int',u+1)))]
        return Cases(out)
    s_xy=s_xywh=s_cxyrr=s_xy12=s_fl_stk=svg
    def s_font(self,A,s): return self.need(A,s,1,lambda x:(('fo1',(text(x),)),))
    def l_fo1(self,A,s,rest,x): return self.split(A,s,ge(A.seq_len(s,S),('int',2)),lambda s:(('fo2',(x,text(A.seq_get(s,S,I1)))),),lambda s:self.font(A,x,NUL,None))
    def l_fo2(self,A,s,rest,x,f): return self.split(A,s,ge(A.seq_len(s,S),('int',3)),lambda s:self.font(A,x,text(A.seq_get(s,S,('int',2))),f),lambda s:self.font(A,x,NUL,f))
    def font(self,A,x,u,f):
        o=A.cat(('str','font-size="'),x,u,('str','" '))
        return self.string(A.cat(o,('str','font-family="'),f,('str','" ')) if f else o)
    # inspection
    def s_len(self,A,s): return Go((('len',(I0,I0)),))
    def l_len(self,A,s,rest,i,n): return self.more(A,s,S,i,lambda e:(('lene',(e,i,n)),),self.give(td('UInt',n)))
    def l_lene(self,A,s,rest,e,i,n):
        return self.kinds(A,s,e,lambda s,v,p:(('len',(iadd(i,I1),iadd(n,I1 if v not in('List','Map','String') else A.seq_len(s,p() if v!='Map' else ('entries',p()))))),))
    def s_is_null(self,A,s): return self.need(A,s,1,lambda x:(('isn',(x,('Null',))),))
    def s_is_num(self,A,s): return self.need(A,s,1,lambda x:(('isn',(x,('Int','UInt','Float'))),))
    def l_isn(self,A,s,rest,x,vs): return self.kinds(A,s,x,lambda s,v,p:self.give(td('Bool',TRUE if v in vs else FALSE)))
    def s_type_of(self,A,s): return self.need(A,s,1,lambda x:(('ty',(x,)),))
    def l_ty(self,A,s,rest,x): return self.kinds(A,s,x,lambda s,v,p:(('ty1',(('str',KINDS[v]),)),))
    def l_ty1(self,A,s,rest,k): return self.split(A,s,ge(A.seq_len(s,S),('int',2)),lambda s:(('ty2',(k,text(A.seq_get(s,S,I1)))),),lambda s:self.string(k))
    def l_ty2(self,A,s,rest,k,t):
        from natives import mk_eqs
        return Go(self.give(td('Bool',mk_eqs(t,k))))
    # map: names and values in turn
    def s_map(self,A,s): return Go((('mp',(I0,('map0',))),))
    def l_mp(self,A,s,rest,i,m):
        return self.split(A,s,ge(A.seq_len(s,S),iadd(i,('int',2))),lambda s:(('mpe',(A.seq_get(s,S,i),A.seq_get(s,S,iadd(i,I1)),i,m)),),lambda s:self.give(td('Map',m)))
    def l_mpe(self,A,s,rest,k,v,i,m): return self.kinds(A,s,canon(A,s,k),lambda s,w,p:(('mp',(iadd(i,('int',2)),('mins',m,p(),v))),) if w=='String' else FAIL)
    # paths
    def path(self,A,s): return Go((('pj',(I0,NUL)),))
    s_join=s_parent=s_base_name=s_base_name_sure=s_stem=s_full_stem=s_bread_crumbs=path
    def l_pj(self,A,s,rest,i,o): return self.more(A,s,S,i,lambda e:(('pj',(iadd(i,I1),('join',o,text(e)))),),(('pjd',(o,)),))
    def opt(self,A,s,r,f,none): return Cases([(s2,f(s2,project(r,'Some',0)) if 'Some' in s2.var[r] else none) for s2 in variants(A,s,r,('None','Some'))])
    def l_pjd(self,A,s,rest,o):
        P='std::path::Path::'; n=self.name
        if n=='join': return Go(self.string(o))
        if n=='parent': return self.opt(A,s,ap(P+'parent',o),lambda s,x:self.string(x),self.string(NUL))
        if n in('base_name','base_name_sure'): return self.opt(A,s,ap(P+'file_name',o),lambda s,x:(('utf',(x,)),),FAIL if n=='base_name' else self.string(NUL))
        if n=='stem': return self.opt(A,s,ap(P+'file_stem',o),lambda s,x:self.string(x),FAIL)
        if n=='full_stem': return self.opt(A,s,ap(P+'file_stem',o),lambda s,x:self.string(ap(P+'with_file_name',o,x)),FAIL)
        if n=='bread_crumbs': return Go((('bo',(some(o),NIL)),) if self.form>9 else (('ba',(o,NIL)),))
    def l_utf(self,A,s,rest,x):
        # the name of a path made of text is text
        u=('isutf8',x)
        if A.truth(s,u) is None: return Go(self.string(x))
        return Cases([(s2,self.string(x) if t else (('any',()),)) for s2,t in A.branch(s,u)])
    # the parents of a path: even forms put each in front, odd ones list them from the path upwards and turn the list around
    # at the end; the forms from 10 on hold the next path or nothing, the others a path whose parent is next
    def l_bo(self,A,s,rest,o,l):
        if o[0]=='adt' and o[2]=='Some': return Go((('bd',(o[3][0],l)),))
        return self.opt(A,s,o,lambda s,x:(('bd',(x,l)),),self.crumbs(l))
    def crumbs(self,l): return self.give(td('List',('rev',l) if self.form%2 else l))
    def crumb(self,p,l):
        x=td('String',p); return snoc(l,x) if self.form%2 else self.A.cat(('vec',(x,)),l)
    def l_bd(self,A,s,rest,p,l): return Go((('bo',(ap('std::path::Path::parent',p),self.crumb(p,l))),))
    def l_ba(self,A,s,rest,p,l): return Go((('bc',(p,self.crumb(p,l))),))
    def l_bc(self,A,s,rest,p,l): return self.opt(A,s,ap('std::path::Path::parent',p),lambda s,x:(('ba',(x,l)),),self.crumbs(l))
    def s_with_ext(self,A,s): return self.need(A,s,2,lambda p,e:(('we',(text(p),text(e))),))
    def l_we(self,A,s,rest,p,e):
        # an extension with a separator is an error (std panics on it)
        def f(s,v):
            if v[0]=='adt' and v[2]=='Err': return None if any(x[0]=='ap' and x[1]=='str_contains' and x[2]==e and sep_pat(x[3]) and t for x,t in s.atom.items()) else 'an error without a separator in the extension'
            return None if self.same(s,v,ok(td('String',ap('with_extension',p,e)))) else 'returns %s'%short(v)
        return Ret(f)
    # json text
    def l_wj(self,A,s,rest,x): return self.tried(A,s,ap('serde_json::ser::to_string',x),lambda t:self.string(t))
    def l_wj0(self,A,s,rest):
        # the JSON text of no values, written out or made by the writer
        r=ap('serde_json::ser::to_string',S)
        def f(s,v):
            if self.same(s,v,ok(td('String',('str','[]')))) or self.same(s,v,ok(td('String',project(r,'Ok',0)))): return None
            return None if s.var.get(r)==frozenset(['Err']) and anyerr(s,v) is None else 'returns %s for no arguments'%short(v)
        return Ret(f)
    def s_w_json(self,A,s):
        out=[]
        for s1,t in A.branch(s,ge(A.seq_len(s,S),I1)):
            if not t: out.append((s1,(('wj0',()),))); continue
            for s2,u in A.branch(s1,ge(A.seq_len(s1,S),('int',2))): out.append((s2,(('wj',(S if u else A.seq_get(s2,S,I0),)),)))
        return Cases(out)
    # processes
    def s_exec(self,A,s): return self.need(A,s,1,lambda p:(('ex',(I1,NIL,text(p),NOIN)),))
    def s_exec_stdin(self,A,s): return self.need(A,s,2,lambda p,i:(('ex',(('int',2),NIL,text(p),text(i))),))
    def l_ex(self,A,s,rest,i,l,p,inp): return self.more(A,s,S,i,lambda e:(('ex',(iadd(i,I1),snoc(l,text(e)),p,inp)),),(('run',(l,p,inp)),))
    def l_run(self,A,s,rest,l,p,inp):
        def f(s,ev):
            if ev[0]!='exec': return '%s happens where the program is to be started'%ev[0]
            how,prog,args,opts=ev[1]
            if not self.same(s,prog,p): return 'starts %s instead of %s'%(short(prog),short(p))
            if not self.same(s,args,l): return 'passes %s instead of %s'%(short(args),short(l))
            if opts[0]!='vec' or any(x[0]!='str' for x in opts[1]): return 'starts the program with %s'%short(opts)
            if any(x[1].startswith('stdout:') for x in opts[1]): return 'sends the output of the program elsewhere'
            if how=='status': return 'drops the output of the program'
            if inp!=NOIN and(how!='spawn' or ('str','stdin') not in opts[1] or ('str','stdout') not in opts[1]): return 'does not connect the standard input and output of the program'
            if how=='spawn' and ('str','stdout') not in opts[1]: return 'does not connect the standard output of the program'
            return (('ran',(ev[2],NOIN if how=='output' else ev[2],inp)),)
        return Any(f,ret=lambda s,v:'returns %s without starting the program'%short(v))
    def l_ran(self,A,s,rest,r,child,inp):
        "inp: text still to be written to the program"
        def f(s,ev):
            if ev[0]=='io:write':
                tgt,x=ev[1]
                if inp==NOIN: return 'writes %s as well'%short(x)
                if not(child!=NOIN and any(y==child for y in subterms(tgt))): return 'writes to %s'%short(tgt)
                return (('ran',(r,child,NOIN)),) if self.same(s,x,inp) else 'writes %s to the program, expected %s'%(short(x),short(inp))
            if ev[0].endswith('::flush') or ev[0].endswith('::drop'): return (('ran',(r,child,inp)),)
            if ev[0]=='std::process::Child::wait_with_output' and child!=NOIN:
                if inp!=NOIN: return 'waits for the program before writing its input'
                return (('ran',(ev[2],NOIN,NOIN)),)
            return '%s happens'%ev[0]
        def g(s,v):
            if v[0]=='adt' and v[2]=='Err': return None
            if inp!=NOIN: return 'returns %s without writing the input'%short(v)
            x=v[3][0] if v[0]=='adt' and v[2]=='Ok' else None
            x=x[3][0] if x and x[0]=='adt' and x[2]=='String' else None
            while x and x[0]=='ap' and 'lossy' in x[1]: x=x[2]
            if child==NOIN and x and x[0]=='fld' and x[-1]==1 and x[1]==project(r,'Ok',0): return None
            return 'returns %s, expected the output of the program'%short(v)
        return Any(f,ret=g)
    def s_env(self,A,s):
        return self.need(A,s,1,lambda x:(('env',(text(x),)),))
    def l_env(self,A,s,rest,x): return Expect(Ev('std::env::var',(x,),lambda s,r:(('envr',(r,)),)))
    def l_envr(self,A,s,rest,r):
        out=[]
        for s2 in variants(A,s,r,('Err','Ok')):
            if 'Ok' in s2.var[r]: out.append((s2,self.string(project(r,'Ok',0)))); continue
            for s3,t in A.branch(s2,ge(A.seq_len(s2,S),('int',2))): out.append((s3,self.give(A.seq_get(s3,S,I1)) if t else FAIL))
        return Cases(out)
def one(F,root):
    name,f=root; A=LS.engine(F); P=Text(F,A,name); sim=TSim(A,P.table(),P.heads); P.sim=sim
    outs=LS.start(A,f); P.literals(outs)
    P.texts=set()
    sim.run(outs,(('start',()),))
    for form in FORMS.get(name,()):      # the same result computed in another way
        if not sim.msgs: break
        P2=Text(F,A,name); P2.form=form; P2.ent=P.ent; P2.texts=set(); sim2=TSim(A,P2.table(),P2.heads); P2.sim=sim2
        if 2<form<9:
            if not P2.replaced(outs): continue
            P2.form=0 if form==3 else 2
        sim2.run(outs,(('start',()),))
        if not sim2.msgs: sim=sim2
    return dict(msgs=[(m,p) for m,p,s in sim.msgs],paths=len(outs),good=sum(1 for s,v in outs if anyerr(s,v)),loops=sim.nloops,unknown=sorted(A.unknown))
def run(F,r,names,meths=('with_defaults',)):
    fs={}
    for m in meths:
        rs,_=helpers.registrations(F,m)
        for reg in rs or []:
            for nm,f in reg:
                if nm[0]=='str': fs[nm[1]]=f
    for n in names:
        if n not in fs: r.ob('%s: registered'%n,False,'no helper of this name is registered by %s'%', '.join(meths))
    roots=[(n,fs[n]) for n in names if n in fs]; paths=loops=0
    r.floor('helpers',len(roots),len(names))
    for (n,f),x,e in work.pool(F,roots,one,300):
        w=F.bodies[key(f)]['span'] if key(f) in F.bodies else ''
        if e: r.ob('%s: analysed'%n,False,e,w); continue
        paths+=x['paths']; loops+=x['loops']
        r.ob('%s: does what the reference does'%n,not x['msgs'],'%d paths'%x['paths'] if not x['msgs'] else '%s (events: %s)'%x['msgs'][0],w)
        r.ob('%s: gives a result'%n,x['good']>0,'every path ends in an error',w)
    r.count('paths',paths); r.count('loops matched',loops)
def c22(F,r):
    r.rule=('every path and loop of the escaping helpers, for any argument list: each markup character becomes a complete reference of that very character, each other character itself, in order')
    run(F,r,('html_esc','xml_esc'))
    r.assumptions=['character and entity reference names are those of HTML and XML']
def c33(F,r):
    r.rule='both base64 helpers hand exactly the bytes of their argument to the encoder and decoder of one alphabet, and return what that yields, unchanged'
    run(F,r,('as_base64','from_base64'))
    r.assumptions=['base64 0.13: encode and decode (both with the standard alphabet) are inverse to each other']
def c38(F,r):
    r.rule='every path and loop of the text helpers, for any argument list, is matched by a reference program'
    run(F,r,('split','str_contains','str_replace','str_replace_n','string_from_ints','regex','debug'))
    r.assumptions=['splitting, searching and replacing in a text is that of the standard library, matching that of the regex crate']
def c39(F,r):
    r.rule='every path of the SVG helpers, for any argument list, yields the documented attributes in order'
    run(F,r,('xy','xywh','cxyrr','xy12','fl_stk','font'))
def c40(F,r):
    r.rule='every path and loop of the path helpers, for any argument list, is matched by a reference program over path operations'
    run(F,r,('join','parent','base_name','base_name_sure','stem','full_stem','with_ext','bread_crumbs'))
    r.assumptions=['path operations are those of the standard library']
def c41(F,r):
    r.rule='every path and loop of the helpers, for any argument list, is matched by a reference program'
    run(F,r,('len','is_null','is_num','type_of','map'))
def c30(F,r):
    r.rule=('every path and loop of the process helpers, for any argument list: starting a program and everything done with it is an event, matched against a reference program')
    run(F,r,('exec','exec_stdin','env'),('with_exec',))
    r.assumptions=['std::process::Command starts the program it is given with exactly the arguments it is given, without a shell']
