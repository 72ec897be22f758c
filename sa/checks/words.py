"""C32: word_wrap keeps every character that is no blank, table every cell."""
import re
import work, summ, scan, helpers
from ai import *
from sim import *
from natives import variants,cont,setv,snoc,ap,chstr
from checks import lists as LS
from checks import text as TX
from checks.lists import td,anyerr,FAIL,I0,I1,NIL,S,key
from checks.text import Text,TSim,norm,text,NUL
BLANK=frozenset(' \t\n\r')
TRIMS=('str_trim','str_trim_start','str_trim_end','str_trim_matches','str_trim_start_matches','str_trim_end_matches')
def untrim(t):
    "t without the trims around it, and the patterns of these"
    pats=[]
    while isinstance(t,tuple) and t and t[0]=='ap' and t[1] in TRIMS: pats.append(t[3] if len(t)>3 else None); t=t[2]
    return t,pats
def charset(A,p,c):
    "the characters a pattern is true of, None if they cannot be listed"
    if p is None: return None
    if p[0]=='char': return frozenset([chr(p[1])])
    if p[0]=='str' and len(p[1])==1: return frozenset(p[1])
    if p[0]=='vec' and all(x[0]=='char' for x in p[1]): return frozenset(chr(x[1]) for x in p[1])
    if p[0] not in('clo','fn'): return None
    x=('sym','pat',repr(p)[:40]); A.tyr[x]=('char',21); r=set()
    try:
        for s,v in A.retry(St(),lambda s:A.invoke(s,p,[x],c)):
            for s2,t in A.branch(s,v):
                if not t: continue
                ks=[k for k in map(ord,'\t\n\x0b\x0c\r \u0085\u00a0') if A.prove_eq(s2,x,('int',k))]
                if ks: r.add(chr(ks[0])); continue
                ks=[a[2][1] for a,u in s2.atom.items() if u and a[0]=='ap' and a[1]=='str_contains' and a[2][0]=='str' and any(y==x for y in subterms(a[3]))]
                if not ks: return None
                r|=set(ks[0])
    except Dead: return None
    return frozenset(r)
class Words(Text):
    heads=Text.heads+('ww','jn','cv','tn','ts','wr','wf','nc','mc')
    static=dict(Text.static,jn=(0,),cv=(0,),ww=(0,))
    text=None
    # word_wrap: the pieces pushed are consecutive slices of the text
    def s_word_wrap(self,A,s): return self.need(A,s,2,lambda x,n:(('wwn',(x,n)),))
    def l_wwn(self,A,s,rest,x,n):
        self.text=text(x)
        go=(('ww',(text(x),I0,NIL)),)
        def f(s,v,p):
            if v=='UInt': return go
            if v=='Int': return (('wwi',(x,p())),)
            return FAIL
        return self.kinds(A,s,n,f)
    def l_wwi(self,A,s,rest,x,n): return self.split(A,s,ge(n,I0),lambda s:(('ww',(text(x),I0,NIL)),),lambda s:FAIL)
    def l_ww(self,A,s,rest,t,at,o):
        def f(s,ev):
            if ev[0]!='push': return '%s happens'%ev[0]
            l,x=ev[1]; y,pats=untrim(x)
            for p in pats:
                cs=self.chars(p)
                if cs is None or not cs<=BLANK: return 'a line loses more than blanks at its ends'
            a,b=self.bounds(A,s,t,y)
            if a is None: return 'a line is %s, no part of the text'%short(y)
            if not self.same(s,a,at): return 'a line starts at %s, the one before ended at %s'%(short(a),short(at))
            if not self.same(s,l,o): return 'a line is added to another list'
            return (('ww',(t,b,snoc(o,x))),)
        def g(s,v):
            if v[0]=='adt' and v[2]=='Err': return self.selfcheck(s,t,at,o)
            if not A.prove_ge(s,at,A.seq_len(s,t)): return 'the end of the text from %s on is left out'%short(at)
            m=self.nested('cv',(o,I0,NIL),s,v,lambda s,v,l:self.same(s,v,ok(td('List',l))))
            return 'the lines are not those found: %s'%m if m else None
        return Any(f,ret=g)
    def bounds(self,A,s,t,y):
        if y==t: return I0,A.seq_len(s,t)
        if y[0]=='slice' and y[1]==t: return y[2],y[3]
        if y==NUL: return (I0,I0)
        return None,None
    sets=None
    def chars(self,p):
        if p not in self.sets: self.sets[p]=charset(self.A,p,self.A.ctx)
        return self.sets[p]
    def nested(self,label,env,s,v,acc):
        "v is what the reference loop `label` gives"
        P=type(self)(self.F,self.A,self.name); P.sets=self.sets; P.acc=acc
        sim=TSim(self.A,P.table(),P.heads,ignore=('push',)); P.sim=sim
        # only what happens after the last loop the list is built in
        k=0; ps={x for t in env for x in subterms(t) if x and x[0]=='phi'}
        for i,e in enumerate(s.ev):
            if e[0]=='loop' and any(p in nd.phis for nd in self.A.loops[e[1]].nodes.values() for p in ps): k=i+1
        s=s.copy(); s.ev=s.ev[k:]
        sim.eager=True
        m=sim.one(s,v,((label,env),),())
        return m[0] if m else None
    def l_done(self,A,s,rest,x): return Ret(lambda s,v:None if self.acc(s,v,x) else 'gives %s, expected %s'%(short(v),short(x)))
    def l_cv(self,A,s,rest,l,i,o): return self.more(A,s,l,i,lambda e:(('cv',(l,iadd(i,I1),snoc(o,td('String',e)))),),(('done',(o,)),))
    def l_jn(self,A,s,rest,l,i,o): return self.more(A,s,l,i,lambda e:(('jn',(l,iadd(i,I1),A.cat(o,e))),),(('done',(o,)),))
    def selfcheck(self,s,t,at,o):
        """an error is returned after all lines are found: only where the text and the joined lines differ, both without the characters trimmed"""
        A=self.A
        if not A.prove_ge(s,at,A.seq_len(s,t)): return 'an error for a text and a width'
        def bare(x):
            if x[0]=='ap' and x[1]=='str_replace' and len(x)>4 and x[4]==NUL: return x[2],self.chars(x[3])
            return None,None
        for a,u in s.atom.items():
            if u or a[0]!='eqs' or len(a)!=3: continue
            for x,y in((a[1],a[2]),(a[2],a[1])):
                (p,ps),(q,qs)=bare(x),bare(y)
                if p!=t or q is None or ps is None or ps!=qs: continue
                if any(cs is None or not cs<=ps for cs in self.trimmed()): continue
                if q[0]=='joined' and q[2]==NUL and self.same(s,q[1],o): return None
                if self.nested('jn',(o,I0,NUL),s,q,lambda s,v,x:self.same(s,v,x)): continue
                return None
        return 'an error for a text and a width'
    def trimmed(self):
        r=set()
        for (l,x) in self.A.pushes: r|=set(untrim(x)[1])
        return [self.chars(p) for p in r]
    # table
    V=('arg',0)
    def s_table(self,A,s): return self.need(A,s,1,lambda x:(('ta',(text(x),)),))
    def l_ta(self,A,s,rest,x): return self.split(A,s,ge(A.seq_len(s,S),('int',2)),lambda s:(('tb',(x,text(A.seq_get(s,S,I1)))),),lambda s:(('tb',(x,NUL)),))
    def l_tb(self,A,s,rest,x,d):
        r=None
        for k in s.var:
            if k[0]=='ap' and k[1]=='parse' and len(k)==4 and k[3]==x and 'table::Table' in repr(k[2]): r=k
        if r is None: return Ret(lambda s,v:'returns %s without reading the text as a table'%short(v))
        return self.tried(A,s,r,lambda y:self.string(A.cat(A.cat(A.cat(('str','<table '),d),('str','>\n')),A.cat(y,('str','</table>\n')))))
    # the rows: V is the list of (head mark, continuation mark, cells), the first and last of the cells being outside the outer bars
    def s_rows(self,A,s): return Go((('tn',(I0,NUL,FALSE)),))
    def fld(self,e,i): return e[1][i] if e[0]=='tup' else ('fld',e,None,i)
    def head(self,A,s,h,e,go):
        "the head mark of this row added to h"
        x=self.fld(e,0); t=A.truth(s,h)
        return Go(go(TRUE if t else x if t is False else ('or',h,x)))
    def l_tn(self,A,s,rest,i,o,h): return self.more(A,s,self.V,i,lambda e:(('tr',(e,i,o,h)),),(('val',(o,)),))
    def l_val(self,A,s,rest,x): return Ret(lambda s,v: None if self.same(s,v,x) else 'gives %s, expected %s'%(short(v),short(x)))
    def l_tr(self,A,s,rest,e,i,o,h):
        return self.split(A,s,self.fld(e,1),lambda s:(('trh',(e,i,o,h)),),lambda s:(('trc',(e,i,o,self.fld(e,0))),))
    def l_trh(self,A,s,rest,e,i,o,h): return self.head(A,s,h,e,lambda h:(('trc',(e,i,o,h)),))
    def cells(self,A,s,e): r=self.fld(e,2); return r,A.seq_len(s,r)
    def l_trc(self,A,s,rest,e,i,o,h):
        r,n=self.cells(A,s,e)
        return self.split(A,s,ge(n,('int',4)),lambda s:(('nc',(r,n,i,o,h,I1,NIL)),),lambda s:(('tn',(iadd(i,I1),o,h)),))
    def l_nc(self,A,s,rest,r,n,i,o,h,j,c):
        return self.split(A,s,ge(n,iadd(j,('int',2))),lambda s:(('nc',(r,n,i,o,h,iadd(j,I1),snoc(c,A.seq_get(s,r,j)))),),lambda s:(('ts',(iadd(i,I1),o,h,c)),))
    form=0      # a row is written to the text so far; or made apart, and its cells with or without its opening tag, and then added
    def parts(self,A,o): return (NUL,A.cat(o,('str','<tr>'))) if self.form==0 else (o,('str','<tr>')) if self.form==1 else (A.cat(o,('str','<tr>')),NUL)
    def ended(self,A,b,o): return A.cat(A.cat(b,o),('str','</tr>\n'))
    def row(self,A,s,lab,o,h,c,more):
        out=[]
        for s2,t in A.branch(s,h): out.append((s2,((lab,(('str','th' if t else 'td'),)+self.parts(A,o)+(c,I0)+more),)))
        return Cases(out)
    def l_ts(self,A,s,rest,i,o,h,c): return self.more(A,s,self.V,i,lambda e:(('tsr',(e,i,o,h,c)),),(('wf0',(o,h,c)),))
    def l_wf0(self,A,s,rest,o,h,c): return self.row(A,s,'wf',o,h,c,())
    def cell(self,A,s,g,o,c,j): return A.cat(A.cat(A.cat(o,('str','<%s>'%g[1])),A.seq_get(s,c,j)),('str','</%s>'%g[1]))
    def l_wf(self,A,s,rest,g,b,o,c,j): return self.split(A,s,ge(A.seq_len(s,c),iadd(j,I1)),lambda s:(('wf',(g,b,self.cell(A,s,g,o,c,j),c,iadd(j,I1))),),lambda s:(('val',(self.ended(A,b,o),)),))
    def l_tsr(self,A,s,rest,e,i,o,h,c):
        return self.split(A,s,self.fld(e,1),lambda s:(('tsh',(e,i,o,h,c)),),lambda s:(('wr0',(e,i,o,h,c)),))
    def l_wr0(self,A,s,rest,e,i,o,h,c): return self.row(A,s,'wr',o,h,c,(e,i))
    def l_wr(self,A,s,rest,g,b,o,c,j,e,i): return self.split(A,s,ge(A.seq_len(s,c),iadd(j,I1)),lambda s:(('wr',(g,b,self.cell(A,s,g,o,c,j),c,iadd(j,I1),e,i)),),lambda s:(('trc',(e,i,self.ended(A,b,o),self.fld(e,0))),))
    def l_tsh(self,A,s,rest,e,i,o,h,c): return self.head(A,s,h,e,lambda h:(('tsc',(e,i,o,h,c)),))
    def l_tsc(self,A,s,rest,e,i,o,h,c):
        r,n=self.cells(A,s,e)
        return self.split(A,s,ge(n,('int',4)),lambda s:(('mc',(r,n,i,o,h,I0,c)),),lambda s:(('ts',(iadd(i,I1),o,h,c)),))
    def l_mc(self,A,s,rest,r,n,i,o,h,j,c):
        "cell j+1 of the row goes to the end of column j, or starts that column"
        def f(s):
            x=A.seq_get(s,r,iadd(j,I1))
            return self.split2(A,s,ge(A.seq_len(s,c),iadd(j,I1)),lambda s:('upd',c,j,A.cat(A.cat(A.seq_get(s,c,j),('str',' ')),x)),lambda s:snoc(c,x),lambda c2:(('mc',(r,n,i,o,h,iadd(j,I1),c2)),))
        out=[]
        for s2,t in A.branch(s,ge(n,iadd(j,('int',3)))):
            if t: out+=f(s2)
            else: out.append((s2,(('ts',(iadd(i,I1),o,h,c)),)))
        return Cases(out)
    def split2(self,A,s,b,t,f,go): return [(s2,go(t(s2) if x else f(s2))) for s2,x in A.branch(s,b)]
class WSim(TSim):
    "blanks around a cell do not matter"
    def same(self,s,a,b):
        if TSim.same(self,s,a,b): return True
        if callable(b) or b is None: return False
        x,y=bare(a),bare(b)
        if 'or' in(x[0],y[0]) and set((x[0],y[0]))&set(('or','bool')): return all(t==u for s2,t in self.A.branch(s,x) for s3,u in self.A.branch(s2,y))
        return (x!=a or y!=b) and TSim.same(self,s,x,y)
def bare(t):
    if not isinstance(t,tuple) or not t: return t
    t=untrim(t)[0]
    r=tuple(bare(x) for x in t)
    return r if r!=t else t
def pushes(A):
    A.pushes=set(); A.ctx=None
    import natives
    for n in('alloc::vec::Vec::push','alloc::collections::vec_deque::VecDeque::push_back'):
        def push(ai,st,c,args,n=n):
            A.ctx=c
            l=cont(ai,st,args[0]); x=args[1]; y=untrim(x)[0]
            st=st.copy(); setv(ai,st,args[0],snoc(l,x))
            if y==NUL or y[0]=='slice' or y[0]=='disp' or y[0]=='cat': A.pushes.add((l,x)); st.ev=st.ev+(('push',(l,x),UNIT,c.span),)
            return [(st,UNIT)]
        A.anchors[n]=push
def one(F,root):
    best=None
    for form in (0,1,2) if root[0]=='rows' else (0,):
        r=once(F,root,form)
        if not r['msgs']: return r
        best=best or r
    return best
def once(F,root,form):
    name,f=root; A=LS.engine(F)
    if name=='word_wrap': pushes(A)
    P=Words(F,A,name); P.sets={}; P.texts=set(); P.form=form
    sim=(WSim if name=='rows' else TSim)(A,P.table(),P.heads); P.sim=sim
    outs=LS.start(A,f) if name!='rows' else A.run_body(key(f),([f] if f[0]=='clo' else [])+[Words.V],St())
    sim.run(outs,(('start',()),))
    return dict(msgs=[(m,p) for m,p,s in sim.msgs],paths=len(outs),good=sum(1 for s,v in outs if name=='rows' or anyerr(s,v)),loops=sim.nloops,unknown=sorted(A.unknown))
ROW={"'*-' many([not \\n|]*=>#1 by '|') <Fin>":(True,True),"'*' !'-' many([not \\n|]*=>#1 by '|') <Fin>":(True,False),
     "'-' many([not \\n|]*=>#1 by '|') <Fin>":(False,True),"many([not \\n|]*=>#1 by '|') <Fin>":(False,False)}
def c32(F,r):
    r.rule=('word_wrap: on every path the lines pushed are consecutive slices of the text from its start to its end, trimmed of blanks only, and they are the result; '
            'table: the rows are read cell by cell up to the bars, and every path and loop that writes them is matched by a reference program')
    from checks import grammar as GR
    fs=LS.funcs(F); roots=[(n,fs[n]) for n in('word_wrap','table') if n in fs]
    for n in('word_wrap','table'):
        if n not in fs: r.ob('%s: registered'%n,False,'no default helper of this name')
    G=GR.Grammar(F); R=GR.Reader(G,{'Row','Fin','Table'}); R.busy=set(); T=R.short.get('Table'); forms=0
    if T is None: r.ob('Table: found',False,'there is no such rule')
    else:
        t=G.t[T]; where=F.bodies[G.keys[T]]['span']
        if t[0]=='map' and t[2][0] in('clo','fn'): roots.append(('rows',t[2]))
        else: r.ob('Table: understood',False,'no function makes the rows a text',where)
        for n,want in (('Row',None),('Fin',{"'\\n'",'end'}),('Table',{'many(<Row>=>#1) end'})):
            rule=R.short.get(n); R.busy=set()
            if rule is None: r.ob('%s: found'%n,False,'there is no such rule'); continue
            w=F.bodies[G.keys[rule]]['span']
            try: got=R.read(rule)
            except Exception as e: r.ob('%s: understood'%n,False,'%s %s'%(type(e).__name__,e),w); continue
            forms+=len({g for _,g,v in got})
            if n=='Row':
                bad=['%s => %s'%(g,v) for _,g,v in got if g not in ROW or re.sub(r'[?\s]','',v)!='(%s,%s,#1)'%ROW[g]]; lost=set(ROW)-{g for _,g,_ in got}
                r.ob('Row: its cells are the texts between the bars',not bad and not lost,'%d forms'%len(got) if not bad and not lost else 'reads %s'%bad[0] if bad else 'does not read %s'%sorted(lost)[0],w)
            else:
                g=[x for _,x,_ in got]
                r.ob('%s: reads %s'%(n,'the end of a row' if n=='Fin' else 'rows up to the end of the text'),set(g)==want,', '.join(sorted(set(g)))[:200],w)
    paths=loops=0
    r.floor('functions',len(roots),3); r.floor('forms of a row',forms,7)
    for (n,f),x,e in work.pool(F,roots,one,600):
        k=key(f) if isinstance(f,tuple) else f; w=F.bodies[k]['span'] if k in F.bodies else ''
        what={'rows':'table: every cell is written','word_wrap':'word_wrap: the lines are the text','table':'table: returns what is written'}[n]
        if e: r.ob('%s: analysed'%n,False,e,w); continue
        paths+=x['paths']; loops+=x['loops']
        r.ob(what,not x['msgs'],'%d paths'%x['paths'] if not x['msgs'] else '%s (events: %s)'%x['msgs'][0],w)
        r.ob('%s: gives a result'%n,x['good']>0,'every path ends in an error',w)
    r.count('paths',paths); r.count('loops matched',loops)
    r.assumptions=['a blank is a space, tab, newline or carriage return','gobble 0.6.3: its combinators run their parts as its source says']
