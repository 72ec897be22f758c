"""C29 (conversions between values and JSON, TOML, cards), C31 (text of a value), C34 (r_json reads what w_json writes).
Each function refines a reference program (see sa/sim.py)."""
import work, helpers
from ai import *
from sim import *
from natives import variants,snoc,ap
from checks import lists as LS
from checks import text as TX
from checks.lists import td,anyerr,FAIL,I0,I1,NIL,S,key
from checks.text import FORMS,Text,TSim,norm,text
T='templito::tdata::TData'; CD='card_format::card::'; X=('arg',0); SER=('arg',1)
N='serde_json::number::Number::'; SE='serde_core::ser::'
FN={'Display':'<%s as core::fmt::Display>::fmt'%T,'Serialize':'<%s as serde_core::ser::Serialize>::serialize::<S>'%T,'from_json':T+'::from_json','from_toml':T+'::from_toml',
    'From<&CData>':'<%s as core::convert::From<&%sCData>>::from'%(T,CD),'From<&Card>':'<%s as core::convert::From<&%sCard>>::from'%(T,CD),
    'From<&str>':'<%s as core::convert::From<&str>>::from'%T,'From<String>':'<%s as core::convert::From<alloc::string::String>>::from'%T,'From<usize>':'<%s as core::convert::From<usize>>::from'%T}
META={'from_json':'json','from_toml':'toml','From<&CData>':'cdata','From<&Card>':'card','Display':'display','Serialize':'ser','From<&str>':'fstr','From<String>':'fstr','From<usize>':'fuint'}
def val(x): return (('val',(x,)),)
class Conv(Text):
    heads=Text.heads+('cl','cm','dl','dj','se','sm','rc','mc')
    static=dict(Text.static,cl=(0,1),cm=(0,1),dl=(0,),se=(0,),sm=(0,),mc=(0,))
    def s_start(self): pass
    def l_start(self,A,s,rest): return getattr(self,'s_'+META.get(self.name,self.name))(A,s)
    def l_val(self,A,s,rest,x): return Ret(lambda s,v: None if self.same(s,v,x) else 'gives %s, expected %s'%(short(v),short(x)))
    def l_free(self,A,s,rest): return LS.Any(lambda s,e:(('free',()),),ret=lambda s,v:None)
    # containers: every element converted, in order
    def l_cl(self,A,s,rest,of,l,i,o): return self.more(A,s,l,i,lambda e:(('cl',(of,l,iadd(i,I1),snoc(o,ap(of,e)))),),val(td('List',o)))
    def entries(self,m):
        "the engine names the entries of a map by whether they come in order"
        for L in self.A.loops.values():
            for e in L.edges:
                for t in list(e[2].values())+[x for ev in e[3].ev for x in ev[1] if isinstance(x,tuple)]:
                    for x in subterms(t):
                        if x and x[0] in('entries','oentries') and len(x)==2 and x[1]==m: return x
        return ('oentries',m)
    def l_cm(self,A,s,rest,of,q,i,o):
        def nx(e):
            k,v=self.kv(e); return (('cm',(of,q,iadd(i,I1),('mins',o,k,ap(of,v)))),)
        return self.more(A,s,q,i,nx,val(td('Map',o)))
    def kv(self,e): return (e[1][0],e[1][1]) if e[0]=='tup' else (project(e,None,0),project(e,None,1))
    def lst(self,of,l): return (('cl',(of,l,I0,NIL)),)
    def mp(self,of,m,o=('map0',)): return (('cm',(of,self.entries(m),I0,o)),)
    # json
    def s_json(self,A,s):
        def f(s,v,p):
            if v=='Null': return val(td('Null'))
            if v=='Number': return (('num',(p(),)),)
            if v=='Array': return self.lst('of_json',p())
            if v=='Object': return self.mp('of_json',p())
            return val(td(v,p()))
        return self.kinds(A,s,X,f,('Null','Bool','Number','String','Array','Object'))
    def l_num(self,A,s,rest,n):
        i,u,d=[ap(N+'as_'+k,n) for k in('i64','u64','f64')]
        def isnt(s,r,q): return s.var.get(r)==frozenset(['None']) or set(s.var.get(r,()))=={'None'} or s.atom.get(ap(N+q,n)) is False
        def f(s,v):
            if v[0]!='adt' or v[2] not in('Int','UInt','Float'): return 'gives %s for a number'%short(v)
            x=v[3][0]
            if v[2] in('Int','UInt'):
                if any(self.same(s,x,project(r,'Some',0)) for r in(i,u)): return None
                return 'gives %s for an integer'%short(v)
            if not(s.atom.get(ap(N+'is_f64',n)) or isnt(s,i,'is_i64') and isnt(s,u,'is_u64')): return 'gives a float for a number that may be an integer'
            if isnt(s,d,'-') or self.same(s,x,project(d,'Some',0)): return None
            return 'gives %s for a float'%short(v)
        return Ret(f)
    # toml
    def s_toml(self,A,s):
        def f(s,v,p):
            if v=='Array': return self.lst('of_toml',p())
            if v=='Table': return self.mp('of_toml',p())
            if v=='Datetime': return val(td('String',text(p())))
            return val(td({'Integer':'Int','Boolean':'Bool'}.get(v,v),p()))
        return self.kinds(A,s,X,f,('String','Integer','Float','Boolean','Datetime','Array','Table'))
    # cards
    def s_cdata(self,A,s):
        def f(s,v,p):
            if v=='L': return self.lst('of_cdata',p())
            if v=='M': return self.mp('of_cdata',p())
            return val(td({'S':'String','N':'Int'}[v],p()))
        return self.kinds(A,s,X,f,('S','N','L','M'))
    def s_card(self,A,s):
        F=[project(X,'Card',i) for i in self.card]
        return Go(self.mp('of_cdata',F[2],('mins',('mins',('map0',),('str','Name'),td('String',F[0])),('str','Num'),td('UInt',F[1]))))
    card=(0,1,2)
    def s_fstr(self,A,s): return Go(val(td('String',X)))
    def s_fuint(self,A,s): return Go(val(td('UInt',X)))
    # text
    def s_display(self,A,s):
        o=('fout',)
        def f(s,v,p):
            if v=='List': return (('dl',(p(),I0,A.cat(o,('str','[')))),) if self.form==0 else (('dj',(p(),I0,NIL,o)),)
            if v=='Null': return self.string(A.cat(o,('str','NULL')))
            if v=='String': return self.string(A.cat(o,p()))
            if v=='Bool': return (('db',(p(),o)),)
            if v in('Int','UInt','Float'): return self.string(A.cat(o,text(p())))
            return (('free',()),)
        return self.kinds(A,s,X,f)
    def l_db(self,A,s,rest,b,o):
        t=A.truth(s,b)
        return Ret(lambda s,v: None if any(self.same(s,v,ok(td('String',A.cat(o,x)))) for x in [text(b)]+([('str','true' if t else 'false')] if t is not None else [])) else 'writes %s for a truth value'%short(v))
    def l_dj(self,A,s,rest,l,i,x,o): return self.more(A,s,l,i,lambda e:(('dj',(l,iadd(i,I1),snoc(x,text(e)),o)),),self.string(A.cat(o,('str','['),('joined',x,('str',',')),('str',']'))))
    def l_dl(self,A,s,rest,l,i,o):
        def nx(e,first): return (('dl',(l,iadd(i,I1) if not first else I1,A.cat(o,text(e)) if first else A.cat(o,('str',','),text(e)))),)
        first=A.prove_eq(s,i,I0)
        if not first and not A.prove_ge(s,i,I1): return Cases([(s2,(('dl',(l,i if t else I0,o)),)) for s2,t in A.branch(s,ge(i,I1))])
        return self.more(A,s,l,I0 if first else i,lambda e:nx(e,first),self.string(A.cat(o,('str',']'))))
    # serialisation: one call per value, one per element
    KIND={'Bool':'bool','String':'str','Int':'i64','UInt':'u64','Float':'f64'}
    def s_ser(self,A,s):
        def f(s,v,p):
            if v=='List': return (('ser1',(p(),'seq')),)
            if v=='Map': return (('ser0' if self.mcopy==2 else 'ser1',(p(),'map')),)
            if v=='Null': return (('snull',()),)
            if v in self.KIND: return (('sone',(self.KIND[v],p())),)
            return (('free',()),)
        return self.kinds(A,s,X,f)
    def l_snull(self,A,s,rest): return Ret(lambda s,v: None if v in(ap(SE+'Serializer::serialize_none',SER),ap(SE+'Serializer::serialize_unit',SER)) else 'null is written by %s'%short(v))
    def l_sone(self,A,s,rest,k,x):
        def f(s,v):
            if v[0]=='ap' and v[1]==SE+'Serializer::serialize_'+k and v[2]==SER and self.same(s,v[3],x): return None
            if v[0]=='ap' and v[1].endswith('Serialize>::serialize') and len(v)==4 and self.same(s,v[2],x) and v[3]==SER: return None
            return 'writes %s, expected the %s %s'%(short(v),k,short(x))
        return Ret(f)
    # the entries may be put into another map, or sorted by any order, before they are written
    mcopy=msort=0
    def l_ser0(self,A,s,rest,m,k): return Go((('mc',(self.entries(m),I0,('map0',),SER)),))
    def l_mc(self,A,s,rest,q,i,o,w):
        def nx(e):
            a,b=self.kv(e); return (('mc',(q,iadd(i,I1),('mins',o,a,b),w)),)
        return self.more(A,s,q,i,nx,(('ser1',(o,'map')),) if w==SER else (('se',(self.entries(o),'map',I0,w)),))
    def l_ssort(self,A,s,rest,q,k,w):
        def f(s,ev):
            if ev[0]!='sort': return '%s happens where the entries are to be sorted'%ev[0]
            if not self.same(s,ev[1][0],q): return 'sorts something else'
            return (('se',(('sorted',q,ev[2]),k,I0,w)),)
        return Any(f,ret=lambda s,v:'ends before the entries are written')
    def l_ser1(self,A,s,rest,l,k):
        def all_of(it):
            if it==l: return True
            if it[0]!='adt' or it[1]!='It' or it[2]!='slice': return False
            q,lo,hi=it[3][:3]; return q in((l,) if k=='seq' else (('entries',l),('oentries',l))) and lo==I0 and A.prove_eq(s,hi,A.seq_len(s,q))
        def whole(s,v):
            if v[0]=='ap' and v[1] in(SE+'Serializer::collect_'+k,) and v[2]==SER and all_of(v[3]): return None
            if v[0]=='ap' and v[1].endswith('Serialize>::serialize') and len(v)==4 and v[2] in(l,('sorted_map',l)) and v[3]==SER: return None
            return 'gives %s'%short(v)
        return Either(whole,(('ser2',(l,k)),))
    def l_ser2(self,A,s,rest,l,k):
        r=None
        for x in s.var:
            if x[0]=='ap' and x[1]==SE+'Serializer::serialize_'+k and x[2]==SER: r=x
        if r is None: raise Bad('no %s is written'%k)
        q=l if k=='seq' else self.entries(l)
        h=r[3]
        if h!=NONE:
            n=h[3][0] if h[0]=='adt' and h[2]=='Some' else None
            if n is None or not any(A.prove_eq(s,n,A.seq_len(s,y)) for y in((q,) if k=='seq' else (('entries',l),('oentries',l)))): raise Bad('announces %s elements'%short(h))
        if k=='map' and self.mcopy==1: return self.tried(A,s,r,lambda w:(('mc',(q,I0,('map0',),w)),))
        return self.tried(A,s,r,lambda w:(('se',(q,k,I0,w)),) if k=='seq' or not self.msort else (('ssort',(q,k,w)),))
    def l_se(self,A,s,rest,q,k,i,w): return self.more(A,s,q,i,lambda e:(('sel',(e,q,k,i,w)),),(('send',(k,w)),))
    def l_sel(self,A,s,rest,e,q,k,i,w):
        def f(s,ev):
            exp=[e] if k=='seq' else list(self.kv(e)); names=('SerializeSeq::serialize_element',) if k=='seq' else ('SerializeMap::serialize_entry',)
            if k=='map' and ev[0]==SE+'SerializeMap::serialize_key':
                if not self.same(s,ev[1][0],w) or not self.same(s,ev[1][1],exp[0]): return 'writes the name %s, expected %s'%(short(ev[1][1]),short(exp[0]))
                return (('skey',(ev[2],exp[1],q,k,i,dict(ev[4]).get(0,w) if len(ev)>4 else w)),)
            if ev[0] not in[SE+n for n in names]: return '%s happens where an element is to be written'%ev[0]
            if not self.same(s,ev[1][0],w): return 'writes an element elsewhere'
            for a,b in zip(ev[1][1:],exp):
                if not self.same(s,a,b): return 'writes %s, expected %s'%(short(a),short(b))
            w2=dict(ev[4]).get(0,w) if len(ev)>4 else w
            return (('sdone',(ev[2],q,k,iadd(i,I1),w2)),)
        return Any(f,ret=lambda s,v:'ends before all elements are written')
    def l_skey(self,A,s,rest,r,x,q,k,i,w): return self.tried(A,s,r,lambda _:(('sval',(x,q,k,i,w)),))
    def l_sval(self,A,s,rest,x,q,k,i,w):
        def f(s,ev):
            if ev[0]!=SE+'SerializeMap::serialize_value': return '%s happens where a value is to be written'%ev[0]
            if not self.same(s,ev[1][0],w) or not self.same(s,ev[1][1],x): return 'writes %s, expected %s'%(short(ev[1][1]),short(x))
            return (('sdone',(ev[2],q,k,iadd(i,I1),dict(ev[4]).get(0,w) if len(ev)>4 else w)),)
        return Any(f,ret=lambda s,v:'ends before all elements are written')
    def l_sdone(self,A,s,rest,r,q,k,i,w): return self.tried(A,s,r,lambda _:(('se',(q,k,i,w)),))
    def l_send(self,A,s,rest,k,w): return Ret(lambda s,v: None if v[0]=='ap' and v[1]==SE+('SerializeSeq' if k=='seq' else 'SerializeMap')+'::end' and self.same(s,v[2],w) else 'ends with %s'%short(v))
    # helpers
    def s_r_json(self,A,s): return self.need(A,s,1,lambda x:(('rj',(x,)),))
    def l_rj(self,A,s,rest,x): return self.kinds(A,s,x,lambda s,v,p:(('rj1',(p(),)),) if v=='String' else FAIL)
    def l_rj1(self,A,s,rest,t):
        r=[x for x in s.var if x[0]=='ap' and x[1].startswith('serde_json::de::from_') and self.same(s,x[2],t)]
        if not r: return Ret(lambda s,v:'gives %s without reading the text as JSON'%short(v))
        # what is no JSON may be read in another way
        return Cases([(s2,self.give(ap('of_json',project(r[0],'Ok',0))) if 'Ok' in s2.var[r[0]] else (('free',()),)) for s2 in variants(A,s,r[0],('Err','Ok'))])
    def s_r_card(self,A,s): return self.need(A,s,1,lambda x:(('rd',(x,)),))
    def l_rd(self,A,s,rest,x): return self.kinds(A,s,x,lambda s,v,p:(('rd1',(ap('card_format::parse_cards',p()),)),) if v=='String' else FAIL)
    def l_rd1(self,A,s,rest,r): return self.tried(A,s,r,lambda l:(('rc',(l,I0,NIL)),))
    def l_rc(self,A,s,rest,l,i,o): return self.more(A,s,l,i,lambda e:(('rc',(l,iadd(i,I1),snoc(o,ap('of_card',e)))),),self.give(td('List',o)))
NONE=('adt','core::option::Option','None',())
class CSim(TSim):
    def same(self,s,a,b):
        if TSim.same(self,s,a,b): return True
        if callable(b) or b is None or not isinstance(a,tuple): return False
        x,y=maps(a),maps(b)
        return (x!=a or y!=b) and TSim.same(self,s,x,y)
def maps(t):
    "insertions under different fixed names commute"
    if not isinstance(t,tuple) or not t: return t
    t=tuple(maps(x) for x in t)
    if t[0]=='mins' and len(t)==4 and t[1][0]=='mins' and t[2][0]=='str' and t[1][2][0]=='str' and t[1][2][1]>t[2][1]: return maps(('mins',maps(('mins',t[1][1],t[2],t[3])),t[1][2],t[1][3]))
    return t
def one(F,root):
    name,f=root; A=LS.engine(F); P=Conv(F,A,name); sim=CSim(A,P.table(),P.heads); sim.static=P.static; P.sim=sim; P.texts=set()
    if name in META:
        st=St(); n=F.bodies[f]['argc'] if 'argc' in F.bodies[f] else None
        if name=='From<&Card>': P.card=card_fields(F)
        args=[X] if name not in('Display','Serialize') else [X,SER]
        if name=='Display': st.mem['out']=('fout',); args=[X,('ref','out',())]
        outs=A.run_body(f,args,st)
        if name=='Display': outs=[(s,ok(td('String',A.read(s,'out',()))) if v==ok(UNIT) else v) for s,v in outs]
        good=len(outs)
    else:
        outs=LS.start(A,f); good=sum(1 for s,v in outs if anyerr(s,v))
    sim.run(outs,(('start',()),))
    if sim.msgs and (name in FORMS or name=='Display'):   # the same text put together from a list
        P2=Conv(F,A,name); P2.form=2; sim2=CSim(A,P2.table(),P2.heads); sim2.static=P2.static; P2.sim=sim2; P2.texts=set(); P2.card=getattr(P,'card',None)
        sim2.run(outs,(('start',()),))
        if not sim2.msgs: sim=sim2
    for mc,ms in((1,0),(0,1),(2,0),(2,1)) if name=='Serialize' else ():
        if not sim.msgs: break
        P2=Conv(F,A,name); P2.mcopy,P2.msort=mc,ms; sim2=CSim(A,P2.table(),P2.heads); sim2.static=P2.static; P2.sim=sim2; P2.texts=set()
        sim2.run(outs,(('start',()),))
        if not sim2.msgs: sim=sim2
    return dict(msgs=[(m,p) for m,p,s in sim.msgs],paths=len(outs),good=good,loops=sim.nloops)
def card_fields(F):
    for t in F.types:
        if isinstance(t,dict) and t.get('k')=='adt' and t.get('name')==CD+'Card' and t.get('variants'):
            fs=[f[0] for f in t['variants'][0]['f']]
            return tuple(fs.index(x) for x in('name','num','data'))
    return (0,1,2)
def run(F,r,convs,names):
    fs={}
    rs,_=helpers.registrations(F,'with_defaults')
    for reg in rs or []:
        for nm,f in reg:
            if nm[0]=='str': fs[nm[1]]=f
    for n in names:
        if n not in fs: r.ob('%s: registered'%n,False,'no default helper of this name')
    for c in convs:
        if FN[c] not in F.bodies: r.ob('%s: found'%c,False,'there is no '+FN[c])
    roots=[(c,FN[c]) for c in convs if FN[c] in F.bodies]+[(n,fs[n]) for n in names if n in fs]; paths=loops=0
    r.floor('functions',len(roots),len(convs)+len(names))
    for (n,f),x,e in work.pool(F,roots,one,300):
        k=f if n in FN else key(f); w=F.bodies[k]['span'] if k in F.bodies else ''
        if e: r.ob('%s: analysed'%n,False,e,w); continue
        paths+=x['paths']; loops+=x['loops']
        r.ob('%s: does what the reference does'%n,not x['msgs'],'%d paths'%x['paths'] if not x['msgs'] else '%s (events: %s)'%x['msgs'][0],w)
        r.ob('%s: gives a result'%n,x['good']>0,'every path ends in an error',w)
    r.count('paths',paths); r.count('loops matched',loops)
def c29(F,r):
    r.rule='every path and loop of the conversions, for any value: each kind becomes the corresponding kind with the same value, every element is converted (inner values by induction) and kept in order or under its name'
    run(F,r,('from_json','from_toml','From<&CData>','From<&Card>','From<&str>','From<String>','From<usize>','Serialize'),('w_json','r_card'))
    r.assumptions=['serde_json writes a value by the calls its Serialize implementation makes','card_format::parse_cards reads cards']
def c31(F,r):
    r.rule='every path and loop of the text of a value and of the helpers that put texts together, for any value'
    run(F,r,('Display',),('cat','join_with'))
    r.assumptions=['the text of a truth value, number or string is that of the standard library']
def c34(F,r):
    r.rule='w_json writes the value through Serialize, r_json reads the text as JSON and converts it; the tables of Serialize and from_json are inverse to each other, kind by kind (inner values by induction)'
    run(F,r,('from_json','Serialize'),('w_json','r_json'))
    r.assumptions=['serde_json reads the JSON it wrote (floats up to the rounding of the last digit, nesting below 128)']
