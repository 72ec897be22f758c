"""Summaries used when a function calls another analysed function: the callee is represented by one symbolic
term (pure functions) or one event (effectful ones) and is analysed on its own as a separate root."""
import ai as AIM
from ai import *
from natives import cont,setv,one,ap,variants
T='templito::tdata::TData'
EQ='<%s as core::cmp::PartialEq>::eq'%T; NE='<%s as core::cmp::PartialEq>::ne'%T
PC='<%s as core::cmp::PartialOrd>::partial_cmp'%T
ORDER=T+'::order'
ORDV=('Less','Equal','Greater')
ALLV=('Bool','Null','String','UInt','Int','Float','List','Map','Date','Template','Bytes')
OPTV=('None','Some'); RESV=('Err','Ok')
FLIP={'Less':'Greater','Equal':'Equal','Greater':'Less'}
def eqT(a,b):
    a,b=sorted((a,b),key=rep); return ('eqT',a,b)
def h_eq(ai,st,c,args):
    x,y=cont(ai,st,args[0]),cont(ai,st,args[1])
    for p,q in((x,y),(y,x)):
        # null is equal to null only (C21): the comparison is a test of the variant
        if p==('adt',T,'Null',()) and (q[0]!='adt'):
            return [(s,mk_not(b) if c.rpath.endswith('::ne') else b) for s in variants(ai,st,q,ALLV) for b in (('bool',s.var[q]==frozenset(['Null'])),)]
    b=eqT(x,y)
    return one(st,mk_not(b) if c.rpath.endswith('::ne') else b)
def flip(ai,st,t,names):
    return [(s,adt(ORD,FLIP[next(iter(s.var[t]))])) for s in variants(ai,st,t,names)]
def h_order(ai,st,c,args):
    a,b=cont(ai,st,args[0]),cont(ai,st,args[1])
    if rep(a)<=rep(b): return one(st,('ordT',a,b))
    return flip(ai,st,('ordT',b,a),ORDV)
def h_pcmp(ai,st,c,args):
    a,b=cont(ai,st,args[0]),cont(ai,st,args[1])
    if rep(a)<=rep(b): return one(st,('pcmpT',a,b))
    t=('pcmpT',b,a); out=[]
    for s in variants(ai,st,t,OPTV):
        if s.var[t]==frozenset(['None']): out.append((s,adt(OPT,'None')))
        else: out+=[(s2,some(r)) for s2,r in flip(ai,s,project(t,'Some',0),ORDV)]
    return out
def rel(op):
    want={'lt':('Less',),'le':('Less','Equal'),'gt':('Greater',),'ge':('Greater','Equal')}[op]
    def h(ai,st,c,args):
        out=[]
        for s,o in h_pcmp(ai,st,c,args):
            for s2 in ([s] if o[0]=='adt' else variants(ai,s,o,OPTV)):
                if (o[2] if o[0]=='adt' else next(iter(s2.var[o])))=='None': out.append((s2,FALSE)); continue
                q=o[3][0] if o[0]=='adt' else project(o,'Some',0)
                for s3 in ([s2] if q[0]=='adt' else variants(ai,s2,q,ORDV)):
                    x=q[2] if q[0]=='adt' else next(iter(s3.var[q])); out.append((s3,('bool',x in want)))
        return out
    return h
def pure(name,*drop):
    def h(ai,st,c,args):
        r=ap(name,*[cont(ai,st,a) for i,a in enumerate(args) if i not in drop]); ai.typed(r,c.dty); return one(st,r)
    return h
def deepc(ai,st,a,d=0):
    v=cont(ai,st,a)
    return v
def event(name,clobber=()):
    """an effectful call: its result is unknown, the listed (mutably borrowed) arguments are overwritten"""
    def h(ai,st,c,args):
        st=st.copy(); content=tuple(deepc(ai,st,a) for a in args)
        r=ai.fresh('ret',name); ai.typed(r,c.dty)
        post=[]
        for i in clobber:
            if args[i][0]=='ref': setv(ai,st,args[i],('havoc',ai.fresh('new'),name)); post.append((i,cont(ai,st,args[i])))
        st.ev=st.ev+((name,content,r,c.span,tuple(post)),)
        return one(st,r)
    return h
def h_getv(ai,st,c,args):
    v,p=cont(ai,st,args[0]),cont(ai,st,args[1])
    if p==('vec',()) or ai.prove_eq(st,ai.seq_len(st,p),('int',0)): return one(st,some(v))
    return one(st,('ap','getv',v,p))
def dyncall(ai,st,c,args):
    """a call of an unknown function value (a registered helper)"""
    st=st.copy(); r=ai.fresh('ret','helper'); ai.typed(r,c.dty)
    st.ev=st.ev+(('helper',tuple(cont(ai,st,a) for a in args),r,c.span),)
    return one(st,r)
P='templito::'
SC='templito::scope::Scope::'
TP='templito::tparam::TParam'
def base():
    A={EQ:h_eq,NE:h_eq,PC:h_pcmp,ORDER:h_order,
       '<%s as %s>::get_v'%(T,TP):h_getv,
       TP+'::get_v':h_getv,
       '<&card_format::card::Card as core::convert::Into<%s>>::into'%T:pure('of_card'),
       '<%s as core::convert::From<&card_format::card::Card>>::from'%T:pure('of_card'),
       '<%s as core::convert::From<&card_format::card::CData>>::from'%T:pure('of_cdata'),
       T+'::from_json':pure('of_json'),T+'::from_toml':pure('of_toml'),T+'::from_str':pure('td_parse'),
       P+'expr::Expr::run':event('Expr::run',(1,2)),
       P+'template::TreeItem::run':event('TreeItem::run',(1,2)),
       P+'pattern::Pattern::match_data':event('Pattern::match_data',(2,3)),
       P+'template::TreeTemplate::run_exp':event('run_exp',(2,)),
       P+'template::TreeTemplate::run':event('TreeTemplate::run',(2,)),
       '<%stemplate::TreeTemplate as core::str::traits::FromStr>::from_str'%P:pure('tt_parse'),
       P+'template::TreeTemplate::front_matter':event('front_matter'),
       P+'funcs::WithFuncs::with_defaults':pure('with_defaults'),
       '<%sfunc_man::BasicFuncs as %sfuncs::WithFuncs>::with_defaults'%(P,P):pure('with_defaults'),
       SC+'new':pure('Scope::new'),SC+'with_pnames':pure('Scope::with_pnames'),SC+'top':pure('Scope::top'),
       SC+'get':pure('Scope::get'),SC+'set':event('Scope::set',(0,)),SC+'set_root':event('Scope::set_root',(0,)),
       SC+'push':event('Scope::push',(0,)),SC+'pop':event('Scope::pop',(0,)),
       'dyncall':dyncall}
    for o in('lt','le','gt','ge'):
        A['<%s as core::cmp::PartialOrd>::%s'%(T,o)]=rel(o)
        A['core::cmp::PartialOrd::%s@%s'%(o,T)]=rel(o)
    return A
SUMMARISED=[EQ,PC,ORDER]
