"""C12-C17, C24, C26: what rendering does, as refinement of reference programs (see sa/sim.py)."""
import work, scan
from ai import *
from sim import *
from natives import variants
TD='templito::tdata::TData'
RI='templito::template::TreeItem::run'
STR=lambda x: adt(TD,'String',x)
TH={'run_block':(None,'scope','tm','fm'),'Expr::run':(None,'scope','tm','fm'),'TreeItem::run':(None,'scope','tm','fm'),'Pattern::match_data':(None,None,'scope','tm','fm'),
    'run_exp':(None,None,'tm','fm'),'run_values':(None,None,'tm','fm'),'run_command':(None,None,'scope','tm','fm'),
    'Scope::set':('scope',),'Scope::set_root':('scope',),'Scope::push':('scope',),'Scope::pop':('scope',),
    'templito::temp_man::TempManager::insert_t':('tm',),'templito::temp_man::TempManager::get_t':('tm',)}
GT='templito::temp_man::TempManager::get_t'; IT='templito::temp_man::TempManager::insert_t'
def P(t,v,i=0): return project(t,v,i)
def F(*fr): return tuple(fr)
def err_(r): return (('err',(P(r,'Err'),)),)
def resplit(A,s,r,okf,rest=()):
    """Cases on a Result event value: error -> the whole program ends with that error"""
    out=[]
    for s2 in variants(A,s,r,('Err','Ok')):
        if next(iter(s2.var[r]))=='Err': out.append((s2,(('err',(P(r,'Err'),)),)))
        else: out.append((s2,okf(P(r,'Ok'))))
    return Cases(out)
def retv(sim,mk):
    """the function returns exactly this"""
    def f(s,v):
        if not sim.same(s,v,mk): return 'returns %s, expected %s'%(short(v),short(mk))
    return Ret(f)
def retb(A,b):
    def f(s,v):
        for s2,t in A.branch(s,v):
            if A.truth(s2,b) is not t: return 'returns %s where %s is due'%(str(t).lower(),short(b))
    return Ret(f)
def anyerr(s,v):
    if not(v[0]=='adt' and v[1]==RES and v[2]=='Err'): return 'returns %s where an error is due'%short(v)
def truth_cases(A,s,x,f):
    """cases on whether the TData x counts as true; f(state,bool)->frames"""
    out=[]
    for s1 in variants(A,s,x,scan.ALLV):
        v=next(iter(s1.var[x])) if x[0]!='adt' else x[2]; y=P(x,v)
        if v=='Bool': b=y
        elif v=='String' or v=='List': b=ge(A.seq_len(s1,y),('int',1))
        elif v=='Map': b=ge(A.seq_len(s1,('entries',y)),('int',1))
        elif v=='UInt': b=ge(y,('int',1))
        elif v=='Int': b=mk_not(mk_eq0(tolin(y)))
        elif v=='Float': b=mk_not(A.fcmp(s1,'Eq',y,('float','0')))
        else: b=FALSE
        for s2,t in A.branch(s1,b): out.append((s2,f(s2,t)))
    return Cases(out)
def both(A,s,i,n,more,done):
    """i<n ?"""
    out=[]
    for s2,t in A.branch(s,ge(n,iadd(i,('int',1)))): out.append((s2,more() if t else done()))
    return Cases(out)
def E(A,s,S,i): return A.seq_get(s,S,i)
class TreeSpec:
    """reference for rendering one template item"""
    heads=('items','let','for','params','sw','swp','plist','pmap','fm','fme','evals','mevals','first'); form=0
    def __init__(self,F,A):
        self.A=A; self.sim=None; self.F=F
    def table(self):
        return {k[2:]:getattr(self,k) for k in dir(self) if k.startswith('l_')}
    def l_err(self,A,s,rest,p): return retv(self.sim,err(p))
    def l_ok(self,A,s,rest,v): return retv(self.sim,ok(v))
    # block body: items in order, concatenated; rest[0] gets the text appended as its first term
    def l_items(self,A,s,rest,b,i,acc):
        whole=acc if not self.form else ('joined',acc,('str',''))
        return both(A,s,i,A.seq_len(s,b),lambda:(('item',(b,i,acc)),)+rest,lambda:rest_with(rest,('str','') if acc==('vec',()) else whole))
    def l_item(self,A,s,rest,b,i,acc):
        return Expect(Ev('TreeItem::run',(E(A,s,b,i),None,None,None),lambda s,r:(('itemr',(b,i,acc,r)),)+rest))
    def l_itemr(self,A,s,rest,b,i,acc,r):
        return resplit(A,s,r,lambda v:(('items',(b,iadd(i,('int',1)),self.plus(A,acc,v))),)+rest)
    def l_text(self,A,s,rest,v): return retv(self.sim,ok(v))
    def plus(self,A,acc,v):
        from natives import snoc
        return snoc(acc,v) if self.form else A.cat(acc,v)
    def block(self,b,*k): return (('items',(b,('int',0),('vec',()) if self.form else ('str',''))),)+k
    def expr(self,e,k): return Expect(Ev('Expr::run',(e,None,None,None),k))
    def l_start(self,A,s,rest,it):
        out=[]
        for s2 in variants(A,s,it,self.names()):
            v=next(iter(s2.var[it])); out.append((s2,(('v'+v,(it,)),)))
        return Cases(out)
    def names(self):
        for t in self.F.types:
            if t.get('name')=='templito::template::TreeItem' and t.get('variants'): return [x['name'] for x in t['variants']]
        raise Bad('TreeItem not found')
    def f(self,it,v,i): return P(it,v,i)
    def fi(self,v,name):
        for t in self.F.types:
            if t.get('name')=='templito::template::TreeItem' and t.get('variants'):
                for x in t['variants']:
                    if x['name']==v: return [n for n,_ in x['f']].index(name)
    def l_vString(self,A,s,rest,it): return retv(self.sim,ok(P(it,'String')))
    def l_vComment(self,A,s,rest,it): return retv(self.sim,ok(('str','')))
    def l_vLet(self,A,s,rest,it): return Go((('let',(P(it,'Let'),('int',0),('str','Scope::set'))),))
    def l_vExport(self,A,s,rest,it): return Go((('let',(P(it,'Export'),('int',0),('str','Scope::set_root'))),))
    def l_let(self,A,s,rest,v,i,how):
        return both(A,s,i,A.seq_len(s,v),lambda:(('let1',(v,i,how)),),lambda:(('ok',(('str',''),)),))
    def l_let1(self,A,s,rest,v,i,how): return self.expr(P(E(A,s,v,i),None,1),lambda s,r:(('let2',(v,i,how,r)),))
    def l_let2(self,A,s,rest,v,i,how,r): return resplit(A,s,r,lambda x:(('let3',(v,i,how,x)),))
    def l_let3(self,A,s,rest,v,i,how,x):
        return Expect(Ev(how[1],(None,P(E(A,s,v,i),None,0),x),lambda s,r:(('let',(v,iadd(i,('int',1)),how)),)))
    def l_vReturn(self,A,s,rest,it): return self.expr(P(it,'Return'),lambda s,r:(('return2',(r,)),))
    def l_return2(self,A,s,rest,r): return resplit(A,s,r,lambda x:(('bind',(('str','Scope::set_root'),('str','return'),x)),))
    def l_bind(self,A,s,rest,how,name,x): return Expect(Ev(how[1],(None,name,x),lambda s,r:(('ok',(('str',''),)),)))
    def l_vExp(self,A,s,rest,it): return self.expr(P(it,'Exp'),lambda s,r:(('show',(r,)),))
    def l_show(self,A,s,rest,r): return resplit(A,s,r,lambda x:(('ok',(('disp',x),)),))
    def l_vIf(self,A,s,rest,it): return self.expr(P(it,'If',self.fi('If','cond')),lambda s,r:(('if2',(it,r)),))
    def l_if2(self,A,s,rest,it,r):
        out=[]
        yes,no=P(it,'If',self.fi('If','yes')),P(it,'If',self.fi('If','no'))
        def els(s):
            o=[]
            for s2 in variants(A,s,no,('None','Some')):
                if next(iter(s2.var[no]))=='Some': o.append((s2,self.block(P(no,'Some'),('text',()))))
                else: o.append((s2,(('ok',(('str',''),)),)))
            return o
        for s2 in variants(A,s,r,('Err','Ok')):
            if next(iter(s2.var[r]))=='Err': out+=els(s2)
            else:
                for s3,fr in truth_cases(A,s2,P(r,'Ok'),lambda s,t:t).alts:
                    if fr: out.append((s3,self.block(yes,('text',()))))
                    else: out+=els(s3)
        return Cases(out)
    def l_vFor(self,A,s,rest,it): return self.expr(P(it,'For',self.fi('For','p')),lambda s,r:(('for2',(it,r)),))
    def l_for2(self,A,s,rest,it,r):
        def go(x): return (('for3',(it,x)),)
        return resplit(A,s,r,go)
    def l_for3(self,A,s,rest,it,x):
        out=[]
        for s2 in variants(A,s,x,scan.ALLV):
            v=next(iter(s2.var[x]))
            if v in('List','Map','UInt','Int'): out.append((s2,(('for',(it,x,('int',0),('str',''))),)))
            else: out.append((s2,(('anyerr',()),)))
        return Cases(out)
    def l_anyerr(self,A,s,rest): return Ret(anyerr)
    def kv(self,s,x,i):
        A=self.A; v=next(iter(s.var[x])); y=P(x,v)
        if v=='List': return A.seq_len(s,y),adt(TD,'UInt',i),E(A,s,y,i)
        if v=='Map':
            en=('oentries',y); e=E(A,s,en,i); return A.seq_len(s,en),STR(P(e,None,0)),P(e,None,1)
        if v=='UInt': return y,adt(TD,'UInt',i),adt(TD,'UInt',i)
        return y,adt(TD,'UInt',i),adt(TD,'Int',i)
    def l_for(self,A,s,rest,it,x,i,acc):
        n,_,_=self.kv(s,x,i)
        return both(A,s,i,n,lambda:(('forset',(it,x,i,acc)),),lambda:(('ok',(acc,)),))
    def l_forset(self,A,s,rest,it,x,i,acc):
        _,k,v=self.kv(s,x,i); kn,vn=P(it,'For',self.fi('For','k')),P(it,'For',self.fi('For','v'))
        return Expect(Ev('Scope::set',(None,kn,k),lambda s,r:(('for1',(it,x,i,acc,vn,v)),)),
                      Ev('Scope::set',(None,vn,v),lambda s,r:(('for1',(it,x,i,acc,kn,k)),)))
    def l_for1(self,A,s,rest,it,x,i,acc,n,v):
        return Expect(Ev('Scope::set',(None,n,v),lambda s,r:self.block(P(it,'For',self.fi('For','b')),('fornext',(it,x,i,acc)))))
    def l_fornext(self,A,s,rest,it,x,i,acc,t): return Go((('for',(it,x,iadd(i,('int',1)),A.cat(acc,t))),))
    def l_vBlock(self,A,s,rest,it): return Go(self.block(P(it,'Block',self.fi('Block','block')),('blk',(it,))))
    def l_blk(self,A,s,rest,it,t):
        ps=P(it,'Block',self.fi('Block','params'))
        return both(A,s,('int',0),A.seq_len(s,ps),lambda:(('blkat',(it,t)),),lambda:(('blkrun',(it,('vec',(STR(t),)))),))
    def l_blkat(self,A,s,rest,it,t): return Expect(Ev('Scope::set',(None,('str','@'),STR(t)),lambda s,r:(('params',(it,('int',0),('vec',()))),)))
    def l_params(self,A,s,rest,it,i,acc):
        ps=P(it,'Block',self.fi('Block','params'))
        return both(A,s,i,A.seq_len(s,ps),lambda:(('param1',(it,i,acc)),),lambda:(('blkrun',(it,acc)),))
    def l_param1(self,A,s,rest,it,i,acc): return self.expr(E(A,s,P(it,'Block',self.fi('Block','params')),i),lambda s,r:(('param2',(it,i,acc,r)),))
    def l_param2(self,A,s,rest,it,i,acc,r): return resplit(A,s,r,lambda x:(('params',(it,iadd(i,('int',1)),push(acc,x))),))
    def l_blkrun(self,A,s,rest,it,args):
        return Expect(Ev('run_values',(P(it,'Block',self.fi('Block','command')),args,None,None),lambda s,r:(('show',(r,)),)))
    def l_vAtLet(self,A,s,rest,it): return Go(self.block(P(it,'AtLet',1),('atlet',(it,('str','AtLet')))))
    def l_vAtExport(self,A,s,rest,it): return Go(self.block(P(it,'AtExport',1),('atlet',(it,('str','AtExport')))))
    def l_atlet(self,A,s,rest,it,v,t): return Go((('bind',(('str','Scope::set' if v[1]=='AtLet' else 'Scope::set_root'),P(it,v[1],0),STR(t))),))
    def l_vDefine(self,A,s,rest,it): return Go((('bind',(('str','Scope::set'),P(it,'Define',0),adt(TD,'Template',self.tmpl(it,'Define')))),))
    def l_vGlobal(self,A,s,rest,it):
        return Expect(Ev(IT,(None,P(it,'Global',0),self.tmpl(it,'Global')),lambda s,r:(('ok',(('str',''),)),)))
    def tmpl(self,it,v):
        for t in self.F.types:
            if t.get('name')=='templito::template::TreeTemplate' and t.get('variants'):
                fs=[n for n,_ in t['variants'][0]['f']]
                d={'v':P(it,v,2),'pnames':P(it,v,1)}
                return adt('templito::template::TreeTemplate',t['variants'][0]['name'],*[d[n] for n in fs])
    def l_vSwitch(self,A,s,rest,it): return self.expr(P(it,'Switch',0),lambda s,r:(('sw2',(it,r)),))
    def l_sw2(self,A,s,rest,it,r): return resplit(A,s,r,lambda x:(('sw',(it,x,('int',0))),))
    def cf(self,name):
        for t in self.F.types:
            if t.get('name')=='templito::template::Case' and t.get('variants'): return [n for n,_ in t['variants'][0]['f']].index(name),t['variants'][0]['name']
    def l_sw(self,A,s,rest,it,x,i):
        cs=P(it,'Switch',1)
        def pat():
            c=E(A,s,cs,i); pi,vn=self.cf('pats')
            return (('swp',(it,x,iadd(i,('int',1)),P(c,vn,pi),c,('int',0))),)
        return both(A,s,i,A.seq_len(s,cs),pat,lambda:(('ok',(('str',''),)),))
    def l_swp(self,A,s,rest,it,x,n,ps,c,j):     # n: the next case; ps: the patterns of this one, c
        return both(A,s,j,A.seq_len(s,ps),lambda:(('swm',(it,x,n,ps,c,j)),),lambda:(('sw',(it,x,n)),))
    def l_swm(self,A,s,rest,it,x,n,ps,c,j):
        return Expect(Ev('Pattern::match_data',(E(A,s,ps,j),x),lambda s,r:(('swr',(it,x,n,ps,c,j,r)),)))
    def l_swr(self,A,s,rest,it,x,n,ps,c,j,r):
        bi,vn=self.cf('block')
        return Cases([(s2,self.block(P(c,vn,bi),('text',())) if t else (('swp',(it,x,n,ps,c,iadd(j,('int',1)))),)) for s2,t in A.branch(s,r)])
    def l_vAs(self,A,s,rest,it): return self.expr(P(it,'As',self.fi('As','exp')),lambda s,r:(('as2',(it,r)),))
    def l_as2(self,A,s,rest,it,r): return resplit(A,s,r,lambda x:(('as3',(it,x)),))
    def l_as3(self,A,s,rest,it,x): return Expect(Ev('Pattern::match_data',(P(it,'As',self.fi('As','pat')),x),lambda s,r:(('as4',(it,r)),)))
    def l_as4(self,A,s,rest,it,r):
        return Cases([(s2,self.block(P(it,'As',self.fi('As','block')),('text',())) if t else (('ok',(('str',''),)),)) for s2,t in A.branch(s,r)])
    # ---- running a template
    def l_start_run_exp(self,A,s,rest):
        sc=('ap','Scope::with_pnames',('arg',1),self.tfld(('arg',0),'pnames'))
        if self.cur.get('scope') is not None: raise Bad('scope already exists')
        return Go(self.block(self.tfld(('arg',0),'v'),('exported',())))
    def l_exported(self,A,s,rest,t):
        def f(s,v):
            sc=self.sim.cur.get('scope')
            if not self.sim.same(s,v,ok(('tup',(t,('ap','Scope::top',sc))))): return 'returns %s instead of the text and the bindings of its own scope'%short(v)
        return Ret(f)
    def tfld(self,x,name):
        fs,vn=self.adtf('templito::template::TreeTemplate'); return P(x,vn,fs.index(name))
    def adtf(self,ty):
        for t in self.F.types:
            if t.get('name')==ty and t.get('variants'): return [n for n,_ in t['variants'][0]['f']],t['variants'][0]['name']
        raise Bad(ty+' not found')
    # ---- expressions
    def l_expr(self,A,s,rest,e):
        out=[]
        for s2 in variants(A,s,e,('Lit','Var','Command','List','Map')):
            v=next(iter(s2.var[e])); out.append((s2,(('e'+v,(e,)),)))
        return Cases(out)
    def l_eLit(self,A,s,rest,e): return retv(self.sim,ok(P(e,'Lit')))
    def l_eVar(self,A,s,rest,e):
        g=('ap','Scope::get',('arg',1),P(e,'Var')); out=[]
        for s2 in variants(A,s,g,OPTV): out.append((s2,(('anyerr',()),) if next(iter(s2.var[g]))=='None' else (('ok',(P(g,'Some'),)),)))
        return Cases(out)
    def l_eCommand(self,A,s,rest,e):
        return Expect(Ev('run_command',(P(e,'Command',0),P(e,'Command',1),None,None,None),lambda s,r:(('pass',(r,)),)))
    def l_pass(self,A,s,rest,r):
        def f(s,v):
            if v==r: return
            for s2 in variants(A,s,r,RESV):
                k=next(iter(s2.var[r]))
                if not self.sim.same(s2,v,adt(RES,k,P(r,k))): return 'returns %s, expected the result of the call'%short(v)
        return Ret(f)
    def l_eList(self,A,s,rest,e): return Go((('evals',(P(e,'List'),('int',0),('vec',()))),('listlit',())))
    def l_listlit(self,A,s,rest,v): return retv(self.sim,ok(adt(TD,'List',v)))
    def l_evals(self,A,s,rest,S,i,acc):
        return both(A,s,i,A.seq_len(s,S),lambda:(('eval1',(S,i,acc)),)+rest,lambda:rest_with(rest,acc))
    def l_eval1(self,A,s,rest,S,i,acc): return Expect(Ev('Expr::run',(E(A,s,S,i),None,None,None),lambda s,r:(('eval2',(S,i,acc,r)),)+rest))
    def l_eval2(self,A,s,rest,S,i,acc,r): return resplit(A,s,r,lambda x:(('evals',(S,iadd(i,('int',1)),push(acc,x))),)+rest)
    def l_eMap(self,A,s,rest,e): return Go((('mevals',(P(e,'Map'),('int',0),('map0',))),))
    def l_mevals(self,A,s,rest,S,i,acc):
        return both(A,s,i,A.seq_len(s,S),lambda:(('meval1',(S,i,acc)),),lambda:(('ok',(adt(TD,'Map',acc),)),))
    def l_meval1(self,A,s,rest,S,i,acc): return Expect(Ev('Expr::run',(P(E(A,s,S,i),None,1),None,None,None),lambda s,r:(('meval2',(S,i,acc,r)),)))
    def l_meval2(self,A,s,rest,S,i,acc,r): return resplit(A,s,r,lambda x:(('mevals',(S,iadd(i,('int',1)),('mins',acc,P(E(A,s,S,i),None,0),x))),))
    def l_cmd(self,A,s,rest,name,S):
        out=[]; left=[s]
        for k in('run','first','select'):
            nx=[]
            for s1 in left:
                for s2,t in A.branch(s1,('eqs',)+tuple(sorted((name,('str',k)),key=rep))):
                    if t: out.append((s2,(('c_'+k,(name,S)),)))
                    else: nx.append(s2)
            left=nx
        return Cases(out+[(s1,(('c_other',(name,S)),)) for s1 in left])
    def l_c_other(self,A,s,rest,name,S): return Go((('evals',(S,('int',0),('vec',()))),('call',(name,))))
    def l_call(self,A,s,rest,name,args): return Expect(Ev('run_values',(name,args,None,None),lambda s,r:(('pass',(r,)),)))
    def l_c_run(self,A,s,rest,name,S): return Go((('evals',(S,('int',0),('vec',()))),('run2',(name,S))))
    def l_run2(self,A,s,rest,name,S,acc):
        def no(s): return (('call',(name,acc)),)
        out=[]
        for s1,t in A.branch(s,ge(A.seq_len(s,acc),('int',1))):
            if not t: out.append((s1,no(s1))); continue
            x=E(A,s1,acc,('int',0))
            for s2 in variants(A,s1,x,scan.ALLV):
                v=x[2] if x[0]=='adt' else next(iter(s2.var[x]))
                out.append((s2,no(s2) if v!='Template' else (('runt',(P(x,'Template'),acc,('int',1))),)))
        return Cases(out)
    def l_runt(self,A,s,rest,t,S,lo):
        return Expect(Ev('run_exp',(t,lambda s,v:is_copy(A,s,v,S,lo),None,None),lambda s,r:(('tres',(r,)),)))
    def l_tres(self,A,s,rest,r): return resplit(A,s,r,lambda x:(('tval',(x,)),))
    def l_tval(self,A,s,rest,x):
        m=P(x,None,1); k=('str','return')
        return Cases([(s2,(('ok',(('mapval',m,k) if t else STR(P(x,None,0)),)),)) for s2,t in A.branch(s,('mapin',m,k))])
    def l_c_first(self,A,s,rest,name,S): return Go((('first',(S,('int',0))),))
    def l_first(self,A,s,rest,S,i):
        return both(A,s,i,A.seq_len(s,S),lambda:(('first1',(S,i)),),lambda:(('ok',(adt(TD,'Null'),)),))
    def l_first1(self,A,s,rest,S,i): return Expect(Ev('Expr::run',(E(A,s,S,i),None,None,None),lambda s,r:(('first2',(S,i,r)),)))
    def l_first2(self,A,s,rest,S,i,r):
        out=[]; nxt=(('first',(S,iadd(i,('int',1)))),)
        for s2 in variants(A,s,r,RESV):
            if next(iter(s2.var[r]))=='Err': out.append((s2,nxt)); continue
            x=P(r,'Ok')
            for s3 in variants(A,s2,x,scan.ALLV):
                out.append((s3,nxt if next(iter(s3.var[x]))=='Null' else (('ok',(x,)),)))
        return Cases(out)
    def l_c_select(self,A,s,rest,name,S):
        return Cases([(s2,(('anyerr',()),) if not t else (('sel0',(S,)),)) for s2,t in A.branch(s,ge(A.seq_len(s,S),('int',3)))])
    def l_sel0(self,A,s,rest,S): return Expect(Ev('Expr::run',(E(A,s,S,('int',0)),None,None,None),lambda s,r:(('sel1',(S,r)),)))
    def l_sel1(self,A,s,rest,S,r): return resplit(A,s,r,lambda x:(('sel2',(S,x)),))
    def l_sel2(self,A,s,rest,S,x):
        out=[]
        for s1 in variants(A,s,x,scan.ALLV):
            v=next(iter(s1.var[x])) if x[0]!='adt' else x[2]; y=P(x,v)
            if v=='UInt': out.append((s1,(('sel3',(S,iadd(y,('int',1)))),)))
            elif v=='Int':
                for s2,t in A.branch(s1,ge(y,('int',0))):
                    if t: out.append((s2,(('sel3',(S,iadd(y,('int',1)))),)))
                    else: out.append((s2,(('sel3',(S,('int',1))),)))   # a negative number is a true value
            elif v in('Date','Template','Bytes'): out.append((s1,(('anyerr',()),)))
            else:
                for s2,t in truth_cases(A,s1,x,lambda s,t:t).alts: out.append((s2,(('sel3',(S,('int',1 if t else 2))),)))
        return Cases(out)
    def l_sel3(self,A,s,rest,S,n):
        return Cases([(s2,(('sel4',(S,n)),) if t else (('anyerr',()),)) for s2,t in A.branch(s,ge(A.seq_len(s,S),iadd(n,('int',1))))])
    def l_sel4(self,A,s,rest,S,n): return Expect(Ev('Expr::run',(E(A,s,S,n),None,None,None),lambda s,r:(('pass',(r,)),)))
    # ---- calling a helper or a stored template
    def l_values(self,A,s,rest,name,args,fm):
        g=('ap',GF,fm,name); out=[]
        for s2 in variants(A,s,g,OPTV):
            out.append((s2,(('helper',(P(g,'Some'),args)),) if next(iter(s2.var[g]))=='Some' else (('stored',(name,args)),)))
        return Cases(out)
    def l_helper(self,A,s,rest,f,args): return Expect(Ev('helper',(f,args),lambda s,r:(('pass',(r,)),)))
    def l_stored(self,A,s,rest,name,args): return Expect(Ev(GT,(None,name),lambda s,r:(('stored2',(name,args,r)),)))
    def l_stored2(self,A,s,rest,name,args,r):
        out=[]
        for s2 in variants(A,s,r,RESV):
            out.append((s2,(('nohelper',(name,)),) if next(iter(s2.var[r]))=='Err' else (('runt',(P(r,'Ok'),args,('int',0))),)))
        return Cases(out)
    def l_nohelper(self,A,s,rest,name):
        def f(s,v):
            m=anyerr(s,v)
            if m: return m
            if not any(x==name for x in subterms(v)): return 'the error does not name the function that was called: %s'%short(v)
        return Ret(f)
    # ---- patterns
    def l_match(self,A,s,rest,p,d):
        out=[]
        for s2 in variants(A,s,p,('Map','List','Val','Filter','Capture','Any')): out.append((s2,(('p'+next(iter(s2.var[p])),(p,d)),)))
        return Cases(out)
    def l_bool(self,A,s,rest,b): return retb(A,b)
    def l_pAny(self,A,s,rest,p,d): return retb(A,TRUE)
    def l_pVal(self,A,s,rest,p,d):
        import summ
        return retb(A,summ.eqT(P(p,'Val'),d))
    def l_pList(self,A,s,rest,p,d):
        return self.kind(s,d,'List',lambda y:(('plist',(P(p,'List'),y,Z)),))
    def kind(self,s,d,want,f):
        out=[]
        for s2 in variants(self.A,s,d,scan.ALLV):
            v=d[2] if d[0]=='adt' else next(iter(s2.var[d]))
            out.append((s2,f(P(d,want)) if v==want else (('bool',(FALSE,)),)))
        return Cases(out)
    def l_plist(self,A,s,rest,pl,dl,i):
        n=A.seq_len(s,pl); m=A.seq_len(s,dl); out=[]
        for s1,t in A.branch(s,ge(n,iadd(i,('int',1)))):
            if not t: out.append((s1,(('bool',(TRUE,)),))); continue
            for s2,u in A.branch(s1,ge(m,iadd(i,('int',1)))):
                if not u: out.append((s2,(('bool',(FALSE,)),)))
                else: out.append((s2,(('plist1',(pl,dl,i)),)))
        return Cases(out)
    def l_plist1(self,A,s,rest,pl,dl,i):
        def ret(s,v):
            # too short a list may be rejected at once
            if A.truth(s,v) is False and A.prove_ge(s,A.seq_len(s,pl),iadd(A.seq_len(s,dl),('int',1))): return
            return 'returns %s before all elements are matched'%short(v)
        return Expect(Ev('Pattern::match_data',(E(A,s,pl,i),E(A,s,dl,i)),lambda s,r:(('plist2',(pl,dl,i,r)),)),ret=ret)
    def l_plist2(self,A,s,rest,pl,dl,i,r):
        return Cases([(s2,(('plist',(pl,dl,iadd(i,('int',1)))),) if t else (('bool',(FALSE,)),)) for s2,t in A.branch(s,r)])
    def l_pMap(self,A,s,rest,p,d): return self.kind(s,d,'Map',lambda y:(('pmap',(P(p,'Map'),y,Z)),))
    def l_pmap(self,A,s,rest,pl,m,i):
        out=[]
        for s1,t in A.branch(s,ge(A.seq_len(s,pl),iadd(i,('int',1)))):
            if not t: out.append((s1,(('bool',(TRUE,)),))); continue
            k=P(E(A,s1,pl,i),None,0)
            for s2,u in A.branch(s1,('mapin',m,k)):
                out.append((s2,(('pmap1',(pl,m,i)),) if u else (('bool',(FALSE,)),)))
        return Cases(out)
    def l_pmap1(self,A,s,rest,pl,m,i):
        e=E(A,s,pl,i)
        return Expect(Ev('Pattern::match_data',(P(e,None,1),('mapval',m,P(e,None,0))),lambda s,r:(('pmap2',(pl,m,i,r)),)))
    def l_pmap2(self,A,s,rest,pl,m,i,r):
        return Cases([(s2,(('pmap',(pl,m,iadd(i,('int',1)))),) if t else (('bool',(FALSE,)),)) for s2,t in A.branch(s,r)])
    def l_pCapture(self,A,s,rest,p,d):
        o=P(p,'Capture',1); out=[]
        for s2 in variants(A,s,o,OPTV):
            out.append((s2,(('capt',(p,d)),) if next(iter(s2.var[o]))=='Some' else (('cset',(p,d)),)))
        return Cases(out)
    def l_capt(self,A,s,rest,p,d):
        return Expect(Ev('Pattern::match_data',(P(P(p,'Capture',1),'Some'),d),lambda s,r:(('capt2',(p,d,r)),)))
    def l_capt2(self,A,s,rest,p,d,r):
        return Cases([(s2,(('cset',(p,d)),) if t else (('bool',(FALSE,)),)) for s2,t in A.branch(s,r)])
    def l_cset(self,A,s,rest,p,d): return Expect(Ev('Scope::set',(None,P(p,'Capture',0),d),lambda s,r:(('bool',(TRUE,)),)))
    def l_pFilter(self,A,s,rest,p,d): return Expect(Ev('Scope::set',(None,('str','@'),d),lambda s,r:(('filt',(p,)),)))
    def l_filt(self,A,s,rest,p): return Expect(Ev('Expr::run',(P(p,'Filter'),None,None,None),lambda s,r:(('filt2',(r,)),)))
    def l_filt2(self,A,s,rest,r):
        out=[]; no=(('bool',(FALSE,)),)
        for s2 in variants(A,s,r,RESV):
            if next(iter(s2.var[r]))=='Err': out.append((s2,no)); continue
            x=P(r,'Ok')
            for s3 in variants(A,s2,x,scan.ALLV):
                out.append((s3,(('bool',(P(x,'Bool'),)),) if next(iter(s3.var[x]))=='Bool' else no))
        return Cases(out)
    # ---- front matter
    def l_fm(self,A,s,rest,i):
        S=self.tfld(('arg',0),'v')
        return both(A,s,i,A.seq_len(s,S),lambda:(('fm1',(i,)),),lambda:(('fmend',()),))
    def l_fmend(self,A,s,rest):
        def f(s,v):
            if not self.sim.same(s,v,('ap','Scope::top',self.sim.cur.get('scope'))): return 'returns %s'%short(v)
        return Ret(f)
    def l_fm1(self,A,s,rest,i):
        it=E(A,s,self.tfld(('arg',0),'v'),i); nx=(('fm',(iadd(i,('int',1)),)),); out=[]
        for s2 in variants(A,s,it,self.names()):
            v=next(iter(s2.var[it]))
            if v=='AtExport': out.append((s2,(('fmat',(it,i)),)))
            elif v=='Export': out.append((s2,(('fme',(it,i,Z)),)))
            else: out.append((s2,nx))
        return Cases(out)
    def l_fmat(self,A,s,rest,it,i): return Expect(Ev('run_block',(P(it,'AtExport',1),None,None,None),lambda s,r:(('fmat2',(it,i,r)),)))
    def l_fmat2(self,A,s,rest,it,i,r):
        out=[]; nx=(('fm',(iadd(i,('int',1)),)),)
        for s2 in variants(A,s,r,RESV): out.append((s2,nx if next(iter(s2.var[r]))=='Err' else (('fmset',(P(it,'AtExport',0),STR(P(r,'Ok')),nx[0])),)))
        return Cases(out)
    def l_fmset(self,A,s,rest,k,v,nx): return Expect(Ev('Scope::set_root',(None,k,v),lambda s,r:(nx,)))
    def l_fme(self,A,s,rest,it,i,j):
        S=P(it,'Export')
        return both(A,s,j,A.seq_len(s,S),lambda:(('fme1',(it,i,j)),),lambda:(('fm',(iadd(i,('int',1)),)),))
    def l_fme1(self,A,s,rest,it,i,j):
        return Expect(Ev('Expr::run',(P(E(A,s,P(it,'Export'),j),None,1),None,None,None),lambda s,r:(('fme2',(it,i,j,r)),)))
    def l_fme2(self,A,s,rest,it,i,j,r):
        out=[]; nx=(('fme',(it,i,iadd(j,('int',1)))),)
        for s2 in variants(A,s,r,RESV): out.append((s2,nx if next(iter(s2.var[r]))=='Err' else (('fmset',(P(E(A,s2,P(it,'Export'),j),None,0),P(r,'Ok'),nx[0])),)))
        return Cases(out)
OPTV=('None','Some'); RESV=('Err','Ok')
GF='templito::func_man::FuncManager::get_func'
def is_copy(A,s,T,S,lo=('int',0)):
    """is T the list of the elements S[lo..] in order?"""
    if lo==('int',0) and T==S: return True
    hi=A.seq_len(s,S)
    if T[0]=='slice' and T[1]==S: return A.prove_eq(s,T[2],lo) and A.prove_eq(s,T[3],hi)
    assumed=set()
    def pref(s,at,T):
        """T[i]==S[lo+i] for every i in T; at=(loop,node) the state belongs to, or None"""
        if T==('str',''): return True
        if T[0]=='vec': return all(same_el(s,at,x,iadd(lo,('int',i))) for i,x in enumerate(T[1]))
        if T[0]=='snoc': return pref(s,at,T[1]) and same_el(s,at,T[2],iadd(lo,A.seq_len(s,T[1])))
        if T[0]=='cat':
            n=('int',0)
            for i,p in enumerate(T[1]):
                if i==0:
                    if not pref(s,at,p): return False
                elif p[0]=='vec':
                    if not all(same_el(s,at,x,iadd(iadd(lo,n),('int',j))) for j,x in enumerate(p[1])): return False
                else: return False
                n=iadd(n,A.seq_len(s,p))
            return True
        if T[0]=='phi':
            if T in assumed: return True
            L,k=home(A,T)
            if L is None: return False
            assumed.add(T)
            if k==L.entry and not pref(L.base,None,L.entry_sub.get(T,T)): return False
            return all(pref(es,(L,a),sg.get(T,T)) for a,b,sg,es in L.edges if b==k)
        return False
    def same_el(s,at,x,i):
        y=A.seq_get(s,S,i)
        if x==y: return True
        if x[0]=='elem' and y[0]=='elem' and x[1]==y[1]:
            return A.prove_eq(s,x[2],y[2]) or at is not None and inv_eq(A,at[0],at[1],isub(x[2],y[2]),s)
        return False
    if not pref(s,None,T): return False
    d=isub(A.seq_len(s,T),isub(hi,lo))
    if A.prove_eq(s,d,('int',0)): return True
    return exits(A,s,T,d)
def push(acc,x):
    from natives import snoc
    return snoc(acc,x)
def rest_with(rest,v):
    (l,env)=rest[0]; return ((l,env+(v,)),)+rest[1:]
def interp(F,*events,nomerge=True,drop=()):
    import summ
    ex={}
    if 'run_values' in events: ex['templito::expr::run_values']=summ.event('run_values',(2,))
    if 'run_command' in events: ex['templito::expr::run_command']=summ.event('run_command',(3,))
    A=work.interp(F,ex,drop); A.nomerge=nomerge; return A
def body(F,path):
    ks=[k for k,b in F.bodies.items() if b['path']==path]
    if not ks: raise Bad('function %s not found'%path)
    return ks[0]
def root(F,path,nargs,frames,threads,events=('run_values','run_command'),extra=None,drop=()):
    """refinement of one function; returns (interpreter, simulator, outcomes)"""
    k=body(F,path)
    A=interp(F,*[e for e in events if not path.endswith('::'+e)],drop=tuple(drop)); S=TreeSpec(F,A)
    if extra: A.anchors.update(extra)
    outs=A.run_body(k,[('arg',i) for i in range(nargs)],St())
    def match(form):
        S.form=form; S.sim=sim=Sim(A,S.table(),S.heads,TH,ignore=('Scope::push','Scope::pop'))
        sim.run(outs,frames(S) if callable(frames) else frames,threads(S) if callable(threads) else threads); return sim
    sim=match(0)
    if sim.msgs:      # the texts of a block collected first and joined at its end
        sim1=match(1)
        if not sim1.msgs: sim=sim1
        else: S.form=0; S.sim=sim
    return A,sim,outs
Z=('int',0)
def treeitem(F): return root(F,RI,4,(('start',(('arg',0),)),),{'scope':('arg',1),'tm':('arg',2),'fm':('arg',3)})
def run_block(F): return root(F,'templito::template::run_block',4,lambda S:S.block(('arg',0),('text',())),{'scope':('arg',1),'tm':('arg',2),'fm':('arg',3)})
def run_exp(F):
    return root(F,'templito::template::TreeTemplate::run_exp',4,lambda S:S.block(S.tfld(('arg',0),'v'),('exported',())),
        lambda S:{'scope':('ap','Scope::with_pnames',('arg',1),S.tfld(('arg',0),'pnames')),'tm':('arg',2),'fm':('arg',3)})
def expr(F): return root(F,'templito::expr::Expr::run',4,(('expr',(('arg',0),)),),{'scope':('arg',1),'tm':('arg',2),'fm':('arg',3)})
def command(F): return root(F,'templito::expr::run_command',5,(('cmd',(('arg',0),('arg',1))),),{'scope':('arg',2),'tm':('arg',3),'fm':('arg',4)})
def match(F): return root(F,'templito::pattern::Pattern::match_data',5,(('match',(('arg',0),('arg',1))),),{'scope':('arg',2),'tm':('arg',3),'fm':('arg',4)})
def front(F):
    import summ
    return root(F,'templito::template::TreeTemplate::front_matter',2,(('fm',(Z,)),),
        lambda S:{'scope':('ap','Scope::with_pnames',('vec',()),S.tfld(('arg',0),'pnames')),'fm':('arg',1)},extra={'templito::template::run_block':summ.event('run_block',(1,2))})
def values(F): return root(F,'templito::expr::run_values',4,(('values',(('arg',0),('arg',1),('arg',3))),),{'tm':('arg',2),'fm':('arg',3)})
