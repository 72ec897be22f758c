"""C12-C17, C19, C24, C26: rendering refines reference programs (render.py), uses scopes in a balanced way and loses no error (scopes.py)."""
import re, work, summ, effects, helpers
from ai import *
from sim import *
from checks import render as R, scopes as S
RULE=('abstract interpretation of the function with unknown arguments yields every path (events: evaluations, calls, bindings) and every loop; each path has to be matched by the '
      'reference program of the property, loops through an inductively verified correspondence of loop variables')
WHERE={'treeitem':R.RI,'run_block':'templito::template::run_block','run_exp':'templito::template::TreeTemplate::run_exp','expr':'templito::expr::Expr::run',
       'command':'templito::expr::run_command','values':'templito::expr::run_values','match':'templito::pattern::Pattern::match_data','front':'templito::template::TreeTemplate::front_matter'}
def where(F,p):
    for b in F.bodies.values():
        if b['path']==p: return b['span']
    return ''
def kindof(s,root):
    if root=='treeitem': x=('arg',0)
    elif root in('expr','match'): x=('arg',0)
    elif root=='command':
        for k in('run','first','select'):
            if s.atom.get(('eqs',)+tuple(sorted((('arg',0),('str',k)),key=rep))): return k
        return 'other'
    elif root=='values':
        for k,v in s.var.items():
            if k[0]=='ap' and k[1]==R.GF and len(v)==1: return {'Some':'helper','None':'template'}[next(iter(v))]
        return 'unknown'
    else: return 'all'
    v=s.var.get(x)
    return next(iter(v)) if v and len(v)==1 else 'unknown'
def one(F,name):
    A,sim,outs=getattr(R,name)(F)
    kinds={}
    for s,v in outs: kinds[kindof(s,name)]=kinds.get(kindof(s,name),0)+1
    return dict(kinds=kinds,msgs=[(kindof(s,name),m,p) for m,p,s in sim.msgs],ev=sim.nev,loops=sim.nloops,paths=len(outs),seen=set(A.visited),unknown=sorted(A.unknown))
def refine(F,r,roots,keep=None):
    res={}
    tot=dict(paths=0,ev=0,loops=0)
    for root,x,e in work.pool(F,roots,one,200):
        if e: r.ob('%s: analysed'%root,False,e,where(F,WHERE[root])); continue
        res[root]=x
        for k in tot: tot[k]+=x[k]
        bad={}
        for k,m,p in x['msgs']:
            if keep is None or keep(root,k,m,p): bad.setdefault(k,(m,p))
        for k,n in sorted(x['kinds'].items()):
            m=bad.get(k)
            r.ob('%s %s follows the reference'%(root,k),m is None,'%d paths'%n if m is None else '%s (events: %s)'%m,where(F,WHERE[root]))
        for k in bad:
            if k not in x['kinds']: r.ob('%s %s follows the reference'%(root,k),False,'%s (events: %s)'%bad[k],where(F,WHERE[root]))
    r.floor('functions refined',len(res),len(roots))
    r.count('paths',tot['paths']); r.count('events matched',tot['ev']); r.count('loops matched',tot['loops'])
    return res
def variants_floor(F,r,res,root,names):
    have=set(res.get(root,{}).get('kinds',{}))
    for n in names: r.ob('%s %s analysed'%(root,n),n in have,'no path for this case')
def tnames(F,ty):
    for t in F.types:
        if t.get('name')==ty and t.get('variants'): return [x['name'] for x in t['variants']]
    return []
ASSUME=['equality of values and of names, conversion of a value to text and lookup of a path in a value are those of the functions decided by C21, C31 and C18',
        'a registered helper is an arbitrary function of its argument list']
def c14(F,r):
    r.rule=RULE
    res=refine(F,r,['treeitem','run_block'],lambda root,k,m,p: k not in('Let','Export','Return') or root!='treeitem')
    variants_floor(F,r,res,'treeitem',tnames(F,'templito::template::TreeItem'))
    r.assumptions=ASSUME
def c15(F,r):
    r.rule=RULE
    res=refine(F,r,['expr','command'],lambda root,k,m,p:not('run_exp' in m and 'argument 1' in m))
    variants_floor(F,r,res,'expr',tnames(F,'templito::expr::Expr')); variants_floor(F,r,res,'command',['run','first','select','other'])
    r.assumptions=ASSUME
def c26(F,r):
    r.rule=RULE
    res=refine(F,r,['match'])
    variants_floor(F,r,res,'match',tnames(F,'templito::pattern::Pattern')); r.assumptions=ASSUME
    depth(F,r,['match_data'])
def depth(F,r,names):
    seen=set()
    for (n,_),x,e in work.pool(F,[(n,S.DROOTS[n]) for n in names],S.one_depth,200):
        if e: r.ob('%s: frames balanced'%n,False,e); continue
        msgs,nev,nl,np,vis=x; seen|=vis
        r.ob('%s: frames balanced'%n,not msgs,'%d paths, %d events'%(np,nev) if not msgs else '%s (events: %s)'%tuple(msgs[0]),where(F,S.DROOTS[n][0]))
        r.count('events in '+n,nev)
    return seen
def scope_methods(F,r,names):
    n=0
    for m,ok,msg in S.methods(F):
        if m in names: n+=1; r.ob('Scope::%s does what it says'%m,ok,'' if ok else msg,where(F,'templito::scope::Scope'))
    r.floor('scope methods',n,len(names))
def callers(F,names):
    """local functions that refer to one of the functions"""
    out={}
    for k,b in F.bodies.items():
        if not b['local'] or b['kind']!='fn': continue
        for f,sp in effects.fn_refs(F,k):
            for p in(f.get('path'),f.get('rpath')):
                if p and norm_path(p) in names: out.setdefault(norm_path(b['path']),(k,sp))
    return out
def c12(F,r):
    r.rule='every path of every function that adds or removes scope frames is interpreted with a symbolic frame counter (loops by induction): balanced on every return, never below the level at entry, block bodies and patterns run in a frame of their own; effect of every Scope method on its frames proved for any number of frames'
    seen=depth(F,r,list(S.DROOTS))
    scope_methods(F,r,['push','pop','set','set_root','with_pnames'])
    vis={norm_path(F.bodies[k]['path']) for k in seen}
    cs=callers(F,{S.SC+'::push',S.SC+'::pop'})
    r.floor('functions that add or remove frames',len(cs),2)
    for p,(k,sp) in sorted(cs.items()): r.ob('%s is covered'%p,p in vis,'adds or removes scope frames outside the functions analysed',sp)
    r.assumptions=ASSUME[1:]+['a frame pushed by a nested TreeItem::run is removed by it (this property for the nested call: induction over the nesting depth)']
def c13(F,r):
    r.rule='every path of every evaluating function is followed from the first failing evaluation to the return: no further event but removing frames, and the result is that very error; exceptions only at the documented places'
    seen=set()
    for (n,x0),x,e in work.pool(F,list(S.EROOTS.items()),S.one_err,200):
        if e: r.ob('%s: errors kept'%n,False,e); continue
        msgs,ne,nx,np,vis=x; seen|=vis
        r.ob('%s: errors kept'%n,not msgs,'%d paths, %d fallible evaluations'%(np,ne) if not msgs else '%s (events: %s)'%tuple(msgs[0]),where(F,x0[0]))
        r.count('fallible evaluations in '+n,ne)
    evs={'templito::expr::Expr::run','templito::template::TreeItem::run','templito::template::run_block','templito::template::TreeTemplate::run_exp','templito::template::TreeTemplate::run','templito::expr::run_values','templito::expr::run_command'}
    vis={norm_path(F.bodies[k]['path']) for k in seen}
    rs,_=helpers.registrations(F,'with_defaults')
    filt=set()
    for reg in rs or []:
        for nm,f in reg:
            if nm==('str','filter') and f[0]=='fn': filt.add(norm_path(F.bodies[f[1][0] if isinstance(f[1],tuple) else f[1]]['path']))
    cs=callers(F,evs); r.floor('functions that evaluate',len(cs),6)
    for p,(k,sp) in sorted(cs.items()):
        ok=p in vis or any(p==f or p.startswith(f+'::{closure') for f in filt) or p.startswith('templito::template::TreeTemplate::front_matter')
        r.ob('%s is covered'%p,ok,'evaluates outside the functions analysed',sp)
    r.assumptions=ASSUME[1:]
def c16(F,r):
    r.rule=RULE+'; a template is run only in a scope newly made of exactly the given arguments and its own parameter names'
    def keep(root,k,m,p): return root=='run_exp' or 'run_exp' in m or k in('Define','Global')
    res=refine(F,r,['run_exp','values','command','treeitem'],keep)
    variants_floor(F,r,res,'treeitem',['Define','Global'])
    scope_methods(F,r,['with_pnames','new'])
    A,sim,outs=S.getter(F)
    r.ob('Scope::get reads only its own frames and parameters',not sim.msgs,'%d paths'%len(outs) if not sim.msgs else '%s (events: %s)'%sim.msgs[0][:2])
    cs=callers(F,{S.SC+'::with_pnames',S.SC+'::new'}); r.floor('places that make a scope',len(cs),2)
    r.assumptions=ASSUME
def c17(F,r):
    r.rule=RULE
    def keep(root,k,m,p):
        if root=='treeitem': return k in('Return','Export','AtExport') or 'set_root' in m
        if root in('values','command'): return 'run_exp' in p and not m.startswith('run_exp')
        return True
    res=refine(F,r,['treeitem','run_exp','values','command','front'],keep)
    variants_floor(F,r,res,'treeitem',['Return','Export','AtExport'])
    scope_methods(F,r,['set_root','top','push','pop'])
    r.assumptions=ASSUME
def c19(F,r):
    r.rule=RULE
    A,sim,outs=S.getter(F)
    bad={}
    r.count('paths of Scope::get',len(outs)); r.count('loops matched',sim.nloops)
    r.ob('Scope::get searches innermost first, then the parameters',not sim.msgs,'%d paths, %d loops'%(len(outs),sim.nloops) if not sim.msgs else '%s (events: %s)'%sim.msgs[0][:2],where(F,S.SC+'::get'))
    r.floor('results of Scope::get',len(outs),5)
    scope_methods(F,r,['set','push','pop','with_pnames','new'])
    # where plain bindings go
    n,(p,a,_,th)='TreeItem::run',S.DROOTS['TreeItem::run']
    k=R.body(F,p)
    def rule(A,s,ev,n):
        if ev[0]=='Scope::set' and kindof(s,'treeitem')!='For' and not A.prove_eq(s,n,('int',0)): return 'the name is bound in a frame that is removed again'
        if ev[0]=='Expr::run' and kindof(s,'treeitem') not in('For',) and not A.prove_eq(s,n,('int',0)): pass
    A,sim,outs=S.depth(F,p,a,rule,None,th)
    r.ob('let, @let and define bind in the current block',not sim.msgs,'%d events'%sim.nev if not sim.msgs else '%s (events: %s)'%sim.msgs[0][:2],where(F,p))
    x=one(F,'treeitem'); bad=[(m,p) for k,m,p in x['msgs'] if k in('Let','AtLet','Define')]
    r.ob('let, @let and define bind the given name',not bad,'' if not bad else '%s (events: %s)'%bad[0],where(F,p))
    x=one(F,'expr'); bad=[(m,p) for k,m,p in x['msgs'] if k=='Var']
    r.ob('a variable is looked up in the scope it is evaluated in',not bad,'' if not bad else '%s (events: %s)'%bad[0],where(F,p))
    r.assumptions=ASSUME[:1]
def c24(F,r):
    r.rule=RULE
    def keep(root,k,m,p):
        if root=='command': return k=='other' or 'run_values' in m and 'where' not in m
        return not('run_exp' in p and not m.startswith('run_exp'))
    res=refine(F,r,['values','command'],keep)
    variants_floor(F,r,res,'command',['run','first','select','other']); variants_floor(F,r,res,'values',['helper','template'])
    managers(F,r)
    rs,_=helpers.registrations(F,'with_defaults'); n=0
    for reg in rs or []:
        seen={}
        for nm,f in reg:
            if nm[0]!='str': r.ob('helper names are known',False,'a helper is registered under a computed name'); continue
            n+=1; d=seen.get(nm[1]); seen[nm[1]]=f
            r.ob('default helper %s has a name of its own'%nm[1],d is None,'two default helpers are registered as %s'%nm[1] if d is not None else '')
    r.floor('default helpers',n,60)
    r.assumptions=ASSUME
def managers(F,r):
    """get_func / add_func and get_t / insert_t: exact lookup and replacement by name"""
    def impls(tr,m): return [k for k,b in F.bodies.items() if b['local'] and b['kind']=='fn' and b.get('impl_trait')==tr and b.get('method')==m and '@' not in k and '::{closure' not in k and k==generic(F,k)]
    def run(k,n):
        A=work.interp(F,drop=()); A.nomerge=True; return A,A.run_body(k,[('arg',i) for i in range(n)],St())
    FMT,FA,TMT='templito::func_man::FuncManager','templito::func_man::FuncAdder','templito::temp_man::TempManager'
    def lookup(what,k,n,wrap,key):
        A,outs=run(k,n); ok=bool(outs); hits=set()
        for s,v in outs:
            found=v[0]=='adt' and v[2]==wrap
            if found and v[3][0][0]=='mapval':
                m,kk=v[3][0][1],v[3][0][2]; hits.add(m)
                ok=ok and kk==key and A.truth(s,('mapin',m,kk)) is True and any(x==('arg',0) for x in subterms(m))
            elif found: ok=False
            else: ok=ok and any(a[0]=='mapin' and a[2]==key and t is False for a,t in s.atom.items())
        return ok,hits
    maps={}
    n=0
    for k in impls(FMT,'get_func'):
        ok,h=lookup('get_func',k,2,'Some',('arg',1)); n+=1; maps.setdefault(F.bodies[k].get('impl_self'),set()).update(h)
        r.ob('%s finds exactly the helper registered under the name'%norm_path(F.bodies[k]['path']),ok and len(h)==1,'another entry than the one of that name can be returned',F.bodies[k]['span'])
    for k in impls(FA,'add_func'):
        A,outs=run(k,4); ok=bool(outs); n+=1; M=maps.get(F.bodies[k].get('impl_self'),set())
        for s,v in outs:
            x=s.mem.get(('sym',('arg',0)),('arg',0))
            for m in M or [None]: ok=ok and m is not None and subst_fld(x,m)==('mins',m,('arg',1),('arg',2))
        r.ob('%s replaces exactly the helper of that name'%norm_path(F.bodies[k]['path']),ok,'the registered helpers are not exactly the old ones with this one added',F.bodies[k]['span'])
    for k in impls(TMT,'get_t'):
        A,outs=run(k,2); n+=1
        if all(v[0]=='adt' and v[2]=='Err' for s,v in outs): continue
        ok,h=lookup('get_t',k,2,'Ok',('arg',1))
        r.ob('%s finds exactly the template stored under the name'%norm_path(F.bodies[k]['path']),ok and len(h)==1,'another template than the one of that name can be returned',F.bodies[k]['span'])
        for k2 in impls(TMT,'insert_t'):
            if F.bodies[k2].get('impl_self')!=F.bodies[k].get('impl_self'): continue
            A,outs=run(k2,3); n+=1
            ok=bool(outs) and all(s.mem.get(('sym',('arg',0)),('arg',0))==('mins',('arg',0),('arg',1),('arg',2)) for s,v in outs)
            r.ob('%s replaces exactly the template of that name'%norm_path(F.bodies[k2]['path']),ok,'the stored templates are not exactly the old ones with this one added',F.bodies[k2]['span'])
    r.floor('manager functions',n,5)
def generic(F,k): return k if '::add_func::<&' not in k else None
def subst_fld(x,m):
    """the field of x that m is in arg0"""
    if m==('arg',0): return x
    if m[0]=='fld': return project(subst_fld(x,m[1]),m[2],m[3])
    return None
