"""C05, C09: no reachable panic site can fire.  Every function is interpreted with unknown arguments; each
panic site met (bounds check, overflow assertion, unwrap, slice boundary, panic call) is an obligation."""
import re
import ai as AIM, summ, helpers, work
from ai import *
DENY=re.compile(r'^core::cell::(RefCell::(borrow|borrow_mut|replace|swap|take)|.*panic)|^core::time::Duration|^std::time::.*(add|sub|duration_since)|copy_from_slice$|clone_from_slice$|split_at_mut|^alloc::vec::Vec::(drain|splice|split_off|swap_remove|extract_if)|rotate_(left|right)|::from_digit|::to_digit|from_str_radix|step_by$|^chrono::.*::(ymd|and_hms|from_ymd|from_hms|timestamp|sub|add)$|^std::thread::|^std::sync::.*::(lock|read|write)$|^std::collections::.*::index$|^core::iter::.*::(sum|product)$|^std::env::(args|vars|set_var|remove_var|var_os)$|^std::process::(exit|abort)|::unwrap_unchecked|get_unchecked|^alloc::string::String::(remove|insert|insert_str|drain|split_off|replace_range|truncate)$|^core::array::from_fn_')
def index(F):
    m={}
    for k,b in F.bodies.items():
        if b['kind']!='fn' or not b['local'] or b['closure'] or '@' in k: continue
        n=norm_path(b['path']); m.setdefault(n,[]).append(k)
    r={}
    for n,ks in m.items():
        # prefer the polymorphic body: its generic arguments are plain names
        r[n]=sorted(ks,key=lambda k:(len(re.findall('::',k)),len(k)))[0]
    return r
def expand(F,ix,name):
    "the local bodies a recorded callee stands for"
    n=norm_path(name.split('@')[0])
    if n in ix: return [ix[n]]
    if '::' in n:
        tr,m=n.rsplit('::',1)
        return [i[1][m] for i in F.impls_of(tr) if m in i[1] and i[1][m] in F.bodies]
    return []
def assume_scope(ai,st,args,b):
    """type invariant of Scope (proved for every function that builds or changes one, see scope_invariant)"""
    for i,a in enumerate(args):
        t=ai.F.types[b['locals'][i+1]]
        while t['k'] in('ref','ptr'): t=ai.F.types[t['t']]
        if t['k']=='adt' and t['name']=='templito::scope::Scope':
            for f in scope_maps(ai.F,t): ai.add_lin(st,ladd(tolin(('len',('fld',a,'Scope',f))),lconst(-1)))
def scope_maps(F,t):
    "field numbers of the stack of binding maps"
    return [n for n,(x,ft) in enumerate(t['variants'][0]['f']) if F.types[ft]['k']=='adt' and 'Vec' in F.types[ft]['name'] and 'HashMap' in F.types[ft]['s']]
def analyse(F,root):
    label,key,args,mode=root
    A=work.interp(F)
    b=F.bodies[key]; st=St()
    if args is None: args=[('arg',i) for i in range(b['argc'])]
    if mode: mode(A,st,args,b)
    outs=A.run_body(key,list(args),st)
    obl=[(k[0],k[1],k[2],v[0],v[1],v[2]) for k,v in A.obls.items()]
    deny=[n for n in A.unknown if DENY.search(n)]
    return {'obl':obl,'called':set(A.called)|set(A.recursed)|{n for n in A.unknown if n.startswith((F.crate+'::','<'+F.crate))},'visited':set(A.visited),'loops':len(A.loops),'outs':len(outs),'deny':deny}
def where(F,fn,trace):
    """nearest local function of an obligation"""
    b=F.bodies.get(fn)
    if b and b['local']: return norm_path(b['path'])
    for x in reversed(trace.split(' > ')):
        y=F.bodies.get(x)
        if y and y['local']: return norm_path(y['path'])
    return fn
def close(F,r,roots,stop=lambda k:False,limit=300,least=1):
    ix=index(F); done=set(); work_=list(roots); nroots=0; sites={}; visited=set()
    while work_:
        batch=[]; 
        for x in work_:
            if x[1] in done and x[2] is None: continue
            if x[2] is None: done.add(x[1])
            batch.append(x)
        nxt=[]
        for root,res,e in work.pool(F,batch,analyse,limit):
            nroots+=1
            if e:
                r.ob('%s: analysed'%root[0],False,'could not be analysed: %s'%e); continue
            visited|=res['visited']
            for fn,kind,sp,good,msg,tr in res['obl']:
                w=where(F,fn,tr); k=(w,kind,sp)
                if k not in sites or (sites[k][0] and not good): sites[k]=(good,msg,tr,root[0])
            for n in res['deny']: sites[(root[0],'call of '+n,'')]=(False,'this function can panic and is not modelled','',root[0])
            for n in res['called']:
                for k in expand(F,ix,n):
                    if k not in done and not stop(k): nxt.append((norm_path(F.bodies[k]['path']),k,None,assume_scope))
        seen=set(); work_=[]
        for x in nxt:
            if x[1] not in seen and x[1] not in visited: seen.add(x[1]); work_.append(x)
    for (w,kind,sp),(good,msg,tr,root) in sorted(sites.items()):
        r.ob('%s: %s'%(w,kind),good,'%s%s; reached from %s by %s'%(sp,' '+msg if msg else '',root,tr),sp)
    r.count('roots interpreted',nroots); r.count('functions interpreted',len(visited)); r.count('local functions interpreted',sum(1 for k in visited if F.bodies[k]['local']))
    return visited,sites
def helper_roots(F,r,sets=helpers.SETS):
    roots=[]
    for m in sets:
        rs,A=helpers.registrations(F,m)
        if not rs: r.ob('registrations of '+m,False,'registration method not found'); continue
        for reg in rs:
            for n,f in reg:
                label='%s/%s'%(m,n[1] if n[0]=='str' else 'helper')
                if f[0]=='fn':
                    k=f[1][0] if isinstance(f[1],tuple) else f[1]
                    if k in F.bodies: roots.append((label,k,[('arg',0)],None)); continue
                elif f[0]=='clo' and f[1] in F.bodies: roots.append((label,f[1],[f,('arg',0)],None)); continue
                r.ob(label,False,'the registered function could not be read: %s'%(f[0],))
    return roots
def traits(F,names):
    return [(norm_path(b['path']),k,None,None) for k,b in F.bodies.items() if b['local'] and b['kind']=='fn' and not b['closure'] and '@' not in k and b.get('impl_trait') in names and 'templito::parse' not in b['path'].split(' as ')[0]]
FMT=('core::fmt::Display','core::fmt::Debug','serde_core::ser::Serialize')
RULE=('abstract interpretation (path-partitioned dataflow with inferred linear loop invariants) of every function from its MIR with unknown arguments; '
 'obligation per panic site (bounds and overflow assertions, unwrap/expect, text slices at character boundaries, division, panic calls, panicking library calls): it cannot fire in any abstract state reaching it')
ASSUME=['external crates (serde_json, regex, pulldown_cmark, image, base64, card_format, chrono, toml, rand) do not panic on their own account, nor does output to stdout',
 'sums of collection sizes do not overflow 64 bits; memory and stack suffice','std functions behave as modelled (sa/natives.py) or as their inlined MIR']
def c05(F,r):
    r.rule=RULE+'; roots: every function registered by the helper sets, then every local function they call that is summarised there'
    roots=helper_roots(F,r)
    r.floor('registered helpers',len(roots),80)
    ev=re.compile(r'^<?templito::(expr::Expr::run|template::|pattern::|parse::|scope::)')
    close(F,r,roots+[x for x in traits(F,FMT) if 'tdata' in x[1]],stop=lambda k:bool(ev.search(k)))
    r.floor('panic sites',len(r.obls),60)
    r.assumptions=ASSUME+['the evaluator called by filter does not panic (C09), nor do the parsers (C10)']
PARSEFN=re.compile(r'^<?templito::parse::|^templito::template::tt_|FlatTemplate|core::str::traits::FromStr>::from_str|^templito::tdata::TData::from_str$|TreeTemplate::load$')
def api_roots(F,skip):
    out=[]
    ix=index(F); have=set(ix.values())
    for k,b in F.bodies.items():
        if b['kind']!='fn' or not b['local'] or b['closure'] or '@' in k or k not in have: continue
        p=norm_path(b['path'])
        if skip(p): continue
        if b.get('impl_trait') or b.get('pub') or p in summ.base(): out.append((p,k,None,assume_scope))
    return out
def scope_invariant(F,r):
    """Scope.maps is never empty: every function that builds a Scope, or borrows its maps mutably, leaves at least one map"""
    n=0
    ty=[t for t in F.types if t['k']=='adt' and t['name']=='templito::scope::Scope']
    if not ty or not scope_maps(F,ty[0]): 
        r.ob('Scope.maps',False,'the scope type was not found'); return
    fi=scope_maps(F,ty[0])[0]
    for k,b in F.bodies.items():
        if b['kind']!='fn' or not b['local'] or b['closure'] or '@' in k: continue
        p=norm_path(b['path'])
        if not p.startswith('templito::scope::Scope::'): continue
        if index(F).get(p)!=k: continue
        n+=1
        A=work.interp(F); st=St(); args=[]
        inv=lambda v:ladd(tolin(('len',('fld',v,'Scope',fi))),lconst(-1))
        for i in range(b['argc']):
            t=F.types[b['locals'][i+1]]; a=('arg',i)
            base=t
            while base['k'] in('ref','ptr'): base=F.types[base['t']]
            if base['k']=='adt' and base['name']=='templito::scope::Scope':
                A.add_lin(st,inv(a))
                if t['k']=='ref' and t['mut']: c=A.fresh('new'); st.mem[c]=a; args.append(('ref',c,())); continue
            args.append(a)
        cells=[a for a in args if a[0]=='ref']
        for s,v in A.run_body(k,args,st):
            vals=[A.deref(s,c) for c in cells]
            rt=F.types[b['locals'][0]]
            if rt['k']=='adt' and rt['name']=='templito::scope::Scope': vals.append(v)
            for x in vals:
                m=project(x,'Scope',fi); l=A.seq_len(s,m)
                r.ob('%s keeps a map'%p,A.prove(s,ladd(tolin(l),lconst(-1))),'after the call Scope.maps has at least one map')
    r.floor('Scope methods',n,6)
    for k,b in F.bodies.items():   # the field is private to the scope module
        if not b['local'] or 'templito::scope::' in norm_path(b['path']): continue
        for bl in b['blocks']:
            for s_ in bl['s']:
                if s_[0]=='=' and s_[2]['r']=='agg' and F.types[s_[2]['t']].get('name')=='templito::scope::Scope':
                    r.ob('Scope built in %s'%norm_path(b['path']),False,'a Scope is built outside its module')
def c09(F,r):
    r.rule=RULE+'; roots: the public rendering interface and every trait implementation outside the parsers and the helper functions; type invariant Scope.maps non-empty, proved per Scope method'
    scope_invariant(F,r)
    roots=api_roots(F,lambda p:bool(PARSEFN.search(p)) or bool(re.match(r'^<?templito::funcs::',p)))
    r.floor('rendering roots',len(roots),40)
    close(F,r,roots,stop=lambda k:bool(PARSEFN.search(k)) )
    r.assumptions=ASSUME+['templates come from the parser or the public constructors; helpers do not panic (C05); recursion depth is bounded by the template (C35 is not claimed)']
