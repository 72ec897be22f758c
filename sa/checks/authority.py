"""C01, C04: who may call what.  A helper set's authority is the set of operating-system interfaces that the
functions registered by it (and everything they mention, transitively) can reach in the call graph."""
import effects

def local_extern(F,cg,f):
    return f.get('crate')==F.crate and not cg.targets(f) and not f.get('trait') and not f.get('ctor') and f.get('kind') not in('drop','clone_shim','fnptr_shim','virtual','unresolved')

def scan(F,r,label,roots,allowed):
    cg=effects.CallGraph(F)
    par,ext=cg.reach(roots); n=0; seen=set(); hits={}
    for f,k,sp in ext:
        n+=1
        if local_extern(F,cg,f): a='ffi'
        elif cg.targets(f) and not f['path'].startswith('std::'): continue
        else: a=effects.authority_of(f)
        if a is None: continue
        hits.setdefault(a,[]).append((f,k,sp))
        if a=='open' or a in allowed: continue
        key='%s:%s:%s in %s'%(label,a,f.get('rpath') or f['path'],F.bodies[k]['path'])
        if key in seen: continue
        seen.add(key)
        r.ob(key,False,'%s can reach %s (%s authority) through %s'%(label,f['path'],a,cg.chain(par,k)),sp)
    r.ob(label,not seen,'%s: %d functions, %d mentioned external functions, authority %s'%(label,len(par),n,sorted(hits)))
    return par,hits

def methods(F,name):
    ks=[k for k in F.find('WithFuncs::'+name)]
    ks+=[k for k,b in F.bodies.items() if b['kind']=='fn' and b['local'] and not b['closure'] and b.get('method')==name and k not in ks and 'WithFuncs' in b['path']]
    return ks

SETS=['with_defaults','with_folder_lock','with_free_files','with_exec','with_write_lock']
CORE=['TreeTemplate::run','TreeTemplate::run_exp','TreeTemplate::front_matter','Expr::run','tdata::TData::from_str','func_man::default_func_man']

BASE=['with_f','with_fn']+['with_'+x for x in 'bools strings math path lists maps format rand bytes svg'.split()]
def core_roots(F):
    rs=[]
    for n in CORE: rs+=F.find(n)
    for k,b in F.bodies.items():
        if b['kind']=='fn' and b['local'] and b.get('impl_trait','') and b.get('method')=='from_str' and 'Template' in b['path']: rs.append(k)
        if b['kind']=='fn' and b['local'] and b.get('impl_trait','') and b['impl_trait'].endswith(('TParam','TempManager','FuncManager')): rs.append(k)
    # generic functions have suffixed paths
    for k,b in F.bodies.items():
        p=b['path'].split('::<')[0]
        if b['kind']=='fn' and b['local'] and any(p.endswith('::'+c) for c in CORE): rs.append(k)
    return sorted(set(rs))

def c01(F,r):
    r.rule=('call graph (rapid type analysis: every function value mentioned by a reachable body counts as called) from the default registration '
            'and from the rendering and parsing entry points; obligation: no file, process, network, environment or foreign function is reachable')
    roots=methods(F,'with_defaults')
    r.floor('default registration methods',len(roots),1)
    p1,_=scan(F,r,'with_defaults',roots,set())
    cr=core_roots(F)
    r.floor('rendering entry points',len(cr),6)
    p2,_=scan(F,r,'rendering',cr,set())
    r.floor('functions reached from with_defaults',sum(1 for k in p1 if F.bodies[k]['local']),90)
    r.count('functions reached from rendering',len(p2))
    # every way a default-only manager is built inside the crate
    r.assumptions=['helpers and template managers supplied by the embedding program are outside the property',
      'the table of std functions with file, process, network or environment authority (sa/effects.py) is complete; crates in its PURE list have none beyond the listed functions; the random generator seeds itself from the system']

def c04(F,r):
    r.rule=('call graph from each opt-in registration method; obligation: the operating-system authority reached is a subset of what the set names, '
            'and no registration method outside the five sets has any')
    allow={'with_defaults':set(),'with_folder_lock':{'read'},'with_free_files':{'read','write'},'with_exec':{'exec','env'},'with_write_lock':{'write'}}
    tot=0
    for n in SETS:
        ms=methods(F,n); r.floor(n,len(ms),1)
        p,h=scan(F,r,n,ms,allow[n]); tot+=len(p)
        for a in allow[n]: r.floor('%s reaches %s'%(n,a),len(h.get(a,())),1)
    others=[]; inner=set()
    for n in SETS[1:]: inner|=set(effects.CallGraph(F).reach(methods(F,n))[0])
    for k,b in F.bodies.items():
        m=b['path'].split('::<')[0].split('::')[-1]
        if b['kind']=='fn' and b['local'] and not b['closure'] and 'WithFuncs' in b['path'] and m.startswith('with') and m not in SETS and (k not in inner or m in BASE): others.append(k)
    for k in F.find('func_man::default_func_man'): others.append(k)
    scan(F,r,'other registration methods',sorted(others),set())
    ks=F.find('func_man::func_man_folders')+[k for k,b in F.bodies.items() if b['local'] and b['path'].split('::<')[0].endswith('func_man::func_man_folders')]
    if ks: scan(F,r,'func_man_folders',sorted(set(ks)),{'read'})
    r.count('functions analysed',tot)
    r.floor('other registration methods',len(others),10)
    r.assumptions=['as for C01']
