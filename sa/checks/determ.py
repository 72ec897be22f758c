"""C23: nothing a rendering can reach depends on hash-map order, the clock, threads, addresses, random numbers or state kept between calls."""
import re
import effects, helpers
from checks import authority
from checks.lists import key
H=r'(std::collections::hash(::map|::set|_map|_set)?|hashbrown)'
UNIT_=re.compile(r'^%s::(.*::)?(Iter|IterMut|IntoIter|Keys|IntoKeys|Values|IntoValues|ValuesMut|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)$'%H)
UNORD=re.compile(r'^%s::(.*::)?(HashMap|HashSet|BinaryHeap)$'%H)
# what a hash map or set may be asked
MAPOK=set('new with_capacity insert get get_mut get_key_value get_or_insert_with contains contains_key remove remove_entry take replace len is_empty entry clone clone_from default eq ne extend from from_iter index iter iter_mut keys values values_mut into_keys into_values into_iter drain reserve shrink_to_fit clear capacity try_insert as_ref borrow deref to_owned into_owned drop fmt_none get_or_insert with_hasher with_capacity_and_hasher is_subset is_superset is_disjoint union intersection difference'.split())
# what an iterator in hash order may be asked
ADAPT=set('map filter filter_map cloned copied into_iter iter flat_map flatten chain by_ref inspect as_ref borrow clone deref into from branch unwrap expect ok unwrap_or_default'.split())
CONSUME=set('count len all any size_hint is_empty contains try_for_each_none drop'.split())
SINK=re.compile(r'^(%s::(.*::)?(HashMap|HashSet)|alloc::collections::btree::(map|set)::(BTreeMap|BTreeSet))$'%H)
BAD=[(re.compile(p),w) for p,w in [
 (r'^std::time::(SystemTime|Instant)::(now|elapsed)','the clock'),(r'^chrono::.*::(now|today)\b','the clock'),(r'^chrono::offset::local|^chrono::.*Local','the time zone'),(r'^time::','the clock'),
 (r'^(rand|rand_core|rand_chacha|getrandom|fastrand|uuid)\b','random numbers'),
 (r'^std::thread::','threads'),(r'^std::sync::mpsc','threads'),(r'^rayon','threads'),
 (r'RandomState','a random hash key'),(r'^core::hash::BuildHasher::|^std::hash::BuildHasher','a hash'),
 (r'^std::process::id','the process'),(r'^core::fmt::rt::Argument::new_pointer|core::fmt::Pointer','an address'),
 (r'^core::ptr::.*::(addr|expose_provenance|expose_addr)$','an address'),
 (r'^core::sync::atomic::','shared state'),(r'^std::sync::(poison::)?(mutex|rwlock|Mutex|RwLock|OnceLock|LazyLock|once|lazy)','shared state'),(r'LocalKey','shared state'),(r'^once_cell|^lazy_static','shared state'),
]]
CELL=re.compile(r'^(core::cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|once|lazy)|core::sync::atomic::|std::sync::(poison::)?(mutex|rwlock|once_lock|lazy_lock|Mutex|RwLock|OnceLock|LazyLock)|std::thread::local|once_cell|alloc::rc::Weak|lazy_static)')
def strip(F,t):
    n=0
    while n<9:
        T=F.types[t]; n+=1
        if T['k'] in('ref','ptr'): t=T['t']
        elif T['k']=='adt' and T['name'] in('alloc::boxed::Box','alloc::borrow::Cow') and T.get('args'): t=T['args'][-1] if T['name'].endswith('Box') is False else T['args'][0]
        else: return t
    return t
def mentions(F,t,pred,memo,depth=0,local=True):
    "does the structure of a type (type arguments; not the fields of ADTs) hold one for which pred holds"
    if t is None or depth>12: return False
    k=(t,pred.__name__)
    if k in memo: return memo[k]
    memo[k]=False; T=F.types[t]; r=pred(T)
    if not r:
        sub=[]
        if isinstance(T.get('t'),int): sub.append(T['t'])
        for f in('args','ts','fields','up','elems'):
            for x in T.get(f) or []:
                if isinstance(x,int): sub.append(x)
        r=any(mentions(F,x,pred,memo,depth+1) for x in sub)
    memo[k]=r; return r
def unordered_iter(T): return T['k']=='adt' and bool(UNIT_.match(T['name']))
def hash_container(T): return T['k']=='adt' and bool(UNORD.match(T['name']))
def cellular(T): return T['k']=='adt' and bool(CELL.match(T['name']))
def opty(b,o):
    if o.get('k') in('copy','move'): return o['p'].get('t',b['locals'][o['p']['l']])
    if o.get('k')=='const': return o.get('t')
def succ(t):
    k=t['k']; r=[]
    if k=='switch': r=[x[1] if isinstance(x,(list,tuple)) else x for x in t['ts']]+[t['else']]
    elif t.get('to') is not None: r=[t['to']]
    return r
def loop_of(b,n):
    "blocks on a cycle through block n"
    def fwd(x):
        seen=set(); w=[x]
        while w:
            for y in succ(b['blocks'][w.pop()]['t']):
                if y not in seen: seen.add(y); w.append(y)
        return seen
    f=fwd(n)
    return {x for x in f if n in fwd(x)}
class Scan:
    def __init__(self,F,r): self.F=F; self.r=r; self.memo={}; self.sites=0; self.iters=0
    def m(self,t,p): return mentions(self.F,t,p,self.memo)
    def closure_state(self,t):
        "a closure that captures a mutable reference"
        T=self.F.types[strip(self.F,t)] if t is not None else {}
        if T.get('k')!='closure': return False
        for f in('up',):
            for x in T.get(f) or []:
                if isinstance(x,int) and self.F.types[x]['k']=='ref' and self.F.types[x].get('mut'): return True
        return False
    def body(self,k):
        F=self.F; b=F.bodies[k]; bad=[]
        for n,bl in enumerate(b['blocks']):
            if bl['c']: continue
            for s in bl['s']:
                if s[0]=='=' and s[2]['r']=='cast' and 'Expose' in str(s[2].get('ck')): bad.append((s[3] if len(s)>3 else b['span'],'an address is used as a number'))
            t=bl['t']
            if t['k']!='call' or not isinstance(t['f'],dict) or 'fn' not in t['f']: continue
            f=t['f']['fn']; path=f.get('path',''); meth=effects_name(f); tys=[opty(b,a) for a in t['a']]; sp=t.get('sp')
            if f.get('crate')==F.crate: continue           # analysed where it is
            first=F.types[strip(F,tys[0])] if tys and tys[0] is not None else {'k':''}
            targs=[x for x in f.get('args') or [] if isinstance(x,int)]
            # formatting a hash map
            if path.startswith('core::fmt::rt::Argument::new') or meth=='fmt' or 'Serialize' in path or '::ser::' in path:
                if any(self.m(x,hash_container) for x in tys+targs if x is not None): bad.append((sp,'a hash map is written in its own order (%s)'%path))
            elif first['k']=='adt' and hash_container(first):
                self.sites+=1
                if meth=='retain' and not self.closure_state(tys[1]): continue
                if meth not in MAPOK: bad.append((sp,'%s is asked of a hash map'%path))
            its=[i for i,x in enumerate(tys) if x is not None and self.m(x,unordered_iter)]
            if not its: continue
            self.iters+=1
            if any(self.closure_state(x) for i,x in enumerate(tys) if x is not None and i not in its or x is not None and i==0): bad.append((sp,'%s changes state while it goes through a hash map'%path)); continue
            d=t['d'].get('t'); D=F.types[strip(F,d)] if d is not None else {'k':''}
            if meth in CONSUME: continue
            if meth in ADAPT: continue
            if meth in('collect','from_iter','extend','into_iter_sorted'):
                tgt=first if meth=='extend' else D
                while tgt['k']=='adt' and tgt['name'] in('core::result::Result','core::option::Option') and tgt.get('args'): tgt=F.types[strip(F,tgt['args'][0])]
                if tgt['k']=='adt' and SINK.match(tgt['name']): continue
                if meth=='collect' and self.sorted_next(b,t): continue
                bad.append((sp,'the elements of a hash map are collected in its own order (%s)'%tgt.get('s',tgt.get('name')))); continue
            if meth in('sum','product','min','max') and D['k'] in('int','uint'): continue
            if meth=='next':
                w=self.loop(b,n,t)
                if w is None: continue
                bad.append((w[0] or sp,w[1])); continue
            bad.append((sp,'%s depends on the order of a hash map'%path))
        return bad
    def sorted_next(self,b,t):
        "the collected list is sorted before anything else is done with it"
        d=t['d']['l'] if not t['d']['p'] else None
        if d is None or t.get('to') is None: return False
        al={d}; n=t['to']
        for _ in range(30):
            bl=b['blocks'][n]
            for s in bl['s']:
                if s[0]=='=':
                    r=s[2]; src=r.get('p') if r['r'] in('ref','rawptr') else (r['o'].get('p') if r['r'] in('use','cast') and isinstance(r.get('o'),dict) else None)
                    if src and src['l'] in al and not s[1]['p']: al.add(s[1]['l'])
            q=bl['t']
            if q['k']=='call' and isinstance(q['f'],dict) and 'fn' in q['f']:
                m=effects_name(q['f']['fn']); us=[a for a in q['a'] if a.get('k') in('copy','move') and a['p']['l'] in al]
                if us:
                    if m.startswith('sort'): return self.whole(b,q,m)
                    if m in('deref_mut','as_mut_slice','as_mut','borrow_mut','branch'): al.add(q['d']['l'])
                    else: return False
            elif q['k'] not in('goto','drop','assert','falseunwind'): 
                ss=set(succ(q))
                if len(ss)!=1: return False
            s=succ(q)
            if len(set(s))!=1: return False
            n=s[0]
        return False
    def whole(self,b,q,m):
        "a sort that leaves no order of the hash map behind: by the elements themselves, or by their whole key"
        F=self.F
        if m in('sort','sort_unstable'): return True
        if m not in('sort_by','sort_unstable_by','sort_by_key','sort_unstable_by_key','sort_by_cached_key') or len(q['a'])<2: return False
        T=F.types[strip(F,opty(b,q['a'][1]))]
        if T['k']=='fndef': return effects_name(T['fn']) in('cmp','clone','to_owned','as_str')
        c=F.bodies.get(T.get('body')) if T['k']=='closure' else None
        if c is None: return False
        def text(x):
            T=F.types[strip(F,x)]; 
            if T['k']=='tuple': return bool(T.get('ts')) and text(T['ts'][0])
            return T['k']=='str' or T['k']=='adt' and T['name']=='alloc::string::String'
        if T.get('up'): return False
        def value(p): return any(isinstance(e,(list,tuple)) and e[0]=='f' and (e[1]!=0 or F.types[strip(F,c['locals'][p['l']])]['k']!='tuple') for e in p['p'])
        ncmp=0
        for bl in c['blocks']:
            if bl['c']: continue
            if bl['t']['k']=='switch': return False
            for s in bl['s']:
                if s[0]!='=': continue
                r=s[2]; pl=r.get('p') if isinstance(r.get('p'),dict) else (r['o'].get('p') if isinstance(r.get('o'),dict) else None)
                if pl and value(pl): return False
            if bl['t']['k']!='call': continue
            f=bl['t']['f'].get('fn') or {}; n=effects_name(f)
            if n in('cmp','partial_cmp'):
                a=opty(c,bl['t']['a'][0])
                if a is None or not text(a): return False
                ncmp+=1
            elif n not in('reverse','unwrap','expect','clone','to_owned','to_string','as_str','as_ref','borrow','deref'): return False
        return ncmp>0 if m.endswith('_by') else True
    def loop(self,b,n,t):
        "an explicit loop may only insert into maps and sets"
        F=self.F; L=loop_of(b,n)
        if not L: return (t.get('sp'),'only some elements of a hash map are taken')
        exits={(x,y) for x in L for y in succ(b['blocks'][x]['t']) if y not in L and b['blocks'][y]['t']['k']!='unreachable'}
        if len({y for x,y in exits})>1: return (t.get('sp'),'a loop over a hash map ends before its last element')
        assigned=set()
        for x in L:
            bl=b['blocks'][x]
            for s in bl['s']:
                if s[0]=='=':
                    if s[1]['p'] and s[1]['p'][0]=='*': return (s[3] if len(s)>3 else None,'a loop over a hash map changes a value outside it')
                    assigned.add(s[1]['l'])
            q=bl['t']
            if q['k']!='call' or x==n: 
                if q['k']=='call': assigned.add(q['d']['l'])
                continue
            assigned.add(q['d']['l'])
            f=q['f'].get('fn') or {}; m=effects_name(f)
            for a in q['a']:
                ty=opty(b,a)
                if ty is None or F.types[ty]['k']!='ref' or not F.types[ty].get('mut'): continue
                T=F.types[strip(F,ty)]
                if T['k']=='adt' and SINK.match(T['name']) and m in('insert','extend','entry','remove'): continue
                return (q.get('sp'),'a loop over a hash map calls %s, whose effect depends on the order'%f.get('path','?'))
        # nothing assigned in the loop is read after it
        def used(o):
            if isinstance(o,dict):
                if o.get('k') in('copy','move'): yield o['p']['l']
                if o.get('r') in('ref','rawptr','discr','len') and 'p' in o: yield o['p']['l']
                for v in o.values():
                    if isinstance(v,(dict,list)): yield from used(v)
            elif isinstance(o,list):
                for v in o: yield from used(v)
        first={y for x,y in exits}; seen=set(); w=[(y,frozenset()) for y in first]
        while w:
            y,kill=w.pop()
            if (y,kill) in seen or len(seen)>400: continue
            seen.add((y,kill)); bl=b['blocks'][y]; k=set(kill)
            if bl['c']: continue
            for s in bl['s']:
                if s[0]=='=':
                    for u in used(s[2]):
                        if u in assigned and u not in k and not self.unit(b,u): return (s[3] if len(s)>3 else None,'the last element of a loop over a hash map is used after it')
                    if not s[1]['p']: k.add(s[1]['l'])
            q=bl['t']
            if q['k']=='call':
                for a in q['a']:
                    for u in used(a):
                        if u in assigned and u not in k and not self.unit(b,u): return (q.get('sp'),'the last element of a loop over a hash map is used after it')
                k.add(q['d']['l'])
            elif q['k']=='switch':
                for u in used(q.get('o')):
                    if u in assigned and u not in k: return (q.get('sp'),'the last element of a loop over a hash map decides what follows')
            for z in succ(q):
                if z not in L: w.append((z,frozenset(k)))
        return None
    def unit(self,b,l): 
        T=self.F.types[b['locals'][l]]; return T['s'] in('()','!')
def effects_name(f):
    from facts import mname
    return f.get('method') or mname(f.get('path',''))
def c23(F,r):
    r.rule=('call graph from the default helpers (rand excepted), the parser and the renderer; obligations: no clock, thread, address or random source is reachable; hash maps are only '
            'asked for what does not depend on their order; no value that outlives a call can be changed through a shared reference')
    rs,_=helpers.registrations(F,'with_defaults'); roots=set(); names=0; caps=[]; rand=set()
    for reg in rs or []:
        for nm,f in reg:
            k=key(f) if f[0]=='fn' else f[1]
            if nm==('str','rand'): rand.add(k); continue
            names+=1
            roots.add(k); caps.append((nm[1],k,f))
    r.floor('helpers',names,60)
    cr=authority.core_roots(F); roots|={k for k in cr if F.bodies[k]['path'].split('::<')[0].split('::')[-1]!='default_func_man'}
    for k,b in F.bodies.items():
        if b['kind']=='fn' and b['local'] and b.get('method') in('fmt','eq','partial_cmp','serialize','hash','cmp') and 'TData' in b['path'] and 'Debug' not in b['path']: roots.add(k)
    cg=effects.CallGraph(F); par,ext=cg.reach(sorted(roots),lambda k:k in rand); S=Scan(F,r); seen=set()
    for f,k,sp in ext:
        if not F.bodies[k]['local']: continue
        for p in(f.get('path') or '',f.get('rpath') or ''):
            for rx,w in BAD:
                if rx.search(p):
                    o='%s in %s'%(p,F.bodies[k]['path'])
                    if o not in seen: seen.add(o); r.ob(o,False,'%s depends on %s: %s'%(F.bodies[k]['path'],w,cg.chain(par,k)),sp)
    n=0
    for k in sorted(par):
        b=F.bodies[k]
        if not b['local'] or k in rand: continue
        n+=1
        for sp,w in S.body(k):
            o='%s: %s'%(b['path'],w)
            if o in seen: continue
            seen.add(o); r.ob(o,False,w+' in '+cg.chain(par,k),sp)
    r.floor('functions reached',n,150); r.count('questions to hash maps',S.sites); r.count('iterations in hash order',S.iters)
    r.floor('iterations in hash order',S.iters,2)
    # state
    for st in F.statics:
        if st['mut'] or not st['freeze']: r.ob('static '+st['path'],False,'a static that can be changed: '+st['ty'])
    nf=0
    for name,t in sorted(F.adts.items()):
        for v in F.types[t].get('variants') or []:
            for fn,ft in v['f']:
                nf+=1
                if S.m(ft,cellular): r.ob('field %s of %s'%(fn,name),False,'can be changed through a shared reference: state kept between calls')
    for nm,k,f in caps:
        b=F.bodies.get(k)
        if b and b['closure'] and len(b['locals'])>1 and S.m(strip(F,b['locals'][1]),cellular): r.ob('helper %s keeps state'%nm,False,'its closure captures a value it can change',b['span'])
    r.count('fields of types',nf); r.ob('all',True,'%d functions, %d fields'%(n,nf))
    r.assumptions=['other crates are deterministic apart from the listed functions and hash maps','helpers, parameters and managers of the embedding program are deterministic']
