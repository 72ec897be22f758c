"""The grammars of this crate as combinator terms: every rule (a type with gobble's Parser trait) is evaluated symbolically
down to the combinators it is built from.  On the terms: what each alternative consumes and which value it yields, and
finite automata for the text a term may consume (an over-approximation: choices and repetitions are taken freely)."""
import work
from ai import *
from natives import cont
PARSE='gobble::ptrait::Parser::parse'
class Unknown(Exception): pass
def gobble_paths(F):
    ps={}
    for b in F.bodies.values():
        for bb in b.get('bbs') or b['blocks']:
            t=bb['t']
            if t['k']=='call' and t['f'].get('fn') and 'gobble' in(t['f']['fn'].get('crate'),t['f']['fn'].get('rcrate')): ps[t['f']['fn']['path']]=1
    return sorted(ps)
def gname(path): return ('c.' if '::CharBool::' in path else '')+path.split('::')[-1]
TEXT={'strung','err','err_p','err_rp','err_op','err_s','err_rs','err_r','err_oc','join','join_op','longer','lc','index','as_str','expected'}
def engine(F):
    A=work.interp(F); A.nomerge=True
    def cons(path):
        nm=gname(path)
        def h(ai,st,c,args): return [(st,('ap','g',nm)+tuple(cont(ai,st,a) for a in args))]
        return h
    for p in gobble_paths(F):
        if p!=PARSE: A.anchors[p]=cons(p)
    def parse(ai,st,c,args):
        r=ai.fresh('ret','parse'); st=st.copy(); st.ev=st.ev+(('parse',(cont(ai,st,args[0]),cont(ai,st,args[1])),r,c.span),)
        ai.typed(r,c.dty); return [(st,r)]
    A.anchors[PARSE]=parse
    return A
def rulekeys(F):
    "rule type name -> body key"
    out={}
    for k,b in F.bodies.items():
        if b['kind']=='fn' and 'promoted' not in k and b['path'].endswith(' as gobble::ptrait::Parser>::parse') and b['path'].startswith('<templito'):
            out[b['path'][1:].split(' as ')[0]]=k
    return out
class Grammar:
    def __init__(self,F):
        self.F=F; self.A=engine(F); self.keys=rulekeys(F); self.bad={}; self.t={}; self.n=0
        def cb(ai,st,c,args):
            x,ch=cont(ai,st,args[0]),cont(ai,st,args[1])
            if ch[0]=='char': return [(st,TRUE if self.member(x,chr(ch[1])) else FALSE)]
            return [(st,('ap','g','c.char_bool',x,ch))]
        for p in gobble_paths(F):
            if p.endswith('CharBool::char_bool'): self.A.anchors[p]=cb
        for n,k in self.keys.items():
            try:
                ts=set()
                for s,v in self.A.run_body(k,[('arg',0),('arg',1)],St()):
                    ev=[e for e in s.ev if e[0]=='parse']
                    if len(ev)!=1 or ev[0][1][1]!=('arg',1): raise Unknown('the rule does not parse once from where it starts')
                    if any(e[0]=='loop' for e in s.ev): raise Unknown('the rule contains a loop')
                    # what is returned must be what was parsed
                    if v[0]=='adt' and v[2]=='Ok' and v[3][0]!=project(ev[0][2],'Ok',0): raise Unknown('the rule returns something else than what it parsed')
                    ts.add(ev[0][1][0])
                if len(ts)!=1: raise Unknown('the rule depends on more than its text')
                self.t[n]=self.norm(next(iter(ts)))
            except (Unknown,TooBig) as e: self.bad[n]=str(e)
    # ---- normal form of terms
    def norm(self,t):
        k=t[0]
        if k in('str','char'): return ('lit',t[1] if k=='str' else chr(t[1]))
        if k=='tup': return ('seq',tuple(self.norm(x) for x in t[1]))
        if k=='adt':
            if t[1] in self.keys: return ('rule',t[1])
            if t[1].startswith('gobble::common::'): return ('prim',t[2])
            if t[1]=='gobble::reader::EOI': return ('end',)
            raise Unknown('parser %s is not understood'%t[1])
        if k=='fn':
            if t[1][0] in('gobble::reader::eoi',): return ('end',)
            raise Unknown('parser function %s is not understood'%t[1][0])
        if t[:2]==('ap','g'):
            n,a=t[2],t[3:]
            N=self.norm
            if n in('or','maybe','exists','fail_on','peek','brk','keyword','star','plus','sep_star','sep_plus','sep_until','sep_until_ig','star_until','star_until_ig',
                    'plus_until','plus_until_ig','chars_until','strings_plus_until','middle','last','first','ig_then','then_ig','then','ig','string','ws_','ws__','s_','wrap'):
                return (n,)+tuple(N(x) for x in a)
            if n in('map','try_map','asv','map_exp'): return (n,N(a[0]),a[1])
            if n in('c.star','c.any','c.istar'): return ('set',a[0],0,None,n)
            if n in('c.plus','c.iplus'): return ('set',a[0],1,None,n)
            if n=='c.one': return ('set',a[0],1,1,n)
            if n in('c.exact','c.iexact') and a[1][0]=='int' and a[1][1]>0: return ('set',a[0],a[1][1],a[1][1],n)
            if n=='c.min_n' and a[1][0]=='int': return ('set',a[0],a[1][1],None,n)
            if n=='one_char': return ('set',a[0],1,1,'c.one')
            if n in('or2','or3','or4','or5','or6'):
                r=N(a[0])
                for x in a[1:]: r=('or',r,N(x))
                return r
            if n=='exact' and a[1][0]=='int' and a[1][1]>0: return ('exact',N(a[0]),a[1][1])
        raise Unknown('parser %s is not understood'%repr(t)[:80])
    # ---- may a term succeed without consuming; what runs where it starts
    def nullable(self):
        null={n:False for n in self.t}; ch=True
        while ch:
            ch=False
            for n,t in self.t.items():
                if not null[n] and self.N(t,null): null[n]=True; ch=True
        return null
    def N(self,t,null):
        k=t[0]; N=lambda x: self.N(x,null)
        if k=='lit': return t[1]==''
        if k=='seq': return all(N(x) for x in t[1])
        if k=='rule': return null.get(t[1],True)
        if k=='prim': return False
        if k=='end': return True
        if k=='set': return t[2]==0
        if k=='or': return any(N(x) for x in t[1:])
        if k in('maybe','exists','fail_on','peek','star','sep_star'): return True
        if k in('brk','keyword','plus','map','try_map','asv','map_exp','ig','string','ws_','ws__','s_','sep_plus','exact'): return N(t[1])
        if k in('middle','last','first','ig_then','then_ig','then','wrap','plus_until','plus_until_ig','strings_plus_until'): return all(N(x) for x in t[1:])
        if k in('sep_until','sep_until_ig'): return N(t[3])
        if k in('star_until','star_until_ig','chars_until'): return N(t[2])
        raise Unknown('parser '+k)
    def left(self,t,null):
        "rules that may start where t starts"
        k=t[0]; L=lambda x: self.left(x,null); N=lambda x:self.N(x,null)
        def seq(xs):
            r=set()
            for x in xs:
                r|=L(x)
                if not N(x): break
            return r
        if k=='rule': return {t[1]}
        if k in('lit','prim','end','set'): return set()
        if k=='seq': return seq(t[1])
        if k=='or': return set().union(*[L(x) for x in t[1:]])
        if k in('map','try_map','asv','map_exp','brk','keyword','plus','ig','string','ws_','ws__','s_','exact','maybe','exists','fail_on','peek','star'): return L(t[1])
        if k in('middle','last','first','ig_then','then_ig','then','wrap'): return seq(t[1:])
        if k in('sep_star','sep_plus'): return seq(t[1:])
        if k in('sep_until','sep_until_ig'): return L(t[3])|L(t[1])|(L(t[2])|L(t[3]) if N(t[1]) else set())
        if k in('star_until','star_until_ig','plus_until','plus_until_ig','chars_until','strings_plus_until'): return L(t[1])|L(t[2])
        raise Unknown('parser '+k)
    def subterms(self,t):
        yield t
        for x in (t[1] if t[0]=='seq' else t[1:2] if t[0] in('map','try_map','asv','map_exp','exact') else () if t[0] in('lit','rule','prim','end','set') else t[1:]):
            yield from self.subterms(x)
    # ---- alternatives: what is consumed, and the value
    def fresh(self): self.n+=1; return ('gval',self.n)
    def call(self,s,f,v):
        A=self.A
        def go(s):
            if f[0]=='clo': return A.run_body(f[1],[f,v],s)
            if f[0]=='fn':
                fn=A.fns[f[1]]
                if fn.get('ctor'):
                    r=A.ctor(fn,[v],None)
                    if r is not None: return [(s,r)]
                k=fn.get('body') or fn.get('path')
                if k in self.F.bodies: return A.run_body(k,[v],s)
            raise Unknown('function %s'%repr(f)[:80])
        return A.retry(s,go)
    def alts(self,t,s=None,inline=()):
        """[(atoms, state, value)]"""
        s=s or St(); k=t[0]; R=lambda x,s: self.alts(x,s,inline)
        if k=='lit': return [((t,),s,('str',t[1]) if len(t[1])!=1 else ('litv',t[1]))]
        if k=='end': return [((t,),s,UNIT)]
        if k=='rule' and t[1] in inline and t[1] in self.t: return R(self.t[t[1]],s)
        if k in('rule','prim'): v=self.fresh(); return [((t+(v,),),s,v)]
        if k=='set': v=self.fresh(); return [((t+(v,),),s,UNIT if t[4] in('c.istar','c.iplus','c.iexact') else v)]
        if k=='or': return [x for y in t[1:] for x in R(y,s)]
        if k in('brk','map_exp'): return R(t[1],s)
        if k=='keyword': return [(a+(('wordend',),),s2,v) for a,s2,v in R(t[1],s)]
        if k=='ig': return [(a,s2,UNIT) for a,s2,_ in R(t[1],s)]
        if k=='asv': return [(a,s2,t[2]) for a,s2,_ in R(t[1],s)]
        if k=='string':
            r=[]
            for a,s2,_ in R(t[1],s): v=self.fresh(); r.append(((('text',a,v),),s2,v))
            return r
        if k=='map': return [(a,s3,v2) for a,s2,v in R(t[1],s) for s3,v2 in self.call(s2,t[2],self.plain(v))]
        if k=='try_map':
            r=[]
            for a,s2,v in R(t[1],s):
                for s3,w in self.call(s2,t[2],self.plain(v)):
                    if w[0]=='adt' and w[2]=='Ok': r.append((a,s3,w[3][0]))
                    elif w[0]=='adt' and w[2]=='Err': r.append((a+(('fails',),),s3,None))
                    else:
                        vs=self.A.variants_of(s3,w)
                        r.append((a,s3,project(w,'Ok',0)))
            return r
        if k=='maybe': return [(a,s2,adt(OPT,'Some',self.plain(v))) for a,s2,v in R(t[1],s)]+[((('not',t[1]),),s,adt(OPT,'None'))]
        if k=='exists': return [(a,s2,TRUE) for a,s2,_ in R(t[1],s)]+[((('not',t[1]),),s,FALSE)]
        if k=='fail_on': return [((('not',t[1]),),s,UNIT)]
        if k=='peek': return [((('peek',t[1]),),s2,v) for a,s2,v in R(t[1],s)]
        if k in('star','plus','sep_star','sep_plus','exact'): v=self.fresh(); return [((('rep',t,v),),s,v)]
        if k in('sep_until','star_until','plus_until','chars_until','strings_plus_until'):
            v=self.fresh(); e=t[3] if k=='sep_until' else t[2]
            return [((('rep',t[:-1],v),)+a,s2,('tup',(v,self.plain(w)))) for a,s2,w in R(e,s)]
        if k in('sep_until_ig','star_until_ig','plus_until_ig'):
            v=self.fresh(); e=t[3] if k=='sep_until_ig' else t[2]
            return [((('rep',(k[:-3],)+t[1:-1],v),)+a,s2,v) for a,s2,w in R(e,s)]
        if k in('ws_','ws__','s_'):
            return [((('set',('gws',),0,None,'c.istar',self.fresh()),)+a+(() if k=='ws_' else (('set',('gws',),0,None,'c.istar',self.fresh()),)),s2,v) for a,s2,v in R(t[1],s)]
        xs=t[1] if k=='seq' else t[1:]
        if k=='wrap': xs=(t[1],t[2],t[1])
        cur=[((),s,())]
        for x in xs: cur=[(a+a2,s3,vs+(v,)) for a,s2,vs in cur for a2,s3,v in R(x,s2)]
        pick={'seq':None,'then':None,'middle':1,'last':1,'first':0,'ig_then':1,'then_ig':0,'wrap':1}[k]
        return [(a,s2,('tup',tuple(self.plain(v) for v in vs)) if pick is None else vs[pick]) for a,s2,vs in cur]
    def plain(self,v):
        if v is not None and v[0]=='litv': return ('str',v[1])
        return v
    # ---- character sets
    def member(self,t,ch):
        k=t[0]
        if k=='char': return chr(t[1])==ch
        if k=='str': return ch in t[1]
        if k=='gws': return ch in ' \t'
        if k=='tup': return any(self.member(x,ch) for x in t[1])
        if t[:3]==('ap','g','not'): return not self.member(t[3],ch)
        if t[:3]==('ap','g','c.except'): return self.member(t[3],ch) and not self.member(t[4],ch)
        if k=='adt' and t[1].startswith('gobble::chars::'):
            a=ch.isascii()
            r={'Alpha':a and ch.isalpha(),'NumDigit':a and ch.isdigit(),'Any':True,'HexDigit':a and ch in '0123456789abcdefABCDEF','WS':ch in '\t ','WSL':ch in ' \t\n\r'}
            if t[2] in r: return r[t[2]]
        key=None
        if k=='adt': key=[x for x,b in self.F.bodies.items() if b['path']=='<%s as gobble::chars::CharBool>::char_bool'%t[1]]; args=[t,('char',ord(ch))]
        if k=='clo': key=[t[1]]; args=[t,('char',ord(ch))]
        if key:
            vs={v for _,v in self.A.run_body(key[0],args,St())}
            if len(vs)==1 and next(iter(vs)) in(TRUE,FALSE): return next(iter(vs))==TRUE
        raise Unknown('character set %s'%repr(t)[:80])
    def setof(self,t,alpha):
        c=getattr(self,'_sets',None)
        if c is None: c=self._sets={}
        if (t,alpha) not in c: c[(t,alpha)]=frozenset(x for x in alpha if self.member(t,x))
        return c[(t,alpha)]
    def alphabet(self,terms,extra=''):
        "a finite set of characters on which every set used agrees with all the others"
        cs=set(extra)|set('aZ9_ \t\n\r\u00e9"\\{}#\'-')
        def walk(t):
            if t[0]=='lit': cs.update(t[1])
            if t[0]=='set': sets(t[1])
            if t[0]=='rule' and t[1] not in seen and t[1] in self.t: seen.add(t[1]); walk(self.t[t[1]])
            for x in self.subterms(t):
                if x is not t: walk(x)
        def sets(x):
            if x[0]=='char': cs.add(chr(x[1]))
            if x[0]=='str': cs.update(x[1])
            if x[0] in('tup',): [sets(y) for y in x[1]]
            if x[0]=='ap': [sets(y) for y in x[3:]]
        seen=set()
        for t in terms: walk(t)
        return frozenset(cs)
class Nfa:
    """text a term may consume.  States are numbers; `eps`, `step` (char set), `nots`: edges passable only where a literal does
    not follow, `peek` edges are taken freely.  Recursive rules are refused."""
    def __init__(self,G,alpha,loose=()):
        self.G=G; self.alpha=alpha; self.eps={}; self.step={}; self.nots={}; self.n=0; self.loose=loose
    def new(self): self.n+=1; return self.n-1
    def e(self,a,b): self.eps.setdefault(a,[]).append(b)
    def build(self,t,a,stack=()):
        "states reached from a after t; returns the end state"
        k=t[0]; B=lambda t,a: self.build(t,a,stack)
        if k=='lit':
            for ch in t[1]: b=self.new(); self.step.setdefault(a,[]).append((frozenset(ch),b)); a=b
            return a
        if k=='set':
            cs=self.G.setof(t[1],self.alpha)
            for _ in range(t[2]): b=self.new(); self.step.setdefault(a,[]).append((cs,b)); a=b
            if t[3] is None:                                                            # as many as there are
                b=self.new(); self.e(a,b); self.step.setdefault(b,[]).append((cs,b))
                z=self.new(); self.nots.setdefault(b,[]).append(((cs,),z)); return z
            return a
        if k=='end': return a
        if k=='rule':
            if t[1] in stack:
                raise Unknown('recursive rule')
            return self.build(self.G.t[t[1]],a,stack+(t[1],))
        if k=='prim':
            b=self.new(); cs=self.G.setof(('tup',(('adt','gobble::chars::Alpha','Alpha',()),('adt','gobble::chars::NumDigit','NumDigit',()),('str','_-.'))),self.alpha)
            self.step.setdefault(a,[]).append((cs,b)); self.step.setdefault(b,[]).append((cs,b)); return b
        if k=='or':
            z=self.new(); cur=a
            for x in t[1:]:
                self.e(self.branch(x,cur,stack),z)
                for p in self.sures(x):                     # the next is tried where this one fails
                    b=self.new(); self.nots.setdefault(cur,[]).append((p,b)); cur=b
            return z
        if k in('map','try_map','asv','map_exp','brk','keyword','ig','string'): return B(t[1],a)
        if k in('maybe','exists'):
            z=self.new(); self.e(self.branch(t[1],a,stack),z)
            if t[1][0]=='lit': self.nots.setdefault(a,[]).append((tuple(map(frozenset,t[1][1])),z))
            else: self.e(a,z)
            return z
        if k=='fail_on':
            z=self.new()
            if t[1][0]=='lit': self.nots.setdefault(a,[]).append((tuple(map(frozenset,t[1][1])),z))
            else: self.e(a,z)
            return z
        if k=='peek': return a
        if k in('star','plus','sep_star','sep_plus','exact'):
            a0=self.new(); self.e(a,a0); z=self.new()
            b=B(t[1],a0); self.e(b,z)
            if k in('sep_star','sep_plus'): b=B(t[2],b)
            self.e(b,a0)
            if k in('star','sep_star'): self.e(a,z)
            return z
        if k in('sep_until','sep_until_ig','star_until','star_until_ig','plus_until','plus_until_ig','chars_until','strings_plus_until'):
            a0=self.new(); self.e(a,a0); z=self.new()
            b=B(t[1],a0); self.e(b,z)
            if k.startswith('sep'): b=B(t[2],b)
            self.e(b,a0)
            if not k.startswith(('plus','strings')): self.e(a,z)
            return B(t[-1],z)
        if k in('ws_','ws__','s_'):
            w=('set',('gws',),0,None,''); a=B(t[1],B(w,a)); return a if k=='ws_' else B(w,a)
        for x in (t[1] if k=='seq' else t[1:] if k!='wrap' else (t[1],t[2],t[1])): a=B(x,a)
        return a
    def sures(self,t):
        "character sequences (as sets) that t certainly accepts as a beginning: t succeeds wherever one of them stands"
        k=t[0]
        if k=='or': return [p for x in t[1:] for p in self.sures(x)]
        if k in('map','asv','brk','ig','string'): return self.sures(t[1])
        p=self.sure(t); return [p] if p else []
    def sure(self,t):
        k=t[0]
        if k=='lit': return tuple(map(frozenset,t[1]))
        if k=='set': return (self.G.setof(t[1],self.alpha),)*t[2]
        if k in('maybe','exists','star'): return ()
        if k in('map','asv','brk','ig','string'): return self.sure(t[1])
        if k in('seq','middle','last','first','ig_then','then_ig','then'):
            out=(); loose=False
            for x in (t[1] if k=='seq' else t[1:]):
                p=self.sure(x)
                if p is None or p and loose: return None
                out+=p
                if x[0] in('maybe','exists','star') or x[0]=='set' and x[3] is None: loose=True
            return out
        return None
    def branch(self,t,a,stack):
        b=self.new(); self.e(a,b); return self.build(t,b,stack)
    def closure(self,qs,nxt=None):
        """states reachable silently; a state guarded by 'does not follow' is kept with its condition"""
        seen=set(qs); st=list(qs)
        while st:
            q=st.pop()
            for r in self.eps.get(q,()):
                if r not in seen: seen.add(r); st.append(r)
        return seen
def words(nfa,start,end,mon,init):
    """explores nfa x monitor; mon(state, char) -> state or None to stop (an accepted violation is signalled by raising);
    yields (monitor state, pending 'must not follow' conditions) at the end state"""
    seen=set(); todo=[(start,init,())]; out=set()
    while todo:
        x=todo.pop()
        if x in seen: continue
        seen.add(x); q,m,cond=x
        if q==end: out.add((m,cond))
        for r in nfa.eps.get(q,()): todo.append((r,m,cond))
        for lit,r in nfa.nots.get(q,()): todo.append((r,m,cond if lit in cond else cond+(lit,)))
        for cs,r in nfa.step.get(q,()):
            for ch in cs:
                if any(ch in c[0] and len(c)==1 for c in cond): continue
                nc=tuple(c[1:] for c in cond if len(c)>1 and ch in c[0])
                m2=mon(m,ch)
                if m2 is not None: todo.append((r,m2,nc))
    return out
