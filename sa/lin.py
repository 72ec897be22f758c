"""Linear integer constraints: the numeric part of the abstract domain (polyhedra by
Fourier-Motzkin elimination, restricted to the atoms a query is connected to)."""
from functools import lru_cache
from math import gcd

# a linear form is (const, ((atom,coef),...)) with atoms sorted by repr; meaning  const + sum coef*atom
_rep={}
def rep(a):
    r=_rep.get(a)
    if r is None: r=_rep[a]=repr(a)
    return r
def _key(x): return rep(x[0])
def lf(c, d):
    ts=[x for x in d.items() if x[1]]
    if len(ts)>1: ts.sort(key=_key)
    return (c, tuple(ts))
def ladd(a,b,kb=1):
    d=dict(a[1])
    for x,k in b[1]:
        d[x]=d.get(x,0)+kb*k
    return lf(a[0]+kb*b[0], d)
def lscale(a,k):
    return lf(a[0]*k, {x:c*k for x,c in a[1]})
def lconst(c): return (c,())
def norm(f):
    """tighten f>=0 over the integers"""
    c,ts=f
    if not ts: return f
    g=0
    for _,k in ts: g=gcd(g,abs(k))
    if g>1: return (c//g, tuple((a,k//g) for a,k in ts))
    return f

def feasible(cons, limit=1200):
    """False only when the conjunction of f>=0 has no integer solution (rational + tightening)."""
    cs=set()
    for f in cons:
        f=norm(f)
        if not f[1]:
            if f[0]<0: return False
            continue
        cs.add(f)
    while True:
        # tightest per direction
        best={}
        for c,ts in cs:
            if ts not in best or c<best[ts]: best[ts]=c
        cs={(c,ts) for ts,c in best.items()}
        for ts,c in best.items():
            neg=tuple((a,-k) for a,k in ts)
            if neg in best and best[neg]+c<0: return False
        if not cs: return True
        # pick the atom with the fewest combinations
        pos={};neg={}
        for f in cs:
            for a,k in f[1]:
                (pos if k>0 else neg).setdefault(a,[]).append(f)
        atoms=set(pos)|set(neg)
        bestn=None
        for a in atoms:
            n=len(pos.get(a,()))*len(neg.get(a,()))-len(pos.get(a,()))-len(neg.get(a,()))
            if bestn is None or n<bestn[0] or (n==bestn[0] and rep(a)<rep(bestn[1])): bestn=(n,a)
        a=bestn[1]
        P=pos.get(a,[]);N=neg.get(a,[])
        new={f for f in cs if not any(x==a for x,_ in f[1])}
        for p in P:
            kp=dict(p[1])[a]
            for q in N:
                kq=-dict(q[1])[a]
                g=gcd(kp,kq)
                f=norm(ladd(lscale(p,kq//g),q,kp//g))
                if not f[1]:
                    if f[0]<0: return False
                else: new.add(f)
        if len(new)>limit: return True   # give up: cannot refute
        cs=new
