"""Root-by-root analysis in parallel worker processes."""
import os, sys, time, traceback, multiprocessing as mp, signal
import ai as AIM
from ai import *
import summ
G={}
class Late(Exception): pass
def _alarm(*a): raise Late()
def _one(i):
    root=G['roots'][i]
    signal.signal(signal.SIGALRM,_alarm); signal.alarm(G['limit'])
    sys.setrecursionlimit(20000)
    t0=time.time()
    try:
        x=G['fn'](G['F'],root)
        if os.environ.get('SLOW') and time.time()-t0>2: sys.stderr.write('%.1fs %s\n'%(time.time()-t0,root[:2]))
        return i,x,None
    except Late: return i,None,'no result within %d s'%G['limit']
    except TooBig as e: return i,None,'too many cases: %s'%e
    except RecursionError: return i,None,'nesting too deep'
    except Exception as e: return i,None,'%s: %s'%(type(e).__name__,''.join(traceback.format_exc()[-600:]))
    finally: signal.alarm(0)
def pool(F,roots,fn,limit=240,procs=8):
    """[(root, result, error)]"""
    roots=list(roots)
    if not roots: return []
    G.update(F=F,roots=roots,fn=fn,limit=limit)
    out=[None]*len(roots)
    import gc; gc.collect(); gc.freeze(); gc.disable()
    ctx=mp.get_context('fork')
    with ctx.Pool(min(procs,len(roots))) as p:
        for i,r,e in p.imap_unordered(_one,range(len(roots)),1): out[i]=(roots[i],r,e)
    return out
def interp(F,extra=None,drop=()):
    anchors=summ.base()
    called=set()
    def rec(k,h):
        def g(ai,st,c,args):
            r=h(ai,st,c,args)
            if r is not None and c.fn is not None:
                called.add(c.fn.get('body') or c.rpath)
            return r
        return g
    A=AI(F,{k:(rec(k,h) if k!='dyncall' else h) for k,h in anchors.items() if k not in drop})
    if extra: A.anchors.update(extra)
    A.called=called
    return A
def generic(F,k):
    """the polymorphic body a monomorphic copy was made from"""
    b=F.bodies.get(k)
    if b is None: return None
    if '@' in k or True:
        n=norm_path(b['path'])
        best=[x for x,y in F.bodies.items() if y['kind']=='fn' and norm_path(y['path'])==n and '@' not in x] if False else None
    return k
