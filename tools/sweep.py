#!/usr/bin/env python3
"""sweep.py [ID...] : run each planted bug's own check on a scratch copy with the bug applied; writes tools/caught.json."""
import os,sys,subprocess,json,importlib,time
import multiprocessing as mp
R=os.environ.get('VR','/verif'); sys.path[:0]=[R,R+'/sa']
import check,core
from facts import Facts
W=os.environ.get('SW','/tmp/sweep'); N=int(os.environ.get('SN','3'))
def sh(c,cwd=None,env=None):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(['bash','-c',c],cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=900); return p.returncode,p.stdout
def run_check(pid,out,q):
    os.dup2(os.open(os.devnull,os.O_WRONLY),1); os.dup2(os.open(os.devnull,os.O_WRONLY),2)
    try:
        m,fn=check.TABLE[pid]; r=core.Report(pid); F=Facts(out)
        try: getattr(importlib.import_module('checks.'+m),fn)(F,r)
        except (SystemExit,Exception) as e: r.ob('completes',False,str(e)[:200])
        for name,n,least in r.floors:
            if n<least: r.viol.setdefault('anchor:'+name,('floor',''))
        kf={f['key'] for f in core.known()['findings'] if f.get('property')==pid}
        q.put([k for k in r.viol if k not in kf][:3])
    except BaseException as e: q.put(['crash '+str(e)[:100]])
def worker(n,jobs,res):
    w='%s/%d'%(W,n); repo=w+'/repo'; os.makedirs(w,exist_ok=True)
    while True:
        b=jobs.get()
        if b is None: return
        sh('[ -d %s/.git ] || git clone -q /repo %s; cd %s && git checkout -q -f . && git pull -q; cp /repo/Cargo.lock . 2>/dev/null'%(repo,repo,repo))
        rc,o=sh('git apply %s/seeded/%s/patch.diff'%(R,b),repo)
        if rc: res.put((b,None,'patch does not apply')); continue
        rc,o=sh(R+'/dump.sh %s/f.json'%w,R,dict(SA_REPO=repo,SA_TARGET=w+'/t'))
        if rc: res.put((b,None,'no facts '+o[-100:])); continue
        pid=json.load(open('%s/seeded/%s/meta.json'%(R,b)))['property']; q=mp.Queue(); pr=mp.Process(target=run_check,args=(pid,w+'/f.json',q)); pr.start()
        try: v=q.get(timeout=900)
        except Exception: v=None; pr.kill()
        pr.join(); res.put((b,bool(v) if v is not None else None,v))
if __name__=='__main__':
    ids=sys.argv[1:] or sorted(os.listdir(R+'/seeded')); jobs=mp.Queue(); res=mp.Queue()
    for b in ids: jobs.put(b)
    ps=[mp.Process(target=worker,args=(n,jobs,res)) for n in range(N)]
    for p in ps: jobs.put(None)
    for p in ps: p.start()
    P=R+'/tools/caught.json'; c=json.load(open(P)) if os.path.exists(P) else {}
    for _ in ids:
        b,ok,v=res.get(); print(b,ok,str(v)[:150],flush=True)
        c[b]=ok; json.dump(dict(sorted(c.items())),open(P,'w'),indent=0)
    print('caught',sum(1 for b in ids if c[b]),'of',len(ids))
