#!/usr/bin/env python3
"""benign.py ID...|all [-p C02,C28] : apply a behaviour-preserving edit of tools/benign/*.py to a scratch copy; the checks have to stay quiet."""
import os,sys,subprocess,json,glob
import multiprocessing as mp,time,importlib
R=os.environ.get('VR','/verif'); sys.path[:0]=[R,R+'/sa']
import check,core
from facts import Facts
def run_check(pid,F,q):
    try:
        m,fn=check.TABLE[pid]; r=core.Report(pid); os.dup2(os.open(os.devnull,os.O_WRONLY),1); os.dup2(os.open(os.devnull,os.O_WRONLY),2)
        try: getattr(importlib.import_module('checks.'+m),fn)(F,r)
        except (SystemExit,Exception) as e: r.ob('completes',False,str(e)[:200])
        for name,n,least in r.floors:
            if n<least: r.viol.setdefault('anchor:'+name,('floor',''))
        kf={f['key'] for f in core.known()['findings'] if f.get('property')==pid}
        q.put((pid,[(k,v[0]) for k,v in r.viol.items() if k not in kf][:4]))
    except BaseException as e: q.put((pid,[('crash',str(e)[:100])]))
R=os.environ.get('VR','/verif'); W=os.environ.get('BW','/tmp/benign')
B={}
def benign(id,props,edits): assert id not in B; B[id]=(props,edits)
for f in sorted(glob.glob(R+'/tools/benign/*.py')): exec(open(f).read())
def sh(c,cwd=None,env=None,t=900):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(['bash','-c',c],cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t); return p.returncode,p.stdout
a=[x for x in sys.argv[1:]]
only=None
if '-p' in a: i=a.index('-p'); only=a[i+1].split(','); del a[i:i+2]
skip=[]
if '-x' in a: i=a.index('-x'); skip=a[i+1].split(','); del a[i:i+2]
ids=list(B) if a==['all'] else a
os.makedirs(W,exist_ok=True); repo=W+'/repo'
env=dict(HOME='/root',PATH=os.environ['PATH']+':/root/.cargo/bin',RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_TERM_COLOR='never',RUSTFLAGS='-Awarnings',CARGO_TARGET_DIR=repo+'/target')
bad=0
for id in ids:
    props,edits=B[id]; print('==',id,flush=True)
    sh('[ -d %s/.git ] || git clone -q /repo %s; cd %s && git checkout -q -f . && git pull -q && cp /repo/Cargo.lock . 2>/dev/null'%(repo,repo,repo))
    okk=True
    for f,old,new in edits:
        s=open(repo+'/'+f).read()
        if s.count(old)!=1: print('  EDIT matches %d times in %s: %r'%(s.count(old),f,old[:60])); okk=False; break
        open(repo+'/'+f,'w').write(s.replace(old,new))
    if not okk: bad+=1; continue
    rc,o=sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1',repo,env)
    if rc!=0: print('  TESTS',rc,o[-1200:]); bad+=1; continue
    out=W+'/f.json'
    rc,o=sh(R+'/dump.sh '+out,R,dict(SA_REPO=repo,SA_TARGET=W+'/satarget'))
    if rc!=0: print('  NODUMP',o[-300:],flush=True); bad+=1; continue
    todo=[p for p in (props if only is None else only) if p not in skip]; q=mp.Queue(); live={}
    F=Facts(out)
    while todo or live:
        while todo and len(live)<int(os.environ.get('MJ','4')):
            c=todo.pop(0); pr=mp.Process(target=run_check,args=(c,F,q)); pr.start(); live[c]=(pr,time.time())
        try: pid,v=q.get(timeout=900)
        except Exception: print('  TIMEOUT',list(live)); bad+=1; [pr.kill() for pr,_ in live.values()]; break
        pr,t=live.pop(pid); pr.join()
        if v:
            bad+=1; print('  ALARM',pid,'%ds'%(time.time()-t)); print('\n'.join('     '+str(x)[:300] for x in v),flush=True)
    sh('git checkout -q -f .',repo)
print('%d edits, %d problems'%(len(ids),bad))
