#!/usr/bin/env python3
"""mutate.py SEED COUNT [FILE...] : small edits of the source that still compile and pass the tests; which check, if any, notices each.
A survivor is either an edit that changes nothing, a behaviour no property speaks about, or a gap. Works on a scratch clone."""
import os,sys,subprocess,random,re,json,time,multiprocessing as mp,signal
R=os.environ.get('VR','/verif'); W=os.environ.get('MW','/tmp/mut'); repo=W+'/repo'
sys.path.insert(0,R+'/sa'); sys.path.insert(0,R); sys.setrecursionlimit(20000)
import check, core, importlib
from facts import Facts
SKIP={'tests.rs','pipeline.rs'}
def sh(c,cwd=None,env=None,t=600):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.Popen(['bash','-c',c],cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired: os.killpg(p.pid,9); p.wait(); return 124,''
SW=[(' < ',' <= '),(' <= ',' < '),(' > ',' >= '),(' >= ',' > '),(' < ',' > '),(' > ',' < '),(' == ',' != '),(' != ',' == '),(' && ',' || '),(' || ',' && '),
 (' + ',' - '),(' - ',' + '),(' * ',' + '),('+= ','-= '),('true','false'),('false','true'),('.any(','.all('),('.all(','.any('),('is_some()','is_none()'),('is_none()','is_some()'),
 ('.first()','.last()'),('.last()','.first()'),('starts_with','ends_with'),('ends_with','starts_with'),('.rev()',''),('.trim()',''),('continue','break'),('break','continue'),('..=','..'),
 ('Some(','Ok('),('is_ok()','is_err()'),('rfind','find'),('.find(','.rfind('),('skip(1)','skip(0)'),('skip(1)','skip(2)'),('Less','Greater'),('Greater','Less'),('Int(','UInt('),('UInt(','Int('),
 ('.min(','.max('),('.max(','.min('),('checked_add','checked_sub'),('checked_sub','checked_add'),('push(','insert(0, '),('.clone()',''),('args[0]','args[1]'),('args[1]','args[0]'),('[1..]','[..]'),('[1..]','[2..]'),
 ('.then(','.then_with('),('and_then','map'),('String(','Template('),('is_empty()','is_ascii()'),('.get(0)','.get(1)'),('.file_stem()','.file_name()'),('.file_name()','.file_stem()'),('.parent()','.file_name()'),('unwrap_or(true)','unwrap_or(false)'),('unwrap_or(false)','unwrap_or(true)'),('.star()','.plus()'),('.plus()','.star()'),('s_(','('),('ws_(','wn_('),('skip_star','skip_plus'),('last_then','then'),('maybe(','('),('or(','or_ig!('),('self','other'),('other','self'),('&a','&b'),('a.','b.'),(', a,',', b,'),('Create','Append'),('create(true)','create(false)'),('to_string()','len().to_string()'),('append','write'),('truncate(true)','truncate(false)'),('&&','&'),('push','pop'),('Ok(Cow::Borrowed(','Ok(Cow::Owned('),('.next()','.last()'),('copied()','cloned()')]
def points(f,src):
    out=[]
    lines=src.split('\n'); skipc=False
    for i,l in enumerate(lines):
        s=l.strip()
        if not s or s.startswith(('//','use ','pub use','#[','pub mod','mod ','impl','pub struct','pub enum','pub trait','type ','pub type')): continue
        if s.startswith('#[cfg(test)]'): break
        if s.startswith('/*'): skipc=True
        if skipc:
            if '*/' in s: skipc=False
            continue
        if re.match(r'^"\(.*\).*->.*"[,)]?$',s): continue
        err='e_str(' in s or 'ea_str' in s or 'anyhow!' in s
        for a,b in SW:
            for m in re.finditer(re.escape(a),l):
                if l[:m.start()].count('"')%2: continue
                out.append((i,l[:m.start()]+b+l[m.end():]))
        for m in re.finditer(r'(?<![\w."])\d+(?![\w."])',l):
            if l[:m.start()].count('"')%2: continue
            n=int(m.group()); out.append((i,l[:m.start()]+str(n+1)+l[m.end():]))
            if n: out.append((i,l[:m.start()]+str(n-1)+l[m.end():]))
        m=re.match(r'^(\s*(?:\} else )?if )(?!let)(.*)( \{)$',l)
        if m: out.append((i,m[1]+'!('+m[2]+')'+m[3])); out.append((i,m[1]+'false && ('+m[2]+')'+m[3])); out.append((i,m[1]+'true || ('+m[2]+')'+m[3]))
        if s.endswith(';') and not s.startswith(('let','return','pub','static','const')) : out.append((i,''))
        if re.match(r'^[^"]*=> .*,$',s): out.append((i,''))
        if re.match(r'^\.\w+\(.*\)$',s): out.append((i,''))
        for m in re.finditer(r'\((\w+), (\w+)\)',l):
            if m[1]!=m[2]: out.append((i,l[:m.start()]+'(%s, %s)'%(m[2],m[1])+l[m.end():]))
        for m in re.finditer(r'\[(\w+)\]',l):
            if not m[1].isdigit(): out.append((i,l[:m.start()]+'[%s + 1]'%m[1]+l[m.end():]))
        if not err and not s.startswith('.with_f'):
            for m in re.finditer(r'"([^"]+)"',l): out.append((i,l[:m.start()]+'"'+m[1]+'x"'+l[m.end():]))
            for m in re.finditer(r"'([^'\\])'",l): out.append((i,l[:m.start()]+"'~'"+l[m.end():]))
        m=re.match(r'^(\s*)\.with_fn\("(\w+)", *([\w:]+)',l)
        for m in re.finditer(r'Ok\((Cow|TCow)?',l):
            if not m[1] and l.count('(')==l.count(')') and s.endswith((',',')')): out.append((i,l.replace('Ok(','Err(',1)))
    return out
def one(a):
    pid,q=a
def run_check(pid,F,q):
    try:
        m,fn=check.TABLE[pid]; r=core.Report(pid); os.dup2(os.open(os.devnull,os.O_WRONLY),1); os.dup2(os.open(os.devnull,os.O_WRONLY),2)
        try: getattr(importlib.import_module('checks.'+m),fn)(F,r)
        except (SystemExit,Exception) as e: r.ob('completes',False,str(e)[:200])
        for name,n,least in r.floors:
            if n<least: r.viol.setdefault('anchor:'+name,('floor',''))
        kf={f['key'] for f in core.known()['findings'] if f.get('property')==pid}
        v=[(k,m[0]) for k,m in r.viol.items() if k not in kf]
        q.put((pid,v[:1]))
    except BaseException as e: q.put((pid,[('crash',str(e)[:100])]))
ORDER={'math':['C06','C07','C21','C20'],'bools':['C20','C21'],'lists':['C27','C08'],'tdata':['C29','C31','C34','C21','C23','C14'],'tparam':['C18','C29'],'folder':['C02','C03','C28'],'free_file':['C28','C04'],'strings':['C38','C32','C22'],
 'svg':['C39'],'path':['C40'],'table':['C32'],'exec':['C30','C04'],'template':['C14','C16','C17','C12','C13','C19'],'expr':['C24','C15','C13','C18','C37'],'pattern':['C26','C37'],'scope':['C19','C12'],'format':['C34','C22'],'bytes':['C33'],'maps':['C41'],'mod':['C41','C01','C22'],'func_man':['C24'],'write':['C03']}
def main():
    seed,count=int(sys.argv[1]),int(sys.argv[2]); only=sys.argv[3:]
    os.makedirs(W,exist_ok=True)
    env=dict(HOME='/root',PATH=os.environ['PATH']+':/root/.cargo/bin',RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_TERM_COLOR='never',RUSTFLAGS='-Awarnings',CARGO_TARGET_DIR=repo+'/target')
    sh('[ -d %s/.git ] || git clone -q /repo %s; cd %s && git checkout -q -f . && git pull -q; cp /repo/Cargo.lock .'%(repo,repo,repo))
    pts=[]
    for d,_,fs in os.walk(repo+'/src'):
        for f in sorted(fs):
            p=os.path.join(d,f); rel=os.path.relpath(p,repo)
            if f in SKIP or not f.endswith('.rs') or only and not any(o in rel for o in only): continue
            src=open(p).read(); pts+=[(rel,i,n) for i,n in sorted(set(points(rel,src)))]
    random.Random(seed).shuffle(pts); print(len(pts),'candidates',flush=True)
    done=0; surv=0
    for rel,i,new in pts:
        if done>=count: break
        p=repo+'/'+rel; src=open(p).read(); L=src.split('\n'); old=L[i]; L[i]=new; open(p,'w').write('\n'.join(L))
        try:
            rc,o=sh('timeout 60 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1',repo,env,120)
            if rc!=0: continue
            done+=1; out=W+'/f.json'
            rc,o=sh(R+'/dump.sh '+out,R,dict(SA_REPO=repo,SA_TARGET=W+'/satarget'))
            if rc!=0: print('NODUMP',rel,i+1,flush=True); continue
            F=Facts(out); q=mp.Queue(); hit=None; t=time.time()
            st=os.path.splitext(os.path.basename(rel))[0]
            if '/parse/' in rel: order=['C37','C36','C11','C25']
            else: order=ORDER.get(st,[])
            order=order+[c for c in sorted(check.TABLE) if c not in order and c not in('C05','C32')]+[c for c in('C32','C05') if c not in order]
            live={}; todo=list(order)
            while todo or live:
                while todo and len(live)<int(os.environ.get('MJ','5')):
                    c=todo.pop(0); pr=mp.Process(target=run_check,args=(c,F,q)); pr.start(); live[c]=pr
                try: pid,v=q.get(timeout=400)
                except Exception: hit=('timeout',str(list(live))); break
                live.pop(pid).join()
                if v: hit=(pid,v[0]); break
            for pr in live.values(): pr.kill(); pr.join()
            w='%s:%d'%(rel,i+1)
            if hit: print('caught %-28s %s %s'%(w,hit[0],str(hit[1])[:90]),flush=True)
            else: surv+=1; print('SURVIVOR %s\n   - %s\n   + %s'%(w,old.strip(),new.strip()),flush=True)
        finally: open(p,'w').write(src)
    print(done,'tried',surv,'survived')
main()
