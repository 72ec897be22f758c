#!/usr/bin/env python3
"""plant.py [-c] ID...|all : verify planted bugs described in tools/bugs/*.py in a scratch copy and keep the good ones in seeded/.
-c : also run the property's check on the patched scratch copy."""
import os,sys,subprocess,json,shutil,glob
R='/verif'; W='/tmp/plant'
SH='''#!/bin/bash
# run with cwd = the repository, after its build; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 9
trap 'rm -rf "$W"' EXIT
export HOME=${HOME:-/root} PATH="$PATH:/root/.cargo/bin" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=0
unset RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$W/src" "$W/scratch"; cp "$D/main.rs" "$W/src/main.rs"
printf '[package]\\nname="demo"\\nversion="0.1.0"\\nedition="2018"\\n[dependencies]\\ntemplito={path="%s"}\\nserde_json="1"\\ntoml="0.5"\\nanyhow="1"\\n[workspace]\\n' "$R" > "$W/Cargo.toml"
[ -e "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock"
cd "$W" || exit 9
CARGO_TARGET_DIR="$W/target" cargo build -q --offline || exit 9
cd "$W/scratch" && timeout 60 "$W/target/debug/demo"
'''
PRE='''#![allow(unused)]
use std::str::FromStr;
use templito::prelude::*;
use templito::*;
fn t(s:&str,p:&[&dyn TParam])->Result<String,String>{
    let fm=func_man::default_func_man(); let mut tm=BasicTemps::new();
    TreeTemplate::from_str(s).map_err(|e|e.to_string())?.run(p,&mut tm,&fm).map_err(|e|e.to_string())
}
fn ok(s:&str,p:&[&dyn TParam],want:&str){ let r=t(s,p); if r.as_ref().map(|x|x.as_str())!=Ok(want){ eprintln!("{:?}: got {:?}, expected {:?}",s,r,want); std::process::exit(1)} }
fn fails(s:&str,p:&[&dyn TParam]){ let r=t(s,p); if r.is_ok(){ eprintln!("{:?}: got {:?}, expected an error",s,r); std::process::exit(1)} }
'''
BUGS={}
def bug(id,prop,edits,demo,needs,breaks,pre=True):
    assert id not in BUGS,id
    BUGS[id]=dict(prop=prop,edits=edits,demo=(PRE if pre else '')+demo,needs=needs,breaks=breaks)
for f in sorted(glob.glob(R+'/tools/bugs/*.py')): exec(open(f).read())
def sh(c,cwd=None,env=None,t=300):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(['bash','-c',c],cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t); return p.returncode,p.stdout
def main():
    chk='-c' in sys.argv; force='-f' in sys.argv; ids=[a for a in sys.argv[1:] if a[0]!='-']
    if ids==['all']: ids=list(BUGS)
    repo=W+'/repo'
    env=dict(HOME='/root',PATH=os.environ['PATH']+':/root/.cargo/bin',RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_TERM_COLOR='never',RUSTFLAGS='-Awarnings',CARGO_TARGET_DIR=repo+'/target')
    os.makedirs(W,exist_ok=True)
    stable=set(json.load(open('/opt/vp/BASELINE.json')).get('passing') or json.load(open('/opt/vp/BASELINE.json')).get('passed') or [])
    for id in ids:
        b=BUGS[id]; print('==',id,b['prop'],flush=True)
        sh('[ -d %s/.git ] || git clone -q /repo %s; cd %s && git checkout -q -f . && git pull -q && cp /repo/Cargo.lock . 2>/dev/null'%(repo,repo,repo))
        bad=False
        for f,old,new in b['edits']:
            p=repo+'/'+f; s=open(p).read()
            if s.count(old)!=1: print('  EDIT matches %d times in %s: %r'%(s.count(old),f,old[:60])); bad=True; break
            open(p,'w').write(s.replace(old,new))
        if bad: continue
        diff=sh('git diff',repo)[1]
        d=W+'/demo-'+id; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+'/patch.diff','w').write(diff); open(d+'/demo.sh','w').write(SH.replace('anyhow="1"','anyhow="1"\\ncard_format="0.2.1"') if 'card_format' in b['demo'] else SH); os.chmod(d+'/demo.sh',0o755); open(d+'/main.rs','w').write(b['demo'])
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
        final=R+'/seeded/'+id
        same=os.path.isdir(final) and not force and all(open(final+'/'+x).read()==open(d+'/'+x).read() for x in('patch.diff','demo.sh','main.rs'))
        if not same:
            rc,o=sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1',repo,env)
            fl=[l for l in o.split('\n') if l.startswith('test ') and 'FAILED' in l]
            if rc!=0: print('  TESTS',rc,fl[:5] or o[-1500:]); continue
            rc,o=sh(d+'/demo.sh',repo)
            print('  patched demo:',rc,o.strip()[-200:])
            if rc in(0,9): print('  DEMO does not fail'); continue
            rc,o=sh(d+'/demo.sh','/repo')
            if rc!=0: print('  CLEAN demo fails:',rc,o[-600:]); continue
            shutil.rmtree(final,ignore_errors=True); shutil.copytree(d,final)
        shutil.rmtree(d,ignore_errors=True)
        if chk:
            for pid in ([b['prop']] if '-a' not in sys.argv else []):
                rc,o=sh('./check.py %s'%pid,R,dict(SA_REPO=repo,SA_TARGET='/tmp/plant/satarget'),900)
                print('  CHECK',pid,'caught' if rc==1 and 'VIOLATION property='+pid in o else 'MISSED rc=%d'%rc); print('\n'.join('     '+l[:260] for l in o.split('\n')[-8:-1]),flush=True)
        sh('git checkout -q -f .',repo)
main()
