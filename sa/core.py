"""Running a check: facts, obligations, known findings, evidence, exit status."""
import json, os, subprocess, sys, time, traceback
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(ROOT,'sa'))
from facts import Facts

def load_facts():
    out=os.path.join(ROOT,'.build','facts-%d.json'%os.getpid())
    p=subprocess.run([os.path.join(ROOT,'dump.sh'),out],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
    if p.returncode!=0:
        sys.stderr.write(p.stdout[-3000:]+p.stderr[-6000:]); raise SystemExit('the extractor could not analyse /repo')
    try: return Facts(out)
    finally: os.unlink(out)

class Report:
    def __init__(self,pid):
        self.pid=pid; self.obls=[]; self.viol={}; self.counts={}; self.notes=[]; self.samples=[]; self.floors=[]
        self.rule=''; self.assumptions=[]
    def ob(self,key,ok,msg='',where=''):
        """one obligation: key is stable (no line numbers)"""
        self.obls.append((key,bool(ok)))
        if not ok: self.viol.setdefault(key,(msg,where))
        elif len(self.samples)<12: self.samples.append('%s: %s'%(key,msg) if msg else key)
        return ok
    def floor(self,name,n,least):
        self.counts[name]=n
        self.floors.append((name,n,least))
    def count(self,name,n): self.counts[name]=n

def known():
    p=os.path.join(ROOT,'known-findings.json'); 
    return json.load(open(p)) if os.path.exists(p) else {'findings':[]}

def run(pid,fn,level='other'):
    t0=time.time(); r=Report(pid); tier=os.environ.get('VERIF_TIER','quick')
    if tier not in('quick','thorough'): tier='quick'
    try:
        F=None; F=load_facts()
        fn(F,r)
    except (SystemExit,Exception) as e:
        # fail closed: what cannot be analysed is not accepted
        traceback.print_exc(); r.ob('the analysis completes',False,'%s: %s'%(type(e).__name__,str(e)[:300]))
    for name,n,least in r.floors:
        if n<least: r.viol.setdefault('anchor:'+name,('expected at least %d instances of %s, found %d'%(least,name,n),''))
    kf={f['key']:f for f in known()['findings'] if f.get('property')==pid}
    new=[]
    for k,(m,w) in sorted(r.viol.items()):
        if k in kf: print('KNOWN-FINDING: property=%s %s: %s'%(pid,k,kf[k]['what']))
        else: new.append((k,m,w))
    ev={'property':pid,'tier':tier,'seed':int(os.environ.get('VERIF_SEED','0') or 0),'level':level,
        'coverage':{'explanation':r.rule,'obligations':len(r.obls),'discharged':sum(1 for _,o in r.obls if o),
                    'analysed':r.counts,'samples':r.samples[:12] or ['none'],'bodies_loaded':len(F.bodies) if F else 0,
                    'notes':r.notes[:40]},
        'assumptions':r.assumptions,'wall_s':round(time.time()-t0,2),'violations':len(new)}
    os.makedirs(os.path.join(ROOT,'evidence'),exist_ok=True)
    with open(os.path.join(ROOT,'evidence',pid+'.json'),'w') as f: json.dump(ev,f,indent=1)
    print('%s: %d obligations, %d discharged; %s; %.1fs'%(pid,len(r.obls),ev['coverage']['discharged'],', '.join('%s=%s'%x for x in r.counts.items()),time.time()-t0))
    if new:
        d=os.path.join(ROOT,'.build','replay'); os.makedirs(d,exist_ok=True); rp=os.path.join(d,pid+'.txt')
        with open(rp,'w') as f:
            for k,m,w in new: f.write('%s\n    %s\n    %s\n'%(k,m,w))
        for k,m,w in new[:40]: print('  %s\n    %s %s'%(k,m,w))
        print('VIOLATION property=%s replay=%s'%(pid,rp)); return 1
    return 0
