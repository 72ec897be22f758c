"""debug: run the engine over many bodies in parallel"""
import sys,re,io,contextlib,subprocess,concurrent.futures as cf
sys.path.insert(0,'/verif/sa')
from facts import Facts
F=Facts('/verif/.build/d.json')
pat=sys.argv[1]
ks=[k for k,b in F.bodies.items() if b['local'] and b['kind']=='fn' and not b['closure'] and re.search(pat,b['path']) and '@' not in k and '<' not in b['path'].replace('impl','')]
def one(k):
    try: r=subprocess.run(['timeout','150','python3','/verif/sa/dbg.py',k]+sys.argv[2:],capture_output=True,text=True)
    except Exception as e: return k+' '+str(e)
    return r.stdout+r.stderr+('' if r.returncode==0 else '%s EXIT %d\n'%(k,r.returncode))
with cf.ThreadPoolExecutor(8) as ex:
    for o in ex.map(one,ks): sys.stdout.write(o)
