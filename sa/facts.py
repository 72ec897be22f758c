"""Loads the MIR facts written by the driver and offers lookups and a printer."""
import json, re, sys

def mname(p):
    "method name of a def path"
    if p.endswith('>') and '::<' in p: p=p[:p.rindex('::<')]
    return p.split('::')[-1]
class Facts:
    def __init__(self, path):
        with open(path) as f: d=json.load(f)
        self.crate=d['crate']; self.bodies=d['bodies']; self.types=d['types']
        self.impls=d['impls']; self.adts=d['adts']; self.statics=d['statics']; self.files=d['files']
        self.bypath={}
        for k,b in self.bodies.items():
            b['key']=k
            if b['kind']=='fn': self.bypath.setdefault(b['path'],[]).append(k)
    def impls_of(self,tr):
        """[(self, {method: body key})] for every local implementation of a trait"""
        if not hasattr(self,'_impls'):
            self._impls={}
            for i in self.impls:
                d={mname(x):x for x in i['items']}
                self._impls.setdefault(i['trait'],[]).append((i['self'],d))
        return self._impls.get(tr,[])
    def default_method(self,tr,m):
        p='<Self as %s>::%s'%(tr,m)
        for k,b in self.bodies.items():
            if b['kind']=='fn' and not b['closure'] and (k==p or k.startswith(p+'::<')) and '@' not in k: return k
    def ty(self,i): return self.types[i]
    def ts(self,i): return self.types[i]['s']
    def find(self,suffix):
        """local fn bodies whose path ends with the given suffix (on a :: boundary)"""
        r=[]
        for k,b in self.bodies.items():
            if b['kind']=='fn' and b['local'] and not b['closure'] and (b['path']==suffix or b['path'].endswith('::'+suffix)) and '@' not in k: r.append(k)
        return r

def place_s(F,p):
    s='_%d'%p['l']
    for e in p['p']:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='v': s='(%s as v%d)'%(s,e[1])
        elif e[0]=='i': s+='[_%d]'%e[1]
        else: s+='[%s]'%(','.join(map(str,e)))
    return s
def op_s(F,o):
    if o['k'] in('copy','move'): return ('' if o['k']=='copy' else 'move ')+place_s(F,o['p'])
    if o['k']=='const':
        if 'fn' in o: return fn_s(F,o['fn'])
        for k in('int','bool','char','str','float','variant','static','promoted','item'):
            if k in o: return '%s:%r'%(k,o[k])
        return 'const %s:%s'%(o.get('s'),F.ts(o['t']))
    return o['k']
def fn_s(F,f):
    return '%s [%s%s]'%(f['path'],f.get('kind'), ' '+f['body'] if 'body' in f else (' '+f['rpath'] if f.get('rpath')!=f['path'] and 'rpath' in f else ''))
def rv_s(F,r):
    k=r['r']
    if k in('use',): return op_s(F,r['o'])
    if k=='ref': return ('&mut ' if r['mut'] else '&')+place_s(F,r['p'])
    if k=='bin': return '%s(%s, %s)'%(r['op'],op_s(F,r['a']),op_s(F,r['b']))
    if k=='un': return '%s(%s)'%(r['op'],op_s(F,r['o']))
    if k=='discr': return 'discr(%s)'%place_s(F,r['p'])
    if k=='cast': return 'cast %s %s -> %s'%(r['ck'],op_s(F,r['o']),F.ts(r['t']))
    if k=='agg': return 'agg %s v%s {%s}'%(F.ts(r['t']),r.get('v'),', '.join(op_s(F,x) for x in r['f']))
    return json.dumps(r)
def show(F,key,cleanup=False,out=sys.stdout):
    b=F.bodies[key]
    print('==',key,b['span'],'argc',b['argc'],'spread',b['spread'],file=out)
    for n,t in enumerate(b['locals']): print('  let _%d: %s'%(n,F.ts(t)),file=out)
    print('  names',[(n,place_s(F,p)) for n,p in b['names']],file=out)
    for n,bl in enumerate(b['blocks']):
        if bl['c'] and not cleanup: continue
        print(' bb%d:'%n,file=out)
        for s in bl['s']:
            if s[0]=='=': print('   ',place_s(F,s[1]),'=',rv_s(F,s[2]),file=out)
            elif s[0]!='dead': print('   ',s[0],s[1:],file=out)
        t=bl['t']; k=t['k']
        if k=='switch': x='switch %s %s else %d'%(op_s(F,t['o']),t['ts'],t['else'])
        elif k=='call': x='%s = %s(%s) -> %s'%(place_s(F,t['d']),op_s(F,t['f']),', '.join(op_s(F,a) for a in t['a']),t['to'])
        elif k=='drop': x='drop %s -> %d'%(place_s(F,t['p']),t['to'])
        elif k=='assert': x='assert %s==%s %s -> %d'%(op_s(F,t['c']),t['e'],t['m'],t['to'])
        else: x=k+' '+str(t.get('to',''))
        print('    ',x,' //',t.get('sp'),file=out)
if __name__=='__main__':
    F=Facts(sys.argv[1])
    for a in sys.argv[2:]:
        ks=[k for k in F.bodies if re.search(a,k)]
        for k in ks: show(F,k)
