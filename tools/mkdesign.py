#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.head.md + one section per property (manifest_texts, design_props) + planted bugs + tools/design.tail.md"""
import json,os,sys
D=os.path.dirname(os.path.abspath(__file__)); R=os.path.dirname(D)
sys.path.insert(0,D); sys.dont_write_bytecode=True
os.chdir(R); sys.path.insert(0,R)
src=open(D+'/mkmanifest.py').read(); g={'__file__':D+'/mkmanifest.py'}; exec(src,g); TECH,NA=g['TECH'],g['NA']
from design_props import DP
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
bugs={}
for b in sorted(os.listdir(R+'/seeded')):
    m=json.load(open('%s/seeded/%s/meta.json'%(R,b))); bugs.setdefault(m['property'],[]).append((b,m))
caught=json.load(open(D+'/caught.json')) if os.path.exists(D+'/caught.json') else {}
o=[open(D+'/design.head.md').read()]
for p in props:
    i=p['id']; o.append('### %s  %s\n'%(i,p['title']))
    if i in NA or i not in TECH: o.append('Not applicable: '+NA.get(i,'no check yet')+'\n'); continue
    o.append('*%s* — %s\n'%(TECH[i][0],TECH[i][1]))
    o.append(DP.get(i,'').strip()+'\n')
    if i in bugs: o.append('Planted bugs: '+', '.join('`%s`%s'%(b,'' if caught.get(b)==True else ' (**missed**)' if caught.get(b)==False else '') for b,m in bugs[i])+'.\n')
o.append(open(D+'/design.tail.md').read())
open(R+'/DESIGN.md','w').write('\n'.join(o))
miss=[i['id'] for i in props if i['id'] not in NA and i['id'] not in DP]; print('no text for',miss)
