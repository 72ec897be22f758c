#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and the texts below."""
import json,os,re,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,R)
import check
T=('abstract interpretation of the compiler\'s MIR (path-partitioned dataflow with loop fixpoints)')
ENG=' Trusted: rustc\'s MIR, the models of std and crate functions in sa/natives.py, the engine in sa/ai.py.'
TECH={
'C01':('static authority (who-may-call) analysis over the MIR call graph','sound over the resolved call graph, closures and trait objects included; trusts the list of authority-bearing library functions and that no dependency smuggles authority behind a pure-looking name.'),
'C04':('static authority (who-may-call) analysis over the MIR call graph','as C01, per opt-in registration function.'),
'C05':(T+': panic-freedom obligations','every panic site (assert, slicing, unwrap, integer overflow, library precondition) reachable from a registered helper is an obligation discharged for all arguments; memory exhaustion, stack overflow and panics inside dependencies beyond their documented preconditions are outside.'),
'C09':(T+': panic-freedom obligations with a scope invariant','as C05 for the renderer; the invariant that a scope always has a frame is proved for every method of Scope.'),
'C20':(T+': search-loop invariants','every return of true or false of each helper is justified by an inductive invariant over all argument lists; equality and order of two values are those of TData (C21, C08).'),
}
NA={}
exec(open(os.path.join(R,'tools','manifest_texts.py')).read()) if os.path.exists(os.path.join(R,'tools','manifest_texts.py')) else None
ids=[json.loads(l)['id'] for l in open(os.path.join(R,'properties.jsonl'))]
cs=[]; na=[]
for i in ids:
    if i in check.TABLE:
        t,n=TECH[i]
        cs.append(dict(property=i,quick_cmd='./check.py %s'%i,thorough_cmd='VERIF_TIER=thorough ./check.py %s'%i,technique=t,level='other',level_note=n[0].upper()+n[1:]+ENG))
    else: na.append(dict(property=i,reason=NA.get(i,'no check yet')))
json.dump(dict(version=1,setup_cmd='./dump.sh .build/setup.json && rm -f .build/setup.json',checks=cs,not_applicable=na),open(os.path.join(R,'MANIFEST.json'),'w'),indent=1)
print(len(cs),'claimed',[x['property'] for x in na])
