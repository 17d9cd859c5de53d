#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/MAP, the property registrations in the harnesses and the notes below."""
import json,re,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg={}
for f in glob.glob(V+'/harness/*/*.go'):
    for m in re.finditer(r'vk\.Property\{ID: "(\w+)", Level: "(\w+)"',open(f).read()): reg[m[1]]=m[2]
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
mapped={}
for l in open(V+'/harness/MAP'):
    if l.strip(): a=l.split(); mapped[a[0]]=a[1]
TECH={'exploration':'bounded-exhaustive enumeration of inputs/states on the real code against an independent oracle',
 'model_checking':'explicit-state exploration of operation sequences of the real code in lockstep with a model',
 'fault_enumeration':'exhaustive enumeration of fault points and fault kinds on the real code'}
exec(open(V+'/tools/manifest_notes.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in mapped and i in reg:
        lv=reg[i]
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',evidence_file=f'evidence/{i}.json',
          technique=TECHNIQUE.get(i,TECH[lv]),level=lv,level_note=NOTE.get(i,'Exhaustive within the stated bounds on the real code, compared with an independent reference (math/big or a small model); nothing beyond the bounds is executed.')))
    else: na.append(dict(property=i,reason=NA.get(i,'no check registered yet')))
json.dump(dict(version=1,setup_cmd='./tools/setup.sh',checks=checks,not_applicable=na,
  notes='Checks build the harness from /verif/harness into a Go overlay over /repo (no hooks in /repo are needed).'),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not claimed')
