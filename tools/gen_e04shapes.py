#!/usr/bin/env python3
"""Generates harness/ewd/e04shapes.go: all struct types that embed structs up to three levels deep,
with at most two embedded structs (that have fields) per level, where each level may have a field of the same name."""
import os
out=['//go:build go1.22','','// generated by tools/gen_e04shapes.py','','package main','']
# a shape is (hasX, (child, ...)); every shape is emitted once per position, since embedded type names must differ
names={}
def emit(shape,pos):
    k=(shape,pos)
    if k in names: return names[k]
    n='Z%s%d'%('AB'[pos],sum(1 for q in names if q[1]==pos))
    cs=[emit(c,i) for i,c in enumerate(shape[1])]
    names[k]=n='Z%s%d'%('AB'[pos],sum(1 for q in names if q[1]==pos))
    out.append('type %s struct {'%n)
    body=['\t'+c for c in cs]+(['\tX int'] if shape[0] else [])
    out.extend(body); out.append('}')
    return n
leaf=[(1,())]
def level(low):
    r=[]
    for x in (0,1):
        r.append((x,()))
        r+=[(x,(c,)) for c in low]
        r+=[(x,(a,b)) for a in low for b in low]
    return r[1:] # without the empty struct
l1=level(leaf)
l2=level(l1)
roots=[r for s in l2 for r in ((0,(s,)),(1,(s,)),(0,(s,(1,()))),(0,((1,()),s)))]
calls=[]
for r in roots:
    calls.append('\tshape[%s](),'%emit(r,0))
out+=['','var shapes = []shapeT{']+calls+['}','']
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','ewd','e04shapes.go')
open(p,'w').write('\n'.join(out))
print(len(calls))
