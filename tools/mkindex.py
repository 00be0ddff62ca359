#!/usr/bin/env python3
"""Regenerates CONTRACTS.md, the list of contracts of every property."""
import re,glob,json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base=json.load(open(root+'/contracts/baseline.json'))
out={}
for f in sorted(glob.glob(root+'/contracts/**/*.go',recursive=True)):
    s=open(f).read()
    fm=re.findall(r'^//verif:model (.*)$',s,re.M)
    for m in re.finditer(r'((?://.*\n)+)func (contract_\w+)',s):
        d={}
        for l in m.group(1).splitlines():
            g=re.match(r'//verif:(\w+) ?(.*)',l)
            if g: d.setdefault(g.group(1),[]).append(g.group(2))
        for p in d.get('property',[''])[0].split():
            out.setdefault(p,[]).append((m.group(2),d,os.path.relpath(f,root)))
with open(root+'/CONTRACTS.md','w') as o:
    o.write("# Contracts per property (generated by tools/mkindex.py)\n\nproved: every obligation is discharged on the current tree; bounded: native stand-in, never counted as proved.\n")
    for p in sorted(out):
        o.write(f"\n## {p}\n\n")
        for c,d,f in out[p]:
            st="bounded: "+d['bounded'][0] if 'bounded' in d else "proved"
            ex=""
            if 'inductive' in d: ex+="; by induction over "+", ".join(x.split()[0] for x in d['inductive'])
            o.write(f"- `{c}` ({st}{ex}) {d.get('title',[''])[0]} — {f}\n")
