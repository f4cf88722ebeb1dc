#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (run by hand). Reads /root/seed logs when there; keeps earlier 'caught by'."""
import json, os, re, glob
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D=os.path.join(R,"DESIGN.md"); t=open(D).read()
H="## Planted bugs and the checks that catch them\n"
old={m[0]:m[1] for m in re.findall(r"^\| (C\d\d-[\w-]+) \|.*\| ([^|]*) \|$",t,re.M)}
rows=[]
for d in sorted(glob.glob(R+"/seeded/*/meta.json")):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    c=old.get(i,"?")
    l=f"/root/seed/{i}.{m['property']}.log"
    if os.path.exists(l):
        s=open(l).read(); v=re.search(r"VIOLATION property=(\w+) replay=\S*/C\d\d-([\w-]+)\.json",s)
        c=f"{v[1]}, leg {v[2]}" if v else "missed"
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {c} |")
body=H+"Each was confirmed in a scratch copy (builds, the stable tests pass, the demonstration fails only with it).\nThe leg named is the first that reported it.\n\n| id | breaks | needs | caught by |\n|----|--------|-------|-----------|\n"+"\n".join(rows)+"\n"
k=t.find(H)
if k<0: t=t.rstrip("\n")+"\n\n"+body
else:
    e=t.find("\n## ",k+5); t=t[:k]+body+(t[e:] if e>0 else "")
open(D,"w").write(t)
