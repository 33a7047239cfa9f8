#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| bug | caught by | breaks | missed at first |","|---|---|---|---|"]
for p in sorted(glob.glob(root+"/seeded/*/meta.json")):
    m=json.load(open(p)); i=os.path.basename(os.path.dirname(p))
    w=m["what_it_breaks"].replace("|","/").replace("\n"," ")
    rows.append(f"| {i} | {m['property']} | {w} | {m.get('missed','')} |")
d=open(root+"/DESIGN.md").read()
b,e="<!-- seeds -->","<!-- /seeds -->"
t=b+"\n"+"\n".join(rows)+"\n"+e
d=re.sub(b+".*?"+e,lambda _:t,d,flags=re.S) if b in d else d.replace("SEEDTABLE",t)
open(root+"/DESIGN.md","w").write(d)
