#!/usr/bin/env python3
"""Fills the lists in DESIGN.md from tools/design.in.md, tools/props, known-findings.json and seeded/*/meta.json (+ tools/caught.json)."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(f"{V}/tools/design.in.md").read()
ps=[json.load(open(f)) for f in sorted(glob.glob(f"{V}/tools/props/*.json"))]
rows=[]
for p in ps:
    if "not_applicable" in p: continue
    d=p.get("design",["","",""])
    rows.append(f"| **{p['id']}** {p['title'].split(':')[0]} | {d[0] or '; '.join(p['anchors']['files'])} | {d[1] or p['technique']} | {d[2] or p['level_note']} |")
for p in ps:
    if "not_applicable" in p: rows.append(f"| {p['id']} {p['title']} | not applicable | {p['not_applicable']} | |")
t=t.replace("@TABLE@","\n".join(rows))
k=json.load(open(f"{V}/known-findings.json"))
t=t.replace("@FIXED@","\n".join(f"* {e['what']}" for e in k if e["status"]=="fixed"))
t=t.replace("@KNOWN@","\n".join(f"* {e['property']}, `{e['class']}`: {e['what']}" for e in k if e["status"]!="fixed"))
c=json.load(open(f"{V}/tools/caught.json"))
b=[]
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    i=os.path.basename(os.path.dirname(f)); m=json.load(open(f))
    b.append(f"* `{i}` ({m['property']}): {m['what_it_breaks']}. Needs {m['needs']}. {c.get(i,'Not run yet.')}")
t=t.replace("@BUGS@","\n".join(b))
open(f"{V}/DESIGN.md","w").write(t)
