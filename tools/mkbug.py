#!/usr/bin/env python3
"""mkbug.py <id> <property> <file> : reads old/new text pairs from stdin separated by lines ==== and ----, writes seeded/<id>/patch.diff (scratch clone in /tmp/bugs)."""
import sys,subprocess,os,re
i=sys.argv[1]; wt="/tmp/bugs"
subprocess.run(["git","-C",wt,"fetch","-q"]); subprocess.run(["git","-C",wt,"reset","-q","--hard","origin/HEAD"])
cur=None
for block in sys.stdin.read().split("\n====\n"):
    block=block.strip("\n")
    if not block: continue
    m=re.match(r"FILE (\S+)\n",block)
    if m: cur=m.group(1); block=block[m.end():]
    old,new=block.split("\n----\n") if "\n----\n" in block else (block.split("\n----")[0],"")
    t=open(f"{wt}/{cur}").read()
    assert t.count(old)==1,(t.count(old),old)
    open(f"{wt}/{cur}","w").write(t.replace(old,new))
d=f"/verif/seeded/{i}"; os.makedirs(d,exist_ok=True)
open(f"{d}/patch.diff","w").write(subprocess.run(["git","-C",wt,"diff"],capture_output=True,text=True).stdout)
subprocess.run(["git","-C",wt,"reset","-q","--hard"])
print(open(f"{d}/patch.diff").read())
