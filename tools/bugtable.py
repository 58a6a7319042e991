#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development aid)
import json,glob,os,re
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| bug | caught by | needs |","|---|---|---|"]
for d in sorted(glob.glob(H+"/seeded/*/")):
    m=json.load(open(d+"meta.json")); rows.append("| %s | %s | %s |"%(os.path.basename(d[:-1]),m["property"],m["needs"]))
p=H+"/DESIGN.md"; s=open(p).read()
s=re.sub(r"(<!-- bugs -->\n).*?(<!-- end -->)",lambda m:m.group(1)+"\n".join(rows)+"\n"+m.group(2),s,flags=re.S)
open(p,"w").write(s)
