"""Fill the tables in DESIGN.md from tools/design_rows.py, known_findings.json and seeded/."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns={}
exec(open(V+"/tools/design_rows.py").read(),ns)
rows=ns["ROWS"]
t=open(V+"/tools/DESIGN.tmpl").read()
t=t.replace("@@TABLE@@","\n".join("| %s | %s | %s | %s |"%(k,)+() if 0 else "| %s | %s | %s | %s |"%((k,)+v) for k,v in sorted(rows.items())))
f=[x for x in json.load(open(V+"/known_findings.json"))["findings"] if x["status"]=="fixed"]
t=t.replace("@@FINDINGS@@","\n".join("* "+x["what"].replace("fixed: property=","") for x in f))
s=[]
d=V+"/seeded"
for i in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    p=os.path.join(d,i,"meta.json")
    if os.path.exists(p):
        m=json.load(open(p))
        s.append("| %s | %s | %s | %s |"%(i,m["property"],m["what_it_breaks"],m.get("caught_by","?")))
t=t.replace("@@SEEDED@@","| bug | property | what it breaks | caught by |\n|---|---|---|---|\n"+"\n".join(s))
open(V+"/DESIGN.md","w").write(t)
