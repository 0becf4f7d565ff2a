"""plant.py ID PROP FILE <<< python code with OLD/NEW, NEEDS, BREAKS, DEMO"""
import sys,subprocess,json,os
i,prop=sys.argv[1:3]
ns={}
exec(sys.stdin.read(),ns)
edits=ns["EDITS"]
for f,old,new in edits:
    p="/repo/"+f; s=open(p).read(); assert s.count(old)==1,(f,s.count(old)); open(p,"w").write(s.replace(old,new))
diff=subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
d=f"/verif/seeded/{i}"; os.makedirs(d,exist_ok=True)
open(d+"/patch.diff","w").write(diff)
open(d+"/demo.py","w").write(ns["DEMO"].strip()+"\n")
open(d+"/demo.sh","w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\ncd /repo || exit 2\n[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
os.chmod(d+"/demo.sh",0o755)
json.dump({"property":prop,"needs":ns["NEEDS"],"what_it_breaks":ns["BREAKS"]},open(d+"/meta.json","w"),indent=1)
r1=subprocess.run(["bash",d+"/demo.sh"],cwd="/repo",capture_output=True,text=True)
subprocess.run(["git","-C","/repo","checkout","-q","--","."])
r0=subprocess.run(["bash",d+"/demo.sh"],cwd="/repo",capture_output=True,text=True)
print(i,"with patch:",r1.returncode,(r1.stderr or r1.stdout)[-200:].replace("\n"," | "))
print(i,"without:",r0.returncode,(r0.stderr)[-300:] if r0.returncode else "")
