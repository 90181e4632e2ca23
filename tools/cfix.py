#!/usr/bin/env python3
"""tools/cfix.py PROP FILE... -- "fix: message" : commit the changes to the FILEs in /repo and record the fix (run tools/t.sh afterwards)"""
import json,subprocess,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a=sys.argv[1:]; prop=a[0]; i=a.index("--"); files=a[1:i]; msg=a[i+1]; what=a[i+2] if len(a)>i+2 else msg[5:]
subprocess.check_call(["git","-C","/repo","commit","-qm",msg,"--"]+files)
h=subprocess.check_output(["git","-C","/repo","rev-parse","--short","HEAD"],text=True).strip()
p=V+"/known-findings.json"; k=json.load(open(p)); k["findings"].append({"property":prop,"status":"fixed","commit":h,"match":{},"what":"fixed: property=%s %s %s"%(prop,h,what)})
json.dump(k,open(p,"w"),indent=1); print(h)
