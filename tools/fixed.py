#!/usr/bin/env python3
"""tools/fixed.py PROP "fix: message" "what failed" : run the tests, commit /repo, record the fix"""
import json,subprocess,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop,msg,what=sys.argv[1:4]
t=subprocess.run(["bash",V+"/tools/t.sh"],text=True,stdout=subprocess.PIPE).stdout.strip().splitlines()[-1]
print(t)
if not t.startswith("418 of 418"): sys.exit("tests fail; not committed")
if subprocess.run(["git","-C","/repo","diff","--quiet"]).returncode: subprocess.check_call(["git","-C","/repo","commit","-qam",msg])
h=subprocess.check_output(["git","-C","/repo","rev-parse","--short","HEAD"],text=True).strip()
p=V+"/known-findings.json"; k=json.load(open(p)); k["findings"].append({"property":prop,"status":"fixed","commit":h,"match":{},"what":"fixed: property=%s %s %s"%(prop,h,what)})
json.dump(k,open(p,"w"),indent=1); print(h)
