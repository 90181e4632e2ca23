#!/usr/bin/env python3
"""tools/seed.py new ID PROP < edits : make seeded/ID/patch.diff from 'FILE\n<<<\nold\n===\nnew\n>>>' blocks
   tools/seed.py check ID [noverif] : apply in /repo, build+tests, demo, the property's check; undo."""
import os,re,subprocess,sys,json,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R="/repo"
def run(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
DEMO='''#!/bin/bash
# exit 0 when the property holds for the demonstrated case
set -e
here="$(cd "$(dirname "$0")" && pwd)"; tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O0 -w -frounding-math -ffunction-sections -fdata-sections -I/repo/source "$here/demo.cpp" -o "$tmp/demo" %s \\
  -Wl,--gc-sections -Wl,--allow-multiple-definition -Wl,--unresolved-symbols=ignore-all /repo/_build/libariadne.a -lmpfr -lgmp -ldl -lpthread
timeout 60 "$tmp/demo"
'''
def new(id,prop):
    d=os.path.join(V,"seeded",id); os.makedirs(d,exist_ok=True)
    assert run("git -C /repo status --short").stdout=="", "repo not clean"
    sys.path.insert(0,V+'/tools'); import ed; ed.edit(sys.stdin.read())
    diff=subprocess.run(["git","-C",R,"diff"],stdout=subprocess.PIPE).stdout; run("git -C /repo checkout -- .")
    open(d+"/patch.diff","wb").write(diff)
    if not os.path.exists(d+"/demo.sh"): open(d+"/demo.sh","w").write(DEMO%""); os.chmod(d+"/demo.sh",0o755)
def check(id,verif=True):
    d=os.path.join(V,"seeded",id); meta=json.load(open(d+"/meta.json")); res={}
    assert run("git -C /repo status --short").stdout=="", "repo not clean"
    r=run("git -C /repo apply %s/patch.diff"%d); 
    if r.returncode: print(id,"DOES NOT APPLY",r.stdout); return
    try:
        t=run("bash %s/tools/t.sh"%V); res["tests"]=t.stdout.strip().splitlines()[-1][:300]
        r=run("bash %s/demo.sh"%d,cwd=R); res["demo_patched"]=r.returncode; res["out"]=r.stdout[-300:]
        if verif:
            r=run("%s/bin/check %s quick"%(V,meta["property"])); res["check"]=r.returncode; res["why"]=[x for x in r.stdout.splitlines() if x.startswith(("REJECTED","VIOLATION","CheckError"))][:2] or r.stdout[-400:]
    finally: run("git -C /repo checkout -- .")
    run("bash /opt/vp/build.sh"); r=run("bash %s/demo.sh"%d,cwd=R); res["demo_clean"]=r.returncode; 
    if r.returncode: res["out_clean"]=r.stdout[-600:]
    print(id,meta["property"],json.dumps(res,indent=0)[:1800])
if sys.argv[1]=="new": new(*sys.argv[2:4])
else:
    for i in sys.argv[2:]:
        if i!="noverif": check(i,"noverif" not in sys.argv)
