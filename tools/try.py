#!/usr/bin/env python3
"""tools/try.py driver module n [shards] [mode] [extra...]: record traces, validate, print a digest of rejections"""
import os,sys,json,collections
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"vlib"))
import core
d,m,n=sys.argv[1:4]; sh=int(sys.argv[4]) if len(sys.argv)>4 else 8; mode=sys.argv[5] if len(sys.argv)>5 else ""
c=core.Ctx("try","quick",int(os.environ.get("VERIF_SEED","1")))
try:
    core.build([d]); c.conform(d,m,int(n),shards=sh,mode=mode)
except core.CheckError as e: print(str(e)[-4000:]); sys.exit(2)
g=collections.OrderedDict()
for v in c.violations:
    e=v["event"]; k=(e.get("ev"),e.get("f"),e.get("t") if e.get("ev")!="text" else "",e.get("cls"),str([a[0] for a in e["a"]]) if isinstance(e.get("a"),list) and e["a"] and all(isinstance(a,list) and a and str(a[0]).isalpha() for a in e["a"]) else "",e.get("r") if isinstance(e.get("r"),str) and str(e.get("r")).isalpha() else "", v["why"][:40], str(str(e.get("o",""))+" "+str(e.get("st","")))[:120])
    k=tuple(x if isinstance(x,(str,int,type(None))) else "" for x in k)
    g.setdefault(k,[]).append(v)
print("events",c.events,"violations",len(c.violations))
for k,vs in g.items():
    print(len(vs),k); print("    ",min((json.dumps(v["event"]) for v in vs),key=len)[:600], vs[0]["why"][:200])
