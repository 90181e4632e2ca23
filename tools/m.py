#!/usr/bin/env python3
"""tools/m.py module [cfg]: run TLC on a design model"""
import os,sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"vlib"))
import core
core.os.makedirs(core.BUILD,exist_ok=True); core._classes()
r=core.tlc(sys.argv[1],sys.argv[2] if len(sys.argv)>2 else None,workers=8,heap="6g")
print(r.out[-3500:])
