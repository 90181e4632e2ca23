#!/usr/bin/env python3
"""tools/b.py target...: build drivers"""
import os,sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"vlib"))
import core
try: core.build(sys.argv[1:])
except core.CheckError as e: print(e); sys.exit(1)
