#!/usr/bin/env python3
"""getcase.py <property> <seed> <index> <out file>: write the generated case as a replay file"""
import sys, json, os, random, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
C = importlib.import_module("vf.props." + sys.argv[1].lower()).CHECK
case = C.gen(random.Random("%s:%s:%d" % (C.id, sys.argv[2], int(sys.argv[3]))), int(sys.argv[3]))
json.dump({"property": C.id, "why": "", "case": case}, open(sys.argv[4], "w"))
