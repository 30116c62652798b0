#!/usr/bin/env python3
"""python3 run.py <property id> [--tier quick|thorough] [--replay file] [--count n]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
from vf.build import BuildError

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("vf.props." + pid.lower())
    try:
        sys.exit(core.main(mod.CHECK, sys.argv[2:]))
    except BuildError as e:
        print("build failed:", e)
        sys.exit(3)
