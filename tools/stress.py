#!/usr/bin/env python3
"""stress.py <replay file> <n>: run one case n times in parallel and count the outcomes"""
import sys, json, os, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
from concurrent.futures import ProcessPoolExecutor
from vf import core
def main():
    d = json.load(open(sys.argv[1])); c = importlib.import_module("vf.props." + d["property"].lower()).CHECK
    c.setup("quick"); core._init(c)
    cnt = collections.Counter()
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(core._eval, [d["case"]] * int(sys.argv[2])):
            cnt[(r[0], r[1][:60])] += 1
    for k, v in cnt.items(): print(v, k)
main()
