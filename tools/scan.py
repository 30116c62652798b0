#!/usr/bin/env python3
"""scan.py <property> <seed> <from> <to>: run generated cases, print every failure, keep the failing cases in /tmp/scan"""
import sys, json, os, random, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ProcessPoolExecutor
from vf import core
C = importlib.import_module("vf.props." + sys.argv[1].lower()).CHECK
def one(i):
    core._check = C
    case, r = core._gen_eval((sys.argv[2], i))
    return i, case, r
def main():
    C.setup("quick")
    os.makedirs("/tmp/scan", exist_ok=True)
    lab = {}
    with ProcessPoolExecutor(C.workers) as ex:
        for i, case, r in ex.map(one, range(int(sys.argv[3]), int(sys.argv[4]))):
            for l in r[2].get("labels", []):
                lab[l] = lab.get(l, 0) + 1
            if r[0] != "ok":
                f = "/tmp/scan/%s_%s_%d.json" % (C.id, sys.argv[2], i)
                json.dump({"property": C.id, "why": r[1], "case": case}, open(f, "w"))
                print(r[0], i, r[1][:700], flush=True)
    print(lab)
main()
