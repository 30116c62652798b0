#!/usr/bin/env python3
"""shrink.py <replay file> <out file> [seconds]"""
import sys, json, os, time, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ProcessPoolExecutor
from vf import core
def main():
    d = json.load(open(sys.argv[1])); C = importlib.import_module("vf.props." + d["property"].lower()).CHECK
    C.tier = "quick"; C.setup("quick"); core._init(C)
    case, why = d["case"], ""
    tend = time.time() + float(sys.argv[3] if len(sys.argv) > 3 else 120)
    with ProcessPoolExecutor(8) as ex:
        imp = True
        while imp and time.time() < tend:
            imp = False
            it = C.shrink(case)
            while time.time() < tend and not imp:
                b = [c for c, _ in zip(it, range(8))]
                if not b: break
                for c, r in zip(b, ex.map(core._eval, b)):
                    if r[0] == "wrong":
                        case, why, imp = c, r[1], True; break
    json.dump({"property": C.id, "why": why, "case": case}, open(sys.argv[2], "w"))
    print(why[:1000]); print(json.dumps(case)[:3000])
main()
