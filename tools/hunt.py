#!/usr/bin/env python3
"""hunt.py <property> <seed> <count>: run generated cases with a short time limit; on a hang, save the case and the stacks"""
import sys, json, os, random, subprocess, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ProcessPoolExecutor
from vf import core, recon
C = None
def one(a):
    seed, i = a
    case = C.gen(random.Random("%s:%s:%d" % (C.id, seed, i)), i)
    with core.Workdir() as d:
        recon.write_spec(d, case["jobs"])
        p = subprocess.Popen([C.dir[case["flavour"]] + "/recon", "spec.txt"], cwd=d, stdout=open(d + "/o", "w"), stderr=subprocess.STDOUT)
        try:
            p.wait(25)
        except subprocess.TimeoutExpired:
            bt = subprocess.run(["gdb", "-q", "-batch", "-p", str(p.pid), "-ex", "thread apply all bt"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
            try:
                p.wait(30); fin = "finished later"
            except subprocess.TimeoutExpired:
                fin = "still running"
            p.kill(); p.wait()
            os.makedirs("/tmp/hunt", exist_ok=True)
            json.dump({"property": C.id, "case": case}, open("/tmp/hunt/%s_%s_%d.json" % (C.id, seed, i), "w"))
            open("/tmp/hunt/%s_%s_%d.txt" % (C.id, seed, i), "w").write(fin + "\n" + bt + open(d + "/o").read()[-3000:])
            print("HANG", seed, i, fin, flush=True)
            return
        if p.returncode:
            print("rc", p.returncode, seed, i, open(d + "/o").read()[-500:], flush=True)
def main():
    global C
    C = importlib.import_module("vf.props." + sys.argv[1].lower()).CHECK
    C.setup("quick")
    with ProcessPoolExecutor(8) as ex:
        for _ in ex.map(one, [(sys.argv[2], i) for i in range(int(sys.argv[3]))], chunksize=16):
            pass
main()
