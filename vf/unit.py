"""Batches of single operations run by the unit harness; the expected results are computed here
with exact integers. A case is {"flavour":, "ops": [[line, kind, data...], ...]}."""
import os
from .core import Check, Fail, run_cmd, HarnessError
from . import build, fieldgen

def run_ops(exe, lines, d, timeout=60):
    with open(d + "/in.txt", "w") as f:
        f.write("\n".join(lines) + "\n")
    r = run_cmd([exe, "in.txt", "res.txt"], d, timeout=timeout)
    out = open(d + "/res.txt").read().split("\n")[:-1] if os.path.exists(d + "/res.txt") else []
    return r, out

class UnitCheck(Check):
    flavours = ["default", "flint"]
    batch = 300
    exe = "unit"
    def setup(self, tier):
        self.dir = {f: build.build(f, [self.exe]) for f in self.flavours}
        self.primes = fieldgen.primes(build.build(self.flavours[0], ["unit"]) + "/unit")
    def gen_ops(self, rng, flavour):
        raise NotImplementedError
    def gen(self, rng, i):
        fl = rng.choice(self.flavours)
        return {"flavour": fl, "ops": self.gen_ops(rng, fl)}
    def run(self, case, d):
        lines = ["primek 0"] + [op[0] for op in case["ops"]]
        r, out = run_ops(self.dir[case["flavour"]] + "/" + self.exe, lines, d)
        ctx = {"p": self.primes[0], "flavour": case["flavour"]}
        out = out[1:]
        non, lab = set(), {}
        for k, op in enumerate(case["ops"]):
            if k >= len(out):
                if r.timeout:
                    raise Fail("no answer for: %.300s" % op[0], "hang")
                if r.rc == 99:
                    raise HarnessError("bad op %.200s: %s" % (op[0], r.err[-300:]))
                raise Fail("the operation ended the process (status %d, %s): %.500s" % (r.rc, (r.err[-200:]).replace("\n", " / "), op[0]))
            if op[1] == "prime":
                ctx["p"] = int(out[k])
                if len(op) > 2 and ctx["p"] != op[2]:
                    raise Fail("setting the field to %d left %s" % (op[2], out[k]))
                continue
            why = self.verify(op, out[k], ctx)
            if why:
                raise Fail("%s: operation %.400s gave %.300s" % (why, op[0], out[k]))
            if self.op_nontrivial(op):
                non.add(op[0])
            lab[op[1]] = 1
        return {"n": len(lines), "nontrivial": bool(non), "nn": len(non), "labels": list(lab)}
    def op_nontrivial(self, op):
        return True
    def verify(self, op, out, ctx):
        raise NotImplementedError
    def sample(self, case):
        return {"flavour": case["flavour"], "operations": [op[0] for op in case["ops"][:12]]}
    def shrink(self, case):
        ops = case["ops"]
        n = len(ops)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                k = [o for j, o in enumerate(ops) if not (i <= j < i + size)]
                if len(k) < n:
                    yield dict(case, ops=k)
            size //= 2
        for v in self.shrink_ops(case):
            yield v
    def shrink_ops(self, case):
        return iter(())
