import random
from .. import build, exact, recon
from ..core import Check, Fail, run_cmd

class C01(Check):
    id = "C01"
    rule = ("one case = one black box with 1-4 rational functions over Q in 1-5 variables (kinds: generic, zero, constant, polynomial, "
            "variable subset, no constant term in denominator, sparse of high degree, dense, monomials, homogeneous, factored), random seed; "
            "the returned functions (coefficients, text and Horner text) are compared with the black box at random points modulo primes "
            "the library does not use. Non-trivial: some function has a polynomial with at least two terms that depends on a variable.")
    counts = {"quick": 14000, "thorough": 400000}
    cap = {"quick": 330, "thorough": 3300}
    flavours = ["default", "flint"]
    def setup(self, tier):
        self.dir = {f: build.build(f, ["recon"]) for f in self.flavours}
    def gen(self, rng, i):
        n = rng.choices([1, 2, 3, 4, 5], [4, 5, 4, 2, 1])[0]
        nf = rng.choices([1, 2, 3, 4, 7], [5, 3, 2, 1, 0.5])[0]
        size = rng.choices([1.0, 2.0, 3.0], [12, 2, 1])[0] if nf < 4 else 0.6
        funcs = [recon.fac_func(rng, n, size) if rng.random() < 0.12 else recon.rand_func(rng, n, size) for _ in range(nf)]
        if n in (2, 3) and rng.random() < 0.015:
            nf, funcs = 1, [recon.rand_func(rng, n, 1, kind="veryhigh")]
        if nf > 1 and rng.random() < 0.1:
            funcs[-1] = funcs[0]
        job = {"n": n, "threads": rng.choice([1, 1, 2, 4]), "bunch": rng.choice([1, 1, 1, 4]), "seed": rng.randint(1, 10 ** 9),
               "bb": rng.choice(["terms", "terms", "parser"]), "funcs": funcs, "acts": ["reconstruct", "result"]}
        if rng.random() < 0.25:
            job["acts"].insert(0, "shift")
        if rng.random() < 0.25:
            job["vars"] = rng.sample(["x", "y", "z", "W", "abc", "s12", "m", "zZ", "T3x", "q"], n)
        return {"flavour": rng.choice(self.flavours), "job": job}
    def run(self, case, d):
        job = case["job"]
        recon.write_spec(d, [job])
        r = run_cmd([self.dir[case["flavour"]] + "/recon", "spec.txt"], d, timeout=90)
        if r.timeout:
            raise Fail("the reconstruction does not terminate", "hang")
        if r.rc != 0:
            raise Fail("the run ended with status %d: %s" % (r.rc, recon.tail(r)))
        jobs, ended = recon.read_out(d + "/out.txt")
        recon.check_results(jobs[0], job, random.Random(job["seed"]), "result")
        ev = [x for x in jobs[0] if x["kind"] == "evals"][0]
        lab = ["n=%d" % job["n"], case["flavour"]]
        return {"nontrivial": any(recon.interesting(f, job["n"]) for f in job["funcs"]), "labels": lab}
    def shrink(self, case):
        job = case["job"]
        for fs in recon.shrink_funcs(job["funcs"]):
            yield dict(case, job=dict(job, funcs=fs))
        if job["n"] > 1:
            for v in range(job["n"]):
                j = dict(job, n=job["n"] - 1, funcs=recon.drop_var(job["funcs"], job["n"], v))
                if "vars" in j:
                    j["vars"] = j["vars"][:v] + j["vars"][v + 1:]
                yield dict(case, job=j)
        for k, v in (("threads", 1), ("bunch", 1), ("bb", "terms")):
            if job[k] != v:
                yield dict(case, job=dict(job, **{k: v}))

CHECK = C01()
