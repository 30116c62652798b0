import random
from .. import build, exact, recon
from ..core import Check, Fail, run_cmd
from ..san import Sanitizers

class C02(Check):
    id = "C02"
    rule = ("one case = one process running 1-4 reconstructions one after the other (documented reset in between) of random black boxes with random "
            "options: threads 1-12, maximum bunch size 1-128, verbosity, shift scan, factor scan, safe mode, back end, seed, black box written "
            "by hand or through the parser, random delays inside evaluations and random yields/sleeps at every lock operation, or under ThreadSanitizer, which must not report an unordered access; every result "
            "must equal the black box. Non-trivial: more than one thread or a bunch size above 1 or a scan or safe mode, on a function with two terms.")
    counts = {"quick": 4500, "thorough": 80000}
    cap = {"quick": 400, "thorough": 3300}
    flavours = ["default", "flint"]
    confirm = 8
    def setup(self, tier):
        self.dir = {f: build.build(f, ["recon"]) for f in self.flavours + ["tsanflint"]}
    def gen_job(self, rng, flavour, reset):
        n = rng.choices([1, 2, 3, 4, 5], [3, 5, 4, 2, 1])[0]
        nf = rng.choices([1, 2, 3, 5, 9], [4, 4, 3, 1.5, 0.7])[0]
        size = rng.choices([0.7, 1.0, 2.0], [3, 6, 1])[0] if nf < 4 else 0.6
        factor = rng.random() < (0.35 if "flint" in flavour else 0.1)
        funcs = [recon.fac_func(rng, n, size) if rng.random() < (0.5 if factor else 0.1) else recon.rand_func(rng, n, size) for _ in range(nf)]
        if nf > 1 and rng.random() < 0.15:
            funcs[-1] = funcs[0]
        acts = []
        if rng.random() < 0.45:
            acts.append("jitter %d %d" % (rng.randint(1, 10 ** 6), rng.choice([2, 10, 50, 150])))
        if rng.random() < 0.35:
            acts.append("shift")
        if factor:
            acts.append("factor")
        if rng.random() < 0.25:
            acts.append("safe")
        tail = ["jitter 1 0", "reconstruct", "result"]
        rng.shuffle(acts)
        job = {"n": n, "threads": rng.choice([1, 2, 3, 4, 6, 8, 12]), "bunch": rng.choice([1, 1, 2, 4, 8, 16, 32, 64, 128]), "seed": rng.randint(1, 10 ** 9),
               "verb": rng.choice([0, 0, 1, 2]), "bb": rng.choice(["terms", "terms", "parser"]), "funcs": funcs,
               "acts": acts + ["reconstruct"] + (["jitter 1 0"] if acts and any(a.startswith("jitter") for a in acts) else []) + ["result"] + (["reset"] if reset else [])}
        if rng.random() < 0.3:
            job["sleep"] = rng.choice([20, 100, 400])
        if rng.random() < 0.2:
            job["nobunch"] = 1
        if rng.random() < 0.2:
            job["vars"] = rng.sample(["x", "y", "z", "W", "abc", "s12", "m", "zZ", "T3x", "q"], n)
        return job
    def gen(self, rng, i):
        flavour = rng.choices(["default", "flint", "tsanflint"], [4, 4, 2])[0]
        k = rng.choices([1, 2, 3, 4], [6, 3, 1, 1])[0]
        return {"flavour": flavour, "jobs": [self.gen_job(rng, flavour, j + 1 < k) for j in range(k)]}
    def run(self, case, d):
        recon.write_spec(d, case["jobs"])
        with Sanitizers(d) as san:
            r = run_cmd([self.dir[case["flavour"]] + "/recon", "spec.txt"], d, timeout=90)
        san.check("threads are not synchronised")
        if r.timeout:
            raise Fail("a reconstruction does not terminate", "hang")
        jobs, ended = recon.read_out(d + "/out.txt")
        if r.rc != 0 or not ended:
            raise Fail("the process ended with status %d after %d of %d reconstructions: %s" % (r.rc, max(0, len(jobs) - 1), len(case["jobs"]), recon.tail(r)))
        lab, non = [case["flavour"], "seq=%d" % len(case["jobs"])], False
        for k, (recs, job) in enumerate(zip(jobs, case["jobs"])):
            recon.check_results(recs, job, random.Random(job["seed"]), "run %d" % k)
            opts = [a.split()[0] for a in job["acts"]]
            lab += [o for o in ("shift", "factor", "safe", "jitter") if o in opts]
            lab.append("threads>1" if job["threads"] > 1 else "threads=1")
            if job["bunch"] > 1 and not job.get("nobunch"):
                lab.append("bunch>1")
            if any(recon.interesting(f, job["n"]) for f in job["funcs"]) and (job["threads"] > 1 or job["bunch"] > 1 or len(opts) > 3):
                non = True
        return {"nontrivial": non, "labels": lab}
    def shrink(self, case):
        js = case["jobs"]
        if len(js) > 1:
            for i in range(len(js)):
                k = js[:i] + js[i + 1:]
                yield dict(case, jobs=k)
        for i, job in enumerate(js):
            put = lambda j: dict(case, jobs=js[:i] + [j] + js[i + 1:])
            for a in job["acts"]:
                if a.split()[0] in ("shift", "factor", "safe"):
                    yield put(dict(job, acts=[x for x in job["acts"] if x != a]))
            if any(a.startswith("jitter") for a in job["acts"]):
                yield put(dict(job, acts=[x for x in job["acts"] if not x.startswith("jitter")]))
            if "sleep" in job:
                yield put({k: v for k, v in job.items() if k != "sleep"})
            for k, v in (("threads", 1), ("threads", 2), ("bunch", 1), ("bunch", 2), ("bb", "terms"), ("verb", 0)):
                if job[k] != v and (k == "bb" or k == "verb" or job[k] > v):
                    yield put(dict(job, **{k: v}))
            for fs in recon.shrink_funcs(job["funcs"]):
                yield put(dict(job, funcs=fs))
            if job["n"] > 1:
                for v in range(job["n"]):
                    j = dict(job, n=job["n"] - 1, funcs=recon.drop_var(job["funcs"], job["n"], v))
                    if "vars" in j:
                        j["vars"] = j["vars"][:v] + j["vars"][v + 1:]
                    yield put(j)

CHECK = C02()
