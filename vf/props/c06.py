import random
from .. import build, exact, fieldgen, recon
from ..core import Check, Fail, run_cmd

class C06(Check):
    id = "C06"
    rule = ("stop cases: a reconstruction stopped after k prime fields; every function's interpolation must equal the function modulo the last field "
            "and the complete ones must be exact and in order. poll cases: early results are polled from another thread while the reconstruction runs; "
            "over all polls and the final list every function must appear exactly once, exact and under its tag. Non-trivial: at least two functions of which "
            "one needs a second field, or a stop after k >= 2 fields, or functions were handed out early.")
    counts = {"quick": 7000, "thorough": 50000}
    cap = {"quick": 300, "thorough": 3000}
    confirm = 8
    def setup(self, tier):
        self.dir = {f: build.build(f, ["recon"]) for f in ("default", "flint")}
        self.primes = fieldgen.primes(build.build("default", ["unit"]) + "/unit")
    def gen(self, rng, i):
        flavour = rng.choice(["default", "flint"])
        n = rng.choices([1, 2, 3, 4], [3, 5, 4, 1])[0]
        nf = rng.choices([1, 2, 3, 5, 8], [2, 4, 4, 3, 1])[0]
        stop = rng.random() < 0.45
        factor = rng.random() < (0.3 if flavour == "flint" else 0.1)
        funcs = []
        for _ in range(nf):
            funcs.append(recon.fac_func(rng, n, 0.7) if factor and rng.random() < 0.5 else recon.rand_func(rng, n, rng.choice([0.5, 1.0])))
        job = {"n": n, "threads": rng.choice([1, 2, 3, 4, 8]), "bunch": rng.choice([1, 1, 2, 4, 16, 64]), "seed": rng.randint(1, 10 ** 9),
               "verb": rng.choice([0, 0, 1]), "bb": rng.choice(["terms", "terms", "parser"]), "funcs": funcs}
        acts = []
        if rng.random() < 0.3:
            acts.append("jitter %d %d" % (rng.randint(1, 10 ** 6), rng.choice([2, 10, 50])))
        if rng.random() < 0.35:
            acts.append("shift")
        if factor:
            acts.append("factor")
        if rng.random() < 0.2:
            acts.append("safe")
        if rng.random() < 0.3:
            tags = rng.sample(["aa", "f7", "zeta", "I_1", "q", "main3", "b2b", "TT", "w0", "0", "1", "2"], nf)
            acts.append("tags " + " ".join(tags))
        elif rng.random() < 0.15:
            acts.append("tags")
        if any(a.startswith("tags") for a in acts) and rng.random() < 0.6:
            acts.insert(0, "clock %d" % rng.choice([20, 200, 1000]))
        if stop:
            acts += ["reconstruct %d" % rng.choice([1, 1, 2, 2, 3, 4, 6])]
            acts += rng.choice([["result_ff", "result"], ["result", "result_ff"], ["result_ff", "result_ff", "result"]])
        else:
            if rng.random() < 0.8:
                job["sleep"] = rng.choice([20, 100, 300])
            acts += ["bg", "poll 0 %d" % rng.choice([1, 20, 100, 1000]), "join", "result", "early", "early"]
        job["acts"] = acts
        return {"flavour": flavour, "job": job}
    def run(self, case, d):
        job = case["job"]
        recon.write_spec(d, [job])
        r = run_cmd([self.dir[case["flavour"]] + "/recon", "spec.txt"], d, timeout=90)
        if r.timeout:
            raise Fail("the reconstruction does not terminate", "hang")
        jobs, ended = recon.read_out(d + "/out.txt")
        if r.rc != 0 or not ended:
            raise Fail("the process ended with status %d: %s" % (r.rc, recon.tail(r)))
        recs, funcs = jobs[0], job["funcs"]
        vars_ = job.get("vars") or recon.names(job["n"])
        rng = random.Random(job["seed"])
        nr = [x for x in recs if x["kind"] == "nresult"][0]
        tags = next((a.split()[1:] for a in job["acts"] if a.split()[0] == "tags"), None)
        tagname = tags if tags else [str(i) for i in range(len(funcs))]
        early, last, k, cur = [], [], 0, 0
        lists = [[]]                           # polls, then one list per "early" act
        for x in recs:
            if x["kind"] == "nearly":
                lists.append([])
            elif x["kind"] == "early":
                lists[-1].append(x)
        res = [x for x in recs if x["kind"] == "result"]
        if nr["n"] != len(res):
            raise Fail("result list broken")
        def is_f(x, i):
            try:
                recon.check_rf(x, funcs[i], vars_, rng, "function %d" % i)
                return None
            except Fail as f:
                return f.why
        lab = [case["flavour"]]
        stop = next((int(a.split()[1]) for a in job["acts"] if a.startswith("reconstruct ")), None)
        if stop is not None:
            j = 0
            for x in res:                      # complete ones: a subsequence of the functions
                j0 = j
                while j < len(funcs) and is_f(x, j):
                    j += 1
                if j == len(funcs):
                    raise Fail("a complete function of the stopped reconstruction is none of the black box's functions from number %d on: %.300s" % (j0, x["str"]))
                j += 1
            factors = any(x["nfac"] for x in res) or "factor" in job["acts"]
            for b in [x for x in recs if x["kind"] == "nresultff"]:
                if b["n"] != len(funcs):
                    raise Fail("%d field interpolations for %d functions" % (b["n"], len(funcs)))
                if b["p"] not in self.primes[:stop]:
                    raise Fail("stopped after %d fields but the current field is %d" % (stop, b["p"]))
                if nr["n"] < len(funcs) and b["p"] != self.primes[stop - 1]:
                    raise Fail("stopped after %d fields with open functions but the last field is number %d" % (stop, self.primes.index(b["p"])))
                if not factors:
                    k0 = recs.index(b)
                    for x, f in zip([y for y in recs[k0:] if y["kind"] == "ff"], funcs):
                        recon.check_ff(x, f, b["p"], "function %d after %d fields" % (x["i"], stop))
            lab += ["stop=%d" % stop, "incomplete" if nr["n"] < len(funcs) else "complete"]
            return {"nontrivial": (stop >= 2 or nr["n"] < len(funcs)) and any(recon.interesting(f, job["n"]) for f in funcs), "labels": lab}
        seen = {}
        for x in lists[0]:
            if x["tag"] not in tagname:
                raise Fail("an early result with the tag '%s', which no function has" % x["tag"])
            i = tagname.index(x["tag"])
            if i in seen:
                raise Fail("function %d was handed out early twice" % i)
            seen[i] = 1
            why = is_f(x, i)
            if why:
                raise Fail("early result: " + why)
        rest = [i for i in range(len(funcs)) if i not in seen]
        if len(res) != len(rest):
            raise Fail("%d functions were handed out early and %d at the end, of %d" % (len(seen), len(res), len(funcs)))
        for x, i in zip(res, rest):
            why = is_f(x, i)
            if why:
                raise Fail("result at the end: " + why)
        if [x["tag"] for x in lists[1]] != [tagname[i] for i in rest]:
            raise Fail("after the end the early results give the tags %s instead of %s" % ([x["tag"] for x in lists[1]], [tagname[i] for i in rest]))
        for x, i in zip(lists[1], rest):
            why = is_f(x, i)
            if why:
                raise Fail("early result after the end: " + why)
        if lists[2]:
            raise Fail("early results hand out functions again")
        lab += ["poll", "early=%s" % (len(seen) if len(seen) < 3 else ">=3")] + (["tags"] if tags else [])
        return {"nontrivial": bool(seen) and any(recon.interesting(f, job["n"]) for f in funcs), "labels": lab}
    def shrink(self, case):
        job = case["job"]
        put = lambda j: dict(case, job=j)
        for a in job["acts"]:
            if a.split()[0] in ("shift", "factor", "safe", "jitter", "clock") or (a.split()[0] == "tags"):
                yield put(dict(job, acts=[x for x in job["acts"] if x != a]))
        for k, v in (("threads", 1), ("threads", 2), ("bunch", 1), ("bb", "terms"), ("verb", 0)):
            if job[k] != v:
                yield put(dict(job, **{k: v}))
        if not any(a.startswith("tags ") for a in job["acts"]):
            for fs in recon.shrink_funcs(job["funcs"]):
                yield put(dict(job, funcs=fs))
        if job["n"] > 1:
            for v in range(job["n"]):
                yield put(dict(job, n=job["n"] - 1, funcs=recon.drop_var(job["funcs"], job["n"], v)))

CHECK = C06()
