import random
from .. import build, exact, recon, unirf
from ..core import Check, Fail, run_cmd

class C05(Check):
    id = "C05"
    rule = ("one case = a reconstruction with factor scan of functions built as products of univariate factors (with multiplicities, in numerator and denominator, large coefficients, "
            "shared between functions, none at all) and a remainder, followed by a run stopped after the scan. Every reported factor string must be separable in the variables, its "
            "univariate slices must divide those of the function, both runs must report the same factors, and factors times remainder must equal the function. "
            "Non-trivial: a reported factor is not constant.")
    counts = {"quick": 4500, "thorough": 40000}
    cap = {"quick": 400, "thorough": 3300}
    confirm = 5
    def setup(self, tier):
        self.dir = {"flint": build.build("flint", ["recon"])}
    def gen(self, rng, i):
        n = rng.choices([1, 2, 3, 4, 5], [2, 5, 4, 2, 1])[0]
        nf = rng.choices([1, 2, 3, 5], [4, 4, 3, 1])[0]
        size = 0.8 if nf < 3 else 0.5
        funcs = []
        pool = []
        for k in range(nf):
            r = rng.random()
            f = recon.fac_func(rng, n, size) if r < 0.75 else recon.rand_func(rng, n, size)
            facs = list(f["facs"])
            if pool and rng.random() < 0.3:
                facs.append([rng.choice([1, -1, 2]), rng.choice(pool)])      # factor shared with another function
            pool += [t for _, t in facs if len({j for x in t for j, e in enumerate(x[2]) if e}) == 1]
            if rng.random() < 0.35:     # degrees unequal between the variables: variable reordering
                v = rng.randrange(n)
                facs.append([1, [[1, 1, [rng.randint(2, 5) if j == v else (1 if rng.random() < 0.5 else 0) for j in range(n)]], [3, 1, [0] * n]]])
            funcs.append({"facs": facs})
        opts = ["factor"]
        for o, p in (("shift", 0.25), ("safe", 0.2), ("jitter %d 20" % rng.randint(1, 10 ** 6), 0.2)):
            if rng.random() < p:
                opts.append(o)
        rng.shuffle(opts)
        base = {"n": n, "threads": rng.choice([1, 2, 4, 8]), "bunch": rng.choice([1, 1, 4, 16]), "verb": rng.choice([0, 0, 1]), "funcs": funcs, "bb": rng.choice(["terms", "parser"])}
        if rng.random() < 0.5:
            base["vars"] = rng.sample(["x", "y", "z", "W", "abc", "s12", "m", "zZ", "T3x", "q", "x2", "x1", "x3"], n)
        jobs = [dict(base, seed=rng.randint(1, 10 ** 9), acts=opts + ["reconstruct", "jitter 1 0", "result", "factors", "reset"]),
                dict(base, seed=rng.randint(1, 10 ** 9), acts=[o for o in opts if o != "shift" or rng.random() < 0.5] + ["stopfac", "reconstruct", "jitter 1 0", "factors", "reset"])]
        if rng.random() < 0.4:
            jobs.reverse()
        return {"flavour": "flint", "jobs": jobs}
    def run(self, case, d):
        recon.write_spec(d, case["jobs"])
        r = run_cmd([self.dir[case["flavour"]] + "/recon", "spec.txt"], d, timeout=90)
        if r.timeout:
            raise Fail("a reconstruction with factor scan does not terminate", "hang")
        outs, ended = recon.read_out(d + "/out.txt")
        if r.rc != 0 or not ended:
            raise Fail("the process ended with status %d after %d of %d runs: %s" % (r.rc, max(0, len(outs) - 1), len(case["jobs"]), recon.tail(r)))
        q = exact.Q1
        prev, lab, non = None, [], False
        for k, (recs, job) in enumerate(zip(outs, case["jobs"])):
            rng = random.Random(job["seed"])
            names = job.get("vars") or recon.names(job["n"])
            stop = "stopfac" in job["acts"]
            what = "run %d (%s)" % (k, "stopped after the factor scan" if stop else "full")
            if not stop:
                recon.check_results(recs, job, rng, what)
            if "factors" not in job["acts"]:
                continue
            fs = [x["str"] for x in recs if x["kind"] == "factor"]
            if len(fs) != len(job["funcs"]):
                raise Fail("%s: %d factor strings for %d functions" % (what, len(fs), len(job["funcs"])))
            vals = []
            R = random.Random(5)
            pa, pb = ([R.randrange(2, q) for _ in names] for _ in range(2))
            for i, (s, f) in enumerate(zip(fs, job["funcs"])):
                w = "%s: factor of function %d, %.300s" % (what, i, s)
                try:
                    ev = exact.ExprEval(s)
                    F = lambda pt: ev.value(dict(zip(names, pt)), q)
                    va, vb = F(pa), F(pb)
                    if va != vb:
                        non = True; lab.append("factors")
                        if stop: lab.append("stop with factors")
                    for v in range(len(names)):
                        a, b = list(pa), list(pb)
                        a[v], b[v] = b[v], a[v]
                        if F(a) * F(b) % q != va * vb % q:
                            raise Fail("%s: is not a product of univariate functions" % w)
                    vals.append(va * pow(vb, -1, q) % q)
                    if exact.func_is_zero(f):
                        continue
                    for v in range(len(names)):
                        gn, gd = unirf.slice_text(s, names, v, pa, q)
                        fn, fd = unirf.slice_func(f, v, pa, q)
                        if not unirf.divides(gn, fn, q):
                            raise Fail("%s: the part in %s does not divide the numerator" % (w, names[v]))
                        if not unirf.divides(gd, fd, q):
                            raise Fail("%s: the denominator in %s does not divide the denominator" % (w, names[v]))
                except exact.EvalError as e:
                    raise Fail("%s: not a valid expression: %s" % (w, e))
                except ZeroDivisionError:
                    raise Fail("%s: vanishes or has a pole at a random point" % w)
            if prev is not None and prev != vals:
                raise Fail("%s: reports other factors than the run before" % what)
            prev = vals
            if stop: lab.append("stop")
        return {"nontrivial": non, "labels": sorted(set(lab)), "n": len(case["jobs"])}
    def shrink(self, case):
        # keep the jobs in step
        js = case["jobs"]
        for i in range(len(js)):
            if len(js) > 1:
                yield dict(case, jobs=[j for k, j in enumerate(js) if k != i])
        put = lambda **kw: dict(case, jobs=[dict(j, **kw) for j in js])
        for k, v in (("threads", 1), ("bunch", 1), ("bb", "terms"), ("verb", 0)):
            if js[0][k] != v:
                yield put(**{k: v})
        for o in ("shift", "safe", "jitter"):
            if any(a.split()[0] == o for j in js for a in j["acts"]):
                yield dict(case, jobs=[dict(j, acts=[a for a in j["acts"] if a.split()[0] != o]) for j in js])
        for fs in recon.shrink_funcs(js[0]["funcs"]):
            yield put(funcs=fs)
        n = js[0]["n"]
        if n > 1:
            for v in range(n):
                kw = {"n": n - 1, "funcs": recon.drop_var(js[0]["funcs"], n, v)}
                if "vars" in js[0]:
                    kw["vars"] = js[0]["vars"][:v] + js[0]["vars"][v + 1:]
                yield put(**kw)

CHECK = C05()
