import os, random
from .. import build, exact, recon
from ..core import Check, Fail, run_cmd

ENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader", "OMPI_MCA_rmaps_base_oversubscribe": "1",
       "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_btl_vader_single_copy_mechanism": "none"}

LIMIT = int(os.environ.get("C07_LIMIT", "60"))

class C07(Check):
    id = "C07"
    rule = ("one case = one distributed session on this machine (a master and 1-5 worker processes, started by mpirun) running 1-3 reconstructions of random black boxes one after the other, "
            "or one run with saved state that is stopped after a number of fields or ended abruptly and resumed in a new session; threads and bunch size are drawn for every process, "
            "with shift scan, factor scan, safe mode, both back ends, random delays in evaluations and at lock operations of every process. "
            "Every result must equal the black box and every process has to end with status 0. Non-trivial: at least two worker processes or worker threads, on a function with two terms.")
    counts = {"quick": 700, "thorough": 12000}
    cap = {"quick": 700, "thorough": 3300}
    workers = 14
    confirm = 8
    def setup(self, tier):
        self.dir = {f: build.build(f, ["recon"]) for f in ("mpi", "mpiflint")}
    def env(self, rng, np):
        return {"threads": rng.choice([1, 1, 2, 3, 4]), "bunch": rng.choice([1, 1, 2, 4, 8, 32, 128]), "seed": rng.randint(1, 10 ** 9),
                "workers": [[rng.choice([1, 1, 2, 3, 5]), rng.choice([0, 1, 1, 2, 4, 8, 16, 64, 128])] for _ in range(np - 1)]}
    def gen_job(self, rng, np, factor, small=False):
        n = rng.choices([1, 2, 3, 4, 5], [3, 5, 4, 1, 0.5])[0]
        nf = rng.choices([1, 2, 3, 5, 9], [4, 4, 3, 1, 0.5])[0]
        size = rng.choice([0.5, 0.7, 1.0]) if nf < 4 else 0.5
        opts = []
        if rng.random() < 0.35:
            opts.append("shift")
        if factor:
            opts.append("factor")
        if rng.random() < 0.2:
            opts.append("safe")
        if rng.random() < 0.4:
            opts.append("jitter %d %d" % (rng.randint(1, 10 ** 6), rng.choice([2, 10, 50])))
        rng.shuffle(opts)
        job = {"n": n, "funcs": [recon.fac_func(rng, n, size) if rng.random() < (0.6 if factor else 0.1) else recon.rand_func(rng, n, size) for _ in range(nf)],
               "opts": opts, "bb": rng.choice(["terms", "terms", "parser"]), "verb": rng.choice([0, 0, 1]), "env": self.env(rng, np)}
        if rng.random() < 0.3:
            job["sleep"] = rng.choice([20, 100, 400])
        return job
    def gen(self, rng, i):
        flavour = rng.choice(["mpi", "mpiflint"])
        np = rng.choice([2, 2, 3, 4, 6])
        fac = lambda: rng.random() < (0.4 if flavour == "mpiflint" else 0.05)
        if rng.random() < 0.3:
            job = self.gen_job(rng, np, fac())
            first = rng.choice([["stop", 1], ["stop", 1], ["stop", 2], ["eval", rng.random()], ["fs", rng.random()], ["fs", rng.random()]])
            np2 = rng.choice([2, 3, 4])
            return {"flavour": flavour, "np": np, "jobs": [job], "save": first, "np2": np2, "env2": self.env(rng, np2), "clock": [rng.choice([0, 0, 20, 100, 500]), rng.choice([0, 0, 100])]}
        return {"flavour": flavour, "np": np, "jobs": [self.gen_job(rng, np, fac()) for _ in range(rng.choices([1, 2, 3], [5, 2, 1])[0])]}
    def job(self, job, env, acts):
        j = {k: job[k] for k in ("n", "funcs", "bb", "verb", "sleep") if k in job}
        j.update(threads=env["threads"], bunch=env["bunch"], seed=env["seed"])
        j["acts"] = ["worker %d %d %d" % (i + 1, t, b) for i, (t, b) in enumerate(env["workers"])] + acts
        return j
    def mpi(self, case, np, jobs, d):
        recon.write_spec(d, jobs)
        if os.path.exists(d + "/out.txt"):
            os.remove(d + "/out.txt")
        for k in range(16):
            if os.path.exists(d + "/ended_%d" % k):
                os.remove(d + "/ended_%d" % k)
        os.makedirs(d + "/ompi", exist_ok=True)
        r = run_cmd(["mpirun", "--timeout", str(LIMIT), "-np", str(np), self.dir[case["flavour"]] + "/recon", "spec.txt"], d, timeout=LIMIT + 15,
                    env=dict(ENV, OMPI_MCA_orte_tmpdir_base=d + "/ompi"))
        out, ended = recon.read_out(d + "/out.txt")
        if r.timeout or (r.rc != 0 and "reached the timeout" in r.err + r.out) or (r.rc == 110):
            raise Fail("a distributed run with %d processes does not terminate (%d of %d reconstructions, master %s)" % (np, max(0, len(out) - 1), len(jobs), "ended" if ended else "not ended"), "hang")
        # what counts is whether every process came to its end, not the exit of the launcher itself
        if ended and all(os.path.exists(d + "/ended_%d" % k) for k in range(np)):
            r.rc = 0
        elif r.rc == 0:
            r.rc = -1000
        return r, out, ended
    def run(self, case, d):
        np, js = case["np"], case["jobs"]
        lab = [case["flavour"], "np=%d" % np]
        if "save" not in case:
            jobs = [self.job(j, j["env"], j["opts"] + ["reconstruct", "result"] + (["reset"] if k + 1 < len(js) else [])) for k, j in enumerate(js)]
            r, out, ended = self.mpi(case, np, jobs, d)
            if r.rc != 0 or not ended:
                raise Fail("a distributed session ended with status %d after %d of %d reconstructions: %s" % (r.rc, max(0, len(out) - 1), len(jobs), recon.tail(r)))
            for k, (recs, job) in enumerate(zip(out, jobs)):
                recon.check_results(recs, job, random.Random(job["seed"]), "distributed run %d" % k)
        else:
            job, (kind, x) = js[0], case["save"]
            clk = [["clock %d" % q] if q else [] for q in case.get("clock", [0, 0])]
            opts = job["opts"] + clk[0]
            if kind == "stop":
                acts = opts + ["tags", "reconstruct %d" % x]
            else:
                dry = d + "/dry"; os.mkdir(dry)
                j = self.job(job, job["env"], opts + ["tags", "reconstruct", "result"])
                r, out, ended = self.mpi(case, np, [j], dry)
                if r.rc != 0 or not ended:
                    raise Fail("a distributed run with state saving ended with status %d: %s" % (r.rc, recon.tail(r)))
                recon.check_results(out[0], j, random.Random(3), "distributed run with state saving")
                tot = [q for q in out[0] if q["kind"] == "evals"][0]
                acts = opts + ["tags"] + (["crash_eval %d" % int(x * tot["evals"])] if kind == "eval" else ["crash_fs %d 0" % int(x * tot["fsops"])]) + ["reconstruct"]
            r, out, ended = self.mpi(case, np, [self.job(job, job["env"], acts)], d)
            if kind == "stop" and (r.rc != 0 or not ended):
                raise Fail("a distributed run to be stopped after %d fields ended with status %d: %s" % (x, r.rc, recon.tail(r)))
            lab.append("interrupted: " + kind)
            if clk[0] or clk[1]:
                lab.append("clock")
            j = self.job(job, case["env2"], job["opts"] + clk[1] + ["tags", "resume", "reconstruct", "result"])
            r, out, ended = self.mpi(case, case["np2"], [j], d)
            if r.rc != 0 or not ended:
                if kind == "stop":
                    raise Fail("resuming a distributed run that was stopped after %d fields ended with status %d: %s" % (x, r.rc, recon.tail(r)))
                lab.append("refused")
                return {"nontrivial": False, "labels": lab}
            recon.check_results(out[0], j, random.Random(4), "resumed distributed run")
            lab.append("resumed to the end")
        w = [q for j in js for q in j["env"]["workers"]]
        return {"nontrivial": (len(w) > 1 or w[0][0] > 1) and any(recon.interesting(f, j["n"]) for j in js for f in j["funcs"]),
                "labels": lab + [o.split()[0] for j in js for o in j["opts"]]}
    def shrink(self, case):
        js = case["jobs"]
        if len(js) > 1:
            for i in range(len(js)):
                yield dict(case, jobs=js[:i] + js[i + 1:])
        if case["np"] > 2:
            yield dict(case, np=case["np"] - 1)
        for i, job in enumerate(js):
            put = lambda j: dict(case, jobs=js[:i] + [j] + js[i + 1:])
            for o in job["opts"]:
                yield put(dict(job, opts=[x for x in job["opts"] if x != o]))
            if "sleep" in job:
                yield put({k: v for k, v in job.items() if k != "sleep"})
            if job["bb"] != "terms":
                yield put(dict(job, bb="terms"))
            for k in ("threads", "bunch"):
                if job["env"][k] > 1:
                    yield put(dict(job, env=dict(job["env"], **{k: 1})))
            if any(w != [1, 1] for w in job["env"]["workers"]):
                yield put(dict(job, env=dict(job["env"], workers=[[1, 1]] * len(job["env"]["workers"]))))
            for fs in recon.shrink_funcs(job["funcs"]):
                yield put(dict(job, funcs=fs))

CHECK = C07()
