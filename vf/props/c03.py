import os, random
from .. import build, exact, recon
from ..core import Check, Fail, run_cmd

class C03(Check):
    id = "C03"
    level = "fault_enumeration"
    rule = ("one case = one random black box with state saving on: an uninterrupted run counts its black-box evaluations and file-system operations below ff_save; "
            "then a chain of 1-3 runs is ended abruptly at a drawn evaluation or file-system operation (a write may be cut anywhere) and resumed, each time in a new process "
            "with possibly different threads, bunch size and seed, in part with a clock that jumps ahead so that probes are written to files; the last one runs to its end. A finished run must return exactly the functions; an error exit of a resume "
            "counts as refusal, which is not allowed if the interruption hit an evaluation after the first complete state. "
            "Non-trivial: at least one resume went through to the end of a run.")
    counts = {"quick": 6000, "thorough": 60000}
    cap = {"quick": 350, "thorough": 3000}
    confirm = 6
    def setup(self, tier):
        self.dir = {f: build.build(f, ["recon"]) for f in ("default", "flint")}
    def gen(self, rng, i):
        flavour = rng.choice(["default", "flint"])
        n = rng.choices([1, 2, 3, 4], [3, 5, 4, 1])[0]
        nf = rng.choices([1, 2, 3, 5, 12], [3, 4, 3, 1, 0.5])[0]
        factor = rng.random() < (0.3 if flavour == "flint" else 0.05)
        size = rng.choice([0.5, 0.8, 1.0]) if nf < 6 else 0.5
        funcs = [recon.fac_func(rng, n, size) if factor and rng.random() < 0.6 else recon.rand_func(rng, n, size) for _ in range(nf)]
        opts = []
        if rng.random() < 0.3:
            opts.append("shift")
        if factor:
            opts.append("factor")
        if rng.random() < 0.25:
            opts.append("safe")
        rng.shuffle(opts)
        tags = "tags"
        if rng.random() < 0.3:
            tags += " " + " ".join(rng.sample(["a_1", "f7", "zeta", "I_1", "q", "main3", "b_2_b", "TT", "w0", "0", "1", "2", "7_3"], nf))
        clock = rng.choice([0, 0, 0, 10, 50, 200, 500])
        def env():
            return {"threads": rng.choice([1, 1, 1, 2, 4, 8]), "bunch": rng.choice([1, 1, 2, 4, 16]), "seed": rng.randint(1, 10 ** 9), "verb": rng.choice([0, 0, 0, 1]), "clock": clock and rng.choice([0, clock, 1000])}
        chain = []
        for _ in range(rng.choices([1, 2, 3], [5, 3, 2])[0]):
            kind = rng.choice(["eval", "eval", "fs"])
            chain.append([kind, rng.random(), rng.choice([0, 0, 1, 30, 50, 90, 100]), env()])
        if rng.random() < 0.12:
            chain[0][0] = "stop"; chain[0][1] = rng.choice([1, 1, 2, 3])
        return {"flavour": flavour, "n": n, "funcs": funcs, "opts": opts, "tags": tags, "bb": rng.choice(["terms", "terms", "parser"]), "chain": chain, "last": env()}
    def job(self, case, env, acts):
        return dict({k: v for k, v in env.items() if k != "clock"}, n=case["n"], funcs=case["funcs"], bb=case["bb"], acts=acts)
    def one(self, case, env, acts, d):
        if env.get("clock"):     # the wall clock jumps: probes are written to files, as in a run that takes hours
            acts = ["clock %d" % env["clock"]] + acts
        j = self.job(case, env, acts)
        recon.write_spec(d, [j])
        if os.path.exists(d + "/out.txt"):
            os.remove(d + "/out.txt")
        r = run_cmd([self.dir[case["flavour"]] + "/recon", "spec.txt"], d, timeout=90)
        if r.timeout:
            raise Fail("a run does not terminate (acts: %s)" % "; ".join(acts), "hang")
        jobs, ended = recon.read_out(d + "/out.txt")
        return r, (jobs[0] if jobs else []), ended, j
    def complete(self, case, d):
        """everything a first run writes up to its first evaluations is there"""
        ls = lambda x: os.listdir(d + x) if os.path.isdir(d + x) else []
        return (len(ls("/ff_save/states")) == len(ls("/ff_save/probes")) == len(case["funcs"]) and
                os.path.exists(d + "/ff_save/validation.gz") and
                all(os.path.exists(d + "/ff_save/" + x) and open(d + "/ff_save/" + x).read().endswith("\n") for x in ("anchor_points", "shift")))
    def run(self, case, d):
        lab = [case["flavour"]]
        dry = d + "/dry"; os.mkdir(dry)
        opts = case["opts"]
        env0 = case["chain"][0][3]
        r, recs, ended, j = self.one(case, env0, opts + [case["tags"], "reconstruct", "result"], dry)
        if r.rc != 0 or not ended:
            raise Fail("an uninterrupted run with state saving ended with status %d: %s" % (r.rc, recon.tail(r)))
        recon.check_results(recs, j, random.Random(1), "uninterrupted run with state saving")
        tot = [x for x in recs if x["kind"] == "evals"][0]
        must, resumed, first, trace = False, 0, True, []
        for kind, frac, pct, env in case["chain"] + [["end", 0, 0, case["last"]]]:
            if first:
                acts = opts + [case["tags"]]
            else:
                acts = opts + ["tags", "resume"]
            fin = ["reconstruct", "result"]
            if kind == "eval":
                acts = [a for a in acts if a != "resume"] + ["crash_eval %d" % (int(frac * tot["evals"]))] + (["resume"] if not first else [])
            elif kind == "fs":
                acts = [a for a in acts if a != "resume"] + ["crash_fs %d %d" % (int(frac * tot["fsops"]), pct)] + (["resume"] if not first else [])
            elif kind == "stop":
                fin = ["reconstruct %d" % frac]
            r, recs, ended, j = self.one(case, env, acts + fin, d)
            trace.append("%s threads=%d bunch=%d -> %s" % (" ".join(acts + fin), env["threads"], env["bunch"], r.rc))
            if r.rc == 77:
                if not first:
                    lab.append("crashed again")
                complete = self.complete(case, d)
                if first or kind != "eval" or env["threads"] > 1:
                    must = kind == "eval" and env["threads"] == 1 and complete and not (("shift" in opts) and not os.path.exists(d + "/ff_save/scan"))
                # else: a resume interrupted at an evaluation keeps what was required before
                if kind == "eval":
                    lab.append("complete state" if complete else "incomplete state")
                first = False
                continue
            if r.rc != 0 or not ended:
                if first:
                    raise Fail("a run ended with status %d: %s" % (r.rc, recon.tail(r)))
                if must:
                    raise Fail("a resume after an interruption during an evaluation was refused: status %d: %s | history: %s" % (r.rc, recon.tail(r), " || ".join(trace)))
                if r.rc < 0 and not (r.rc == -6 and "terminate called after throwing" in r.err):
                    raise Fail("a resume ended with signal %d instead of an error: %s | history: %s" % (-r.rc, recon.tail(r), " || ".join(trace)))
                if "more than 300 primes" in r.err or "Singular system" in r.err:
                    raise Fail("a resume was accepted, but ended with status %d in the interpolation: %s | history: %s" % (r.rc, recon.tail(r), " || ".join(trace)))
                msg = r.err.strip().split("\n")[-1][:60] if r.err.strip() else "status %d" % r.rc
                lab.append("refused: " + "".join(c for c in msg if not c.isdigit()))
                return {"nontrivial": resumed > 0, "labels": lab}
            if kind != "stop":
                try:
                    recon.check_results(recs, j, random.Random(2), "resumed run" if not first else "run")
                except Fail as f:
                    raise Fail(f.why + " | history: " + " || ".join(trace), f.kind)
                if not first:
                    resumed += 1
                    lab.append("resumed to the end")
            else:
                must = True
            first = False
        return {"nontrivial": resumed > 0, "labels": lab}
    def shrink(self, case):
        for i in range(len(case["chain"])):
            if len(case["chain"]) > 1:
                yield dict(case, chain=case["chain"][:i] + case["chain"][i + 1:])
        for o in case["opts"]:
            yield dict(case, opts=[x for x in case["opts"] if x != o])
        if case["bb"] != "terms":
            yield dict(case, bb="terms")
        if case["tags"] != "tags":
            yield dict(case, tags="tags")
        for k, v in (("threads", 1), ("bunch", 1), ("verb", 0), ("seed", 1), ("clock", 0)):
            if case["last"][k] != v:
                yield dict(case, last=dict(case["last"], **{k: v}))
            for i, c in enumerate(case["chain"]):
                if c[3][k] != v:
                    yield dict(case, chain=case["chain"][:i] + [[c[0], c[1], c[2], dict(c[3], **{k: v})]] + case["chain"][i + 1:])
        if case["tags"] == "tags":
            for fs in recon.shrink_funcs(case["funcs"]):
                yield dict(case, funcs=fs)
        if case["n"] > 1:
            for v in range(case["n"]):
                yield dict(case, n=case["n"] - 1, funcs=recon.drop_var(case["funcs"], case["n"], v))

CHECK = C03()
