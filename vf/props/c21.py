import gzip, os, random
from .. import build, exact, recon
from ..core import Check, Fail, run_cmd
from ..san import Sanitizers
from .c03 import C03

# The parts of a saved state which FireFly expects to find; what a factor scan leaves on top (factors_rf, var_order.gz)
# exists only for some functions, hence nothing can tell that it got lost.
PARTS = ("validation.gz", "anchor_points", "shift", "scan", "factors", "probes", "states", "tmp")

class C21(C03):
    id = "C21"
    level = "fault_enumeration"
    rule = ("one case = either a run with drawn settings, one of which may be outside what is supported (no variables, a maximum bunch size that is no power of two up to 128, a wrong number of tags, "
            "options that do not apply such as a shift scan of univariate functions or resuming without saved state), or a run with state saving that is interrupted, stopped or "
            "finished and whose saved files are then damaged (files or folders removed, files emptied) before it is resumed. Unsupported settings must end with a failing status without evaluations of "
            "the reconstruction or results; settings that do not apply must not change the results; a damaged state must either be refused (failing exit status, no results, no signal other than "
            "an uncaught exception, no memory error) or lead to exactly the functions. A part of the cases runs under AddressSanitizer. Non-trivial: a setting was outside the supported ones or a saved file was damaged.")
    counts = {"quick": 2600, "thorough": 30000}
    cap = {"quick": 350, "thorough": 3000}
    confirm = 6
    def setup(self, tier):
        self.dir = {f: build.build(f, ["recon", "firefly"]) for f in ("default", "flint", "asanflint")}

    def gen(self, rng, i):
        case = C03.gen(self, rng, i)
        case["flavour"] = rng.choices(["default", "flint", "asanflint"], [3, 4, 3])[0]
        case["chain"] = case["chain"][:1]
        if rng.random() < 0.15:
            return self.gen_tool(rng, case)
        if rng.random() < 0.4:
            return self.gen_settings(rng, case)
        case["kind"] = "state"
        how = rng.choices(["eval", "stop", "end"], [6, 2, 2])[0]
        env = dict(case["chain"][0][3], threads=rng.choice([1, 1, 2, 4]))
        case["chain"] = [[how, rng.choice([1, 1, 2]) if how == "stop" else rng.random(), 0, env]]
        case["tags"] = "tags"
        case["damage"] = [[rng.choice(["rm", "rm", "empty"]), rng.random()] for _ in range(rng.choice([1, 1, 1, 2, 4]))]
        if rng.random() < 0.08:
            case["damage"] = [["rmdir", rng.random()]]
        return case

    def gen_settings(self, rng, case):
        case["kind"] = "settings"
        env = case["last"]
        del case["chain"]
        case["tags"] = ""
        nf = len(case["funcs"])
        s = rng.choice(["n0", "bunch", "bunch", "bunch", "tags", "tags", "n1scan", "resume", "resume", "fine", "safescan", "twice"])
        case["setting"] = s
        acts = list(case["opts"])
        fin = ["reconstruct", "result"]
        if s == "n0":
            case["n"] = 0
            case["funcs"] = [{"facs": [[1, [[rng.randint(1, 99), 1, []]]]]} for _ in range(nf)]
        elif s == "bunch":
            while env["bunch"] in (1, 2, 4, 8, 16, 32, 64, 128):
                env["bunch"] = rng.choice([0, 3, 5, 6, 7, 9, 12, 24, 48, 96, 100, 127, 129, 256, 512, 1024, 2 ** 31, 2 ** 32 - 1, rng.randint(1, 300)])
        elif s == "tags":
            k = nf
            while k == nf:
                k = rng.choice([1, nf + 1, max(1, nf - 1), nf * 2, rng.randint(1, 14)])
            acts.append("tags " + " ".join("t%d" % j for j in range(k)))
        elif s == "n1scan":
            case["n"] = 1
            case["funcs"] = [recon.rand_func(rng, 1, 1.0) for _ in range(nf)]
            acts = [a for a in acts if a != "shift"] + ["shift"]
        elif s == "resume":
            acts.append("resume")
            if rng.random() < 0.5:
                acts.append("tags")
        elif s == "safescan":
            acts = [a for a in acts if a not in ("safe", "shift")] + rng.sample(["safe", "shift"], 2)
        elif s == "twice":
            fin = ["reconstruct", "reconstruct", "result"]
        case["acts"] = acts + fin
        return case

    def gen_tool(self, rng, case):
        """the stand-alone tool with a wrong call or a malformed line in a file with probes"""
        case["kind"] = "tool"
        del case["chain"], case["tags"], case["opts"]
        case["n"] = n = rng.choice([1, 2, 2, 3])
        case["funcs"] = [recon.rand_func(rng, n, 0.7) for _ in range(rng.choice([1, 2, 3]))]
        case["fault"] = rng.choice(["no -v", "-v 0", "-v x", "-p 0", "no first bar", "no second bar", "no bars", "cut", "word", "empty line", "no values", "fewer values", "more values"] + (["fewer orders"] if n > 1 else []))
        # the number of functions is known only from the other lines
        case["lines"] = rng.choice([2, 5, 12] if "values" in case["fault"] and case["fault"] != "no values" else [1, 2, 5, 12])
        case["at"] = rng.random()
        case["threads"] = rng.choice([1, 1, 2])
        return case

    def run_tool(self, case, d):
        rng = random.Random(case["last"]["seed"])
        n, p0, fault = case["n"], exact.PRIMES[0], case["fault"]
        anch, sh = [rng.randrange(2, 1 << 62) for _ in range(n - 1)], [rng.randrange(1, 1 << 62) for _ in range(n)]
        with open(d + "/anchor_points", "w") as f:
            f.write(" ".join(map(str, anch)) + "\n")
        with open(d + "/shifts", "w") as f:
            f.write(" ".join(map(str, sh)) + "\n")
        rows = []
        while len(rows) < case["lines"]:
            t = rng.randrange(1, p0)
            pt = [(t + (sh[0] if n > 1 else 0)) % p0] + [(a * t + x) % p0 for a, x in zip(anch, sh[1:])]
            try:
                rows.append(("1 " * (n - 1), str(t), [str(exact.func_eval(f, pt, p0)) for f in case["funcs"]]))
            except ZeroDivisionError:
                pass
        out = ["%s| %s | %s" % (o, t, " ".join(v)) for o, t, v in rows]
        k = int(case["at"] * len(out))
        o, t, v = rows[k]
        bad = {"no first bar": "%s%s %s" % (o, t, " ".join(v)), "no second bar": "%s| %s %s" % (o, t, " ".join(v)), "no bars": "%s%s %s" % (o, t, " ".join(v)),
               "cut": out[k][:max(1, len(o) + 2 + int(case["at"] * len(t)))], "word": "%s| %s | %s" % (o, t, " ".join(v[:-1] + ["x" + v[-1]])), "empty line": "", "no values": "%s| %s | " % (o, t),
               "fewer values": "%s| %s | %s" % (o, t, " ".join(v[:-1])), "more values": "%s| %s | %s" % (o, t, " ".join(v + ["7"])), "fewer orders": "%s| %s | %s" % (o[2:], t, " ".join(v))}
        if fault in bad:
            out[k] = bad[fault]
        os.makedirs(d + "/probes")
        with gzip.open(d + "/probes/0.gz", "wt", compresslevel=1) as g:
            g.write("".join(x + "\n" for x in out))
        args = {"no -v": [], "-v 0": ["-v", "0"], "-v x": ["-v", "x"], "-p 0": ["-v", str(n), "-p", "0"]}.get(fault, ["-v", str(n), "-p", str(case["threads"])])
        r = run_cmd([self.dir[case["flavour"]] + "/firefly"] + args, d, timeout=60)
        what = "the stand-alone tool with %s (%s)" % (fault, out[k] if fault in bad else " ".join(args))
        if r.timeout:
            raise Fail(what + " does not end", "hang")
        if os.path.exists(d + "/result.m"):
            raise Fail(what + " wrote a result")
        self.refused(r, [], False, what)
        return {"nontrivial": True, "labels": ["tool", fault]}

    MUST_REFUSE = ("n0", "bunch", "tags")

    def run(self, case, d):
        with Sanitizers(d) as san:
            try:
                out = {"settings": self.run_settings, "state": self.run_state, "tool": self.run_tool}[case["kind"]](case, d)
            except Fail as f:
                san.check(case["kind"])
                raise
        san.check(case["kind"])
        return out

    def refused(self, r, recs, ended, what):
        if r.rc == 0 or ended:
            raise Fail("%s was not refused: status %d, results reported: %s" % (what, r.rc, any(x["kind"] == "nresult" for x in recs)))
        if any(x["kind"] in ("result", "nresult") for x in recs):
            raise Fail("%s: results were reported before the run ended with status %d" % (what, r.rc))
        if r.rc < 0 and not (r.rc == -6 and "terminate called after throwing" in r.err):
            raise Fail("%s: signal %d instead of an error: %s" % (what, -r.rc, recon.tail(r)))

    def run_settings(self, case, d):
        s = case["setting"]
        r, recs, ended, j = self.one(case, case["last"], case["acts"], d)
        what = "setting %s (%s, bunch %d, %d functions of %d variables)" % (s, "; ".join(case["acts"]), case["last"]["bunch"], len(case["funcs"]), case["n"])
        if s in self.MUST_REFUSE:
            self.refused(r, recs, ended, what)
            if "FireFly error" not in r.err + r.out:
                raise Fail("%s: refused without a message: %s" % (what, recon.tail(r)))
            return {"nontrivial": True, "labels": [s, "refused"]}
        if r.rc != 0 or not ended:
            raise Fail("%s ended with status %d: %s" % (what, r.rc, recon.tail(r)))
        recon.check_results(recs, j, random.Random(1), what)
        return {"nontrivial": s != "fine", "labels": [s, "accepted"]}

    def files(self, d):
        out = []
        for p, dirs, fs in os.walk(d + "/ff_save"):
            out += [os.path.join(p, f) for f in fs]
        return sorted(f for f in out if os.path.relpath(f, d + "/ff_save").split("/")[0] in PARTS)

    def run_state(self, case, d):
        how, frac, pct, env = case["chain"][0]
        opts = case["opts"]
        acts = opts + ["tags"]
        if how == "eval":
            dry = d + "/dry"; os.mkdir(dry)
            r, recs, ended, j = self.one(case, env, acts + ["reconstruct", "result"], dry)
            if r.rc != 0 or not ended:
                raise Fail("an uninterrupted run with state saving ended with status %d: %s" % (r.rc, recon.tail(r)))
            tot = [x for x in recs if x["kind"] == "evals"][0]
            acts.append("crash_eval %d" % max(1, int(frac * tot["evals"])))
        r, recs, ended, j = self.one(case, env, acts + (["reconstruct %d" % frac] if how == "stop" else ["reconstruct", "result"]), d)
        if r.rc not in (0, 77):
            raise Fail("the first run ended with status %d: %s" % (r.rc, recon.tail(r)))
        hit, lab = [], [how]
        for op, x in case["damage"]:
            fs = self.files(d)
            if not fs:
                break
            if op == "rmdir":
                ds = sorted(set(os.path.dirname(f) for f in fs))
                p = ds[int(x * len(ds))]
                if p.endswith("ff_save"):            # everything in it but what only some functions have
                    for f in fs:
                        os.remove(f)
                else:
                    for f in os.listdir(p):
                        os.remove(p + "/" + f)
                    os.rmdir(p)
            else:
                # every kind of file is as likely as every other one
                groups = {}
                for f in fs:
                    rel = os.path.relpath(f, d + "/ff_save")
                    groups.setdefault(rel.split("/")[0], []).append(f)
                g = groups[sorted(groups)[int(x * len(groups))]]
                p = g[int(x * 1009) % len(g)]
                if op == "rm":
                    os.remove(p)
                else:
                    open(p, "w").close()
            rel = os.path.relpath(p, d + "/ff_save")
            hit.append(op + " " + rel)
            lab.append(op + " " + rel.split("/")[0])
        r, recs, ended, j = self.one(case, case["last"], opts + ["tags", "resume", "reconstruct", "result"], d)
        what = "resuming after %s | first run: %s, threads=%d" % (", ".join(hit) or "no damage", " ".join(acts), env["threads"])
        if r.rc == 0 and ended:
            recon.check_results(recs, j, random.Random(2), what)
            lab.append("continued")
        else:
            self.refused(r, recs, ended, what)
            lab.append("refused")
        return {"nontrivial": bool(hit), "labels": lab}

    def shrink(self, case):
        if case["kind"] == "tool":
            for k, v in (("threads", 1), ("flavour", "default")):
                if case[k] != v:
                    yield dict(case, **{k: v})
            return
        for o in case["opts"]:
            if case["kind"] == "state":
                yield dict(case, opts=[x for x in case["opts"] if x != o])
        if case["kind"] == "settings":
            for o in ("factor", "shift", "safe"):
                if o in case["acts"] and case["setting"] not in ("n1scan", "safescan"):
                    yield dict(case, acts=[x for x in case["acts"] if x != o])
        if case["kind"] == "state" and len(case["damage"]) > 1:
            for i in range(len(case["damage"])):
                yield dict(case, damage=case["damage"][:i] + case["damage"][i + 1:])
        if case["bb"] != "terms":
            yield dict(case, bb="terms")
        for k, v in (("threads", 1), ("bunch", 1), ("verb", 0), ("seed", 1)):
            if case["last"][k] != v and not (k == "bunch" and case.get("setting") == "bunch"):
                yield dict(case, last=dict(case["last"], **{k: v}))
        if case["kind"] == "state" or case["setting"] not in ("n0", "tags"):
            for fs in recon.shrink_funcs(case["funcs"]):
                yield dict(case, funcs=fs)

CHECK = C21()
