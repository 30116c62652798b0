import os, random
from .. import build, exact, recon
from ..core import Check, Fail, run_cmd
from .c03 import C03

class C04(C03):
    id = "C04"
    level = "exploration"
    rule = ("one case = a run with state saving which is interrupted at an evaluation after the first complete state, stopped after some prime fields, or finished; then a new process "
            "resumes with a black box that differs as a tuple of functions: a coefficient or exponent changed, a function replaced, two functions swapped, one removed, one added. "
            "The resume must end with a failing exit status without reporting results. Non-trivial: the first run left a complete state and the black boxes differ at a random point.")
    counts = {"quick": 6000, "thorough": 60000}
    def gen(self, rng, i):
        case = C03.gen(self, rng, i)
        kind = rng.choices(["eval", "stop", "end"], [6, 2, 2])[0]
        c = case["chain"][0]
        case["chain"] = [[kind, rng.choice([1, 1, 2, 3]) if kind == "stop" else rng.random(), 0, dict(c[3], threads=rng.choice([1, 1, 1, 2, 4]))]]
        if kind == "eval":
            case["chain"][0][3]["threads"] = 1
        case["tags"] = "tags"
        # the other black box
        fs = case["funcs"]
        n = case["n"]
        def randf():
            return recon.rand_func(rng, n, 0.7)
        op = rng.choice(["coef", "coef", "coef", "exp", "replace", "swap", "remove", "removelast", "add", "addfront", "permute", "scale", "dup"])
        new = list(fs)
        k = rng.randrange(len(fs))
        if op in ("coef", "exp") and any(t for _, t in fs[k]["facs"]):
            fi = rng.choice([j for j, (_, t) in enumerate(fs[k]["facs"]) if t])
            exp, terms = fs[k]["facs"][fi]
            ti = rng.randrange(len(terms))
            a, b, es = terms[ti]
            if op == "coef":
                a = a + rng.choice([1, -1, 2, 10 ** 6]) or 5
                t2 = [a, b, es]
            else:
                e2 = list(es); e2[rng.randrange(n)] += 1
                t2 = [a, b, e2]
            if t2[2] == es or all(t[2] != t2[2] for t in terms):
                new[k] = {"facs": fs[k]["facs"][:fi] + [[exp, terms[:ti] + [t2] + terms[ti + 1:]]] + fs[k]["facs"][fi + 1:]}
        elif op == "swap" and len(fs) > 1:
            j = rng.choice([x for x in range(len(fs)) if x != k])
            new[k], new[j] = new[j], new[k]
        elif op == "permute" and len(fs) > 1:
            rng.shuffle(new)
        elif op == "remove" and len(fs) > 1:
            del new[k]
        elif op == "removelast" and len(fs) > 1:
            new = new[:rng.randint(1, len(fs) - 1)]
        elif op == "add":
            new = new + [randf() for _ in range(rng.choice([1, 1, 2]))]
        elif op == "addfront":
            new = [randf()] + new
        elif op == "scale":
            new[k] = {"facs": fs[k]["facs"] + [[1, [[rng.choice([-1, 2, 3]), 1, [0] * n]]]]}
        elif op == "dup":
            new = new + [new[-1]]
        else:
            new[k] = randf()
        case["op"], case["other"] = op, new
        return case
    def differ(self, a, b):
        if len(a) != len(b):
            return True
        rng = random.Random(5)
        q = (1 << 89) - 1
        pt = [rng.randrange(2, q) for _ in range(64)]
        return any(exact.func_eval(f, pt, q) != exact.func_eval(g, pt, q) for f, g in zip(a, b))
    def run(self, case, d):
        opts, funcs = case["opts"], case["funcs"]
        try:
            if not self.differ(funcs, case["other"]):
                return {"nontrivial": False, "labels": ["equal black boxes"]}
        except (ZeroDivisionError, ValueError):
            return {"nontrivial": False, "labels": ["undefined function"]}
        kind, frac, pct, env = case["chain"][0]
        acts = opts + ["tags"]
        if kind == "eval":
            dry = d + "/dry"; os.mkdir(dry)
            r, recs, ended, j = self.one(case, env, acts + ["reconstruct", "result"], dry)
            if r.rc != 0 or not ended:
                raise Fail("an uninterrupted run with state saving ended with status %d: %s" % (r.rc, recon.tail(r)))
            tot = [x for x in recs if x["kind"] == "evals"][0]
            acts.append("crash_eval %d" % max(1, int(frac * tot["evals"])))
        r, recs, ended, j = self.one(case, env, acts + (["reconstruct %d" % frac] if kind == "stop" else ["reconstruct", "result"]), d)
        if r.rc not in (0, 77):
            raise Fail("the first run ended with status %d: %s" % (r.rc, recon.tail(r)))
        if not self.complete(case, d):
            return {"nontrivial": False, "labels": ["incomplete state"]}
        r, recs, ended, j = self.one(dict(case, funcs=case["other"]), case["last"], opts + ["tags", "resume", "reconstruct", "result"], d)
        if r.rc == 0 or ended or any(x["kind"] in ("result", "nresult") for x in recs):
            raise Fail("resuming with another black box (%s, %d instead of %d functions) was not refused: status %d, results reported: %s | first run: %s" % (case["op"], len(case["other"]), len(funcs), r.rc, any(x["kind"] == "nresult" for x in recs), " ".join(acts)))
        return {"nontrivial": True, "labels": [case["op"], kind, "refused with message" if "error" in r.err else "status %d" % r.rc]}
    def shrink(self, case):
        for o in case["opts"]:
            yield dict(case, opts=[x for x in case["opts"] if x != o])
        if case["bb"] != "terms":
            yield dict(case, bb="terms")
        for k, v in (("threads", 1), ("bunch", 1), ("verb", 0), ("seed", 1)):
            if case["last"][k] != v:
                yield dict(case, last=dict(case["last"], **{k: v}))
        if len(case["funcs"]) == len(case["other"]) > 1:
            for i in range(len(case["funcs"])):
                yield dict(case, funcs=case["funcs"][:i] + case["funcs"][i + 1:], other=case["other"][:i] + case["other"][i + 1:])

CHECK = C04()
