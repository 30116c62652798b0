import random
from .. import build, exact, recon
from ..core import Check, Fail, run_cmd

class C19(Check):
    id = "C19"
    rule = ("one case = 8 stand-alone interpolation histories: a polynomial object (1-5 variables; Newton and/or Ben-Or/Tiwari; with or without total or individual degree bounds; "
            "termination threshold) or 1-3 rational-function objects (1-5 variables; normal or safe mode) fed value by value with surplus, future and stale values, batches and garbage "
            "labelled with another field, interpolating now and then, until completion or for one to three fields. "
            "The finished object must hold exactly the function, the unfinished one the function modulo the last field, and it asks for no more values in a field than a dense interpolation takes. "
            "Non-trivial: at least one function with two terms and a surplus or garbage value or more than one object or option.")
    counts = {"quick": 8000, "thorough": 100000}
    cap = {"quick": 300, "thorough": 3000}
    flavours = ["default", "flint"]
    def setup(self, tier):
        self.dir = {f: build.build(f, ["single"]) for f in self.flavours}

    def gen_one(self, rng):
        h = {"seed": rng.randint(1, 10 ** 9), "junk": rng.choice([0, 0, 20]), "stale": 0, "surplus": 0, "future": 0}
        if rng.random() < 0.1:
            h["noseed"] = 1       # only has an effect on the first object of a process
        h["n"] = n = rng.choices([1, 2, 3, 4, 5], [3, 5, 4, 2, 1])[0]
        if rng.random() < 0.4:
            h["kind"] = "poly"
            k = rng.choice(["generic", "generic", "dense", "zero", "const", "sparsehigh", "monomial", "linear"])
            big = rng.choices([0, 1, 2, 3], [5, 4, 2, 0.5])[0]
            dmax = {1: 20, 2: 10, 3: 7, 4: 5, 5: 4}[n]
            if k == "zero" :
                t = []
            elif k == "const":
                t = [[c[0], c[1], [0] * n] for c in [exact.rand_coef(rng, big)]]
            elif k == "dense":
                t = exact.dense_poly(rng, n, {1: rng.randint(1, 25), 2: rng.randint(1, 6), 3: rng.randint(1, 4)}.get(n, rng.randint(1, 2)), big)
            elif k == "sparsehigh":
                t = exact.rand_poly(rng, n, {1: 80, 2: 40, 3: 20}.get(n, 10), rng.randint(1, 5), big)
            elif k == "monomial":
                t = exact.rand_poly(rng, n, dmax, 1, big)
            elif k == "linear":
                t = exact.rand_poly(rng, n, 1, n, big)
            else:
                t = exact.rand_poly(rng, n, rng.randint(1, dmax), rng.randint(1, 12), big)
            if rng.random() < 0.15:
                # some coefficients vanish in one of the first fields
                t = [[c[0] * exact.PRIMES[rng.choice([0, 0, 1, 1, 2])] * (1 if rng.random() < 0.3 else rng.randint(2, 10 ** rng.randint(1, 30))) if rng.random() < 0.5 else c[0], c[1], c[2]] for c in t]
            h["funcs"] = [{"facs": [[1, t]]}]
            h["newton"], h["bt"] = rng.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
            deg = max([sum(x[2]) for x in t] or [0])
            if rng.random() < 0.3:
                h["deg"] = deg + rng.choice([0, 0, 1, 4])
            if rng.random() < 0.3:
                x = rng.choice([0, 0, 1, 3])
                h["bounds"] = [max([y[2][v] for y in t] or [0]) + x for v in range(n)]
            if rng.random() < 0.2:
                h["thr"] = rng.choice([1, 2, 3])
            h["stale"] = rng.choice([0, 0, 20])
            h["primes"] = 100
        else:
            h["kind"] = "rat"
            k = rng.choices([1, 2, 3], [5, 2, 1])[0]
            h["funcs"] = [recon.fac_func(rng, n, 0.8) if rng.random() < 0.15 else recon.rand_func(rng, n, rng.choice([0.6, 1, 1])) for _ in range(k)]
            h["safe"] = int(rng.random() < 0.25)
            h["multi"] = int(rng.random() < 0.4)
            h["surplus"] = rng.choice([0, 0, 20, 60])
            h["future"] = rng.choice([0, 0, 20, 50])
            h["stale"] = rng.choice([0, 0, 20, 50])
            h["primes"] = rng.choice([100, 100, 1, 2, 3])
        return h
    def gen(self, rng, i):
        return {"flavour": rng.choice(self.flavours), "hist": [self.gen_one(rng) for _ in range(8)]}

    def bound(self, h):
        """the number of values which is never exceeded in one field"""
        if h["kind"] == "rat":
            return sum(exact.dense_bound(f, h["n"]) for f in h["funcs"])
        t = h["funcs"][0]["facs"][0][1]
        ds = [max([x[2][v] for x in t] or [0]) for v in range(h["n"])]
        return 3 * (ds[0] + 3 + max(1, len(t)) * sum(d + 3 for d in ds[1:])) + 20

    def run(self, case, d):
        L = []
        for h in case["hist"]:
            L.append("case %s %d %d %d %d" % (h["kind"], h["n"], h["seed"], self.bound(h), h["primes"]))
            for k in ("newton", "bt", "deg", "thr", "safe", "noshift", "multi", "surplus", "junk", "future", "stale", "noseed"):
                if k in h:
                    L.append("%s %d" % (k, h[k]))
            if "bounds" in h:
                L.append("bounds " + " ".join(map(str, h["bounds"])))
            for f in h["funcs"]:
                L.append("f")
                for exp, terms in f["facs"]:
                    L.append("p %d" % exp)
                    for a, b, es in terms:
                        L.append("t %d %d %s" % (a, b, " ".join(map(str, es))))
            L.append("go")
        open(d + "/spec.txt", "w").write("\n".join(L) + "\n")
        r = run_cmd([self.dir[case["flavour"]] + "/single", "spec.txt"], d, timeout=120)
        out = open(d + "/out.txt").read().splitlines()
        if r.timeout:
            raise Fail("history %d does not come to an end" % (out.count("case") - 1), "hang")
        if r.rc != 0 or out[-1:] != ["end"]:
            raise Fail("the process ended with status %d in history %d: %s" % (r.rc, out.count("case") - 1, recon.tail(r)))
        blocks, cur = [], None
        for l in out[:-1]:
            if l == "case":
                cur = []; blocks.append(cur)
            else:
                cur.append(l)
        lab, non = [case["flavour"]], False
        for k, (h, b) in enumerate(zip(case["hist"], blocks)):
            self.check(h, b, "history %d (%s)" % (k, h["kind"]))
            lab.append(h["kind"])
            for o in ("safe", "junk", "surplus", "future", "stale", "deg", "bounds", "thr", "multi"):
                if h.get(o):
                    lab.append(o)
            if any(recon.interesting(f, h["n"]) for f in h["funcs"]) and (len(h["funcs"]) > 1 or any(h.get(o) for o in ("safe", "junk", "surplus", "future", "stale", "deg", "bounds", "thr"))):
                non = True
        return {"nontrivial": non, "labels": lab, "n": len(case["hist"])}

    def check(self, h, b, what):
        rng = random.Random(h["seed"])
        if b and b[0].startswith("limit"):
            raise Fail("%s: more than %d values are asked for in one field" % (what, self.bound(h)))
        if h["kind"] == "poly":
            w = b[0].split()
            if w[5] != "1":
                raise Fail("%s: 100 fields are not enough" % what)
            for l in b[1:]:
                t = recon.parse_poly(l)
                for x in t:
                    if len(x[2]) != h["n"]:
                        raise Fail("%s: the result has %d variables" % (what, len(x[2])))
                why = exact.same_terms(t, [], h["funcs"][0], rng)
                if why:
                    raise Fail("%s: %s" % (what, why))
            return
        stopped = b[0].startswith("stopped")
        if stopped and h["primes"] >= 100:
            raise Fail("%s: 100 fields are not enough" % what)
        p = int(b[0].split()[1]) if stopped else 0
        b = [l for l in b if l.startswith(("fn ", "num ", "den "))]
        for i in range(0, len(b), 3):
            w = b[i].split()
            f = h["funcs"][int(w[1])]
            num, den = recon.parse_poly(b[i + 1]), recon.parse_poly(b[i + 2])
            if w[3] == "1":
                why = exact.same_terms(num, den, f, rng)
                if why:
                    raise Fail("%s: object %s: %s" % (what, w[1], why))
            elif not exact.func_is_zero(f):
                if not stopped or int(w[5]) != h["primes"]:
                    raise Fail("%s: object %s is left unfinished" % (what, w[1]))
                recon.check_ff({"num": [[x[0]] + x[2] for x in num], "den": [[x[0]] + x[2] for x in den]}, f, p, "%s: object %s" % (what, w[1]))

    def shrink(self, case):
        hs = case["hist"]
        if len(hs) > 1:
            for i in range(len(hs)):
                yield dict(case, hist=[hs[i]])
            return
        h = hs[0]
        put = lambda x: dict(case, hist=[x])
        for k in ("safe", "multi", "surplus", "junk", "future", "stale"):
            if h.get(k):
                yield put(dict(h, **{k: 0}))
        for k in ("deg", "bounds", "thr"):
            if k in h:
                yield put({a: v for a, v in h.items() if a != k})
        for fs in recon.shrink_funcs(h["funcs"]):
            if all(f["facs"] for f in fs):
                if "deg" in h or "bounds" in h:
                    pass
                yield put(dict(h, funcs=fs))
        if h["n"] > 1 and "bounds" not in h:
            for v in range(h["n"]):
                yield put(dict(h, n=h["n"] - 1, funcs=recon.drop_var(h["funcs"], h["n"], v)))

CHECK = C19()
