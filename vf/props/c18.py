import gzip, os, random, re, shutil
from .. import build, exact, recon
from ..core import Check, Fail, run_cmd

class C18(Check):
    id = "C18"
    rule = ("one case = a tuple of 1-4 rational functions in 1-4 variables, files with anchor points and shifts for one or more fields, some initial values at self-chosen points of the first field, and the whole loop of calls of "
            "the stand-alone tool (1-3 threads): every call has to end with status 0 (or 1 when there is no value at all yet) and either writes requests, which have to be legal points not answered yet, or the result. "
            "Between the calls all or a drawn part of the requests is answered exactly, in drawn order, sometimes twice, and the saved state is kept or (when all points are fixed by the files) removed. "
            "The loop has to end and the result has to equal the functions. Non-trivial: a function with two terms and at least three calls.")
    counts = {"quick": 1500, "thorough": 25000}
    cap = {"quick": 300, "thorough": 3300}
    flavours = ["default", "flint"]
    def setup(self, tier):
        self.dir = {f: build.build(f, ["firefly"]) for f in self.flavours}

    def gen(self, rng, i):
        n = rng.choices([1, 2, 3, 4], [3, 5, 3, 1])[0]
        k = rng.choices([1, 2, 3, 4], [5, 3, 1, 1])[0]
        funcs = [recon.rand_func(rng, n, rng.choice([0.5, 0.7, 0.7, 1]) if n < 3 else 0.5) for _ in range(k)]
        if rng.random() < 0.3:
            rem = rng.choice([0.2, 0.6, 1])
            lines = 40
        else:
            rem = 0
            lines = rng.choice([1, 1, 2, 3, 6])
        return {"flavour": rng.choice(self.flavours), "n": n, "funcs": funcs, "seed": rng.randint(1, 10 ** 9), "threads": rng.choice([1, 1, 2, 3]),
                "anchors": lines, "shifts": lines if rem else rng.choice([lines, 1, 2]), "zshift": int(rng.random() < 0.15),
                "initial": rng.choice([1, 1, 2, 5, 20]), "remove": rem, "part": rng.choice([1, 1, 1, 0.5, 0.1]),
                "twice": rng.choice([0, 0, 0.3]), "empty": int(rng.random() < 0.05),
                "jitter": rng.choice([0, 0, 2, 10, 50])}

    def run(self, case, d):
        rng = random.Random(case["seed"])
        n, funcs = case["n"], case["funcs"]
        M = 9223372036854770000
        anch = [[rng.randrange(2, M) for _ in range(n - 1)] for _ in range(case["anchors"])]
        sh = [[rng.randrange(1, M) for _ in range(n)] for _ in range(case["shifts"])]
        if case["zshift"] and all(self.regular_at_zero(f, n) for f in funcs):
            sh = [[0] * n for _ in sh]
        if n == 1:
            eff = [[0] for _ in sh]            # the tool does not shift in one variable
        else:
            eff = sh
        W = lambda name, rows: open(d + "/" + name, "w").write("".join(" ".join(map(str, r)) + "\n" for r in rows))
        W("anchor_points", anch)
        W("shifts", sh)
        os.makedirs(d + "/probes")
        known = {}                                 # prime index -> {(order, t): [values]}
        extra = {}
        def value(pt, p):
            return [exact.func_eval(f, pt, p) for f in funcs]
        p0 = exact.PRIMES[0]
        if not case["empty"]:
            while len(known.setdefault(0, {})) < case["initial"]:
                t = rng.randrange(1, p0)
                pt = [(t + eff[0][0]) % p0] + [(a * t + s) % p0 for a, s in zip(anch[0], eff[0][1:])]
                try:
                    known[0][((1,) * (n - 1), t)] = value(pt, p0)
                except ZeroDivisionError:
                    pass
        def write(k):
            rows = [(o, t, v) for (o, t), v in known[k].items()]
            rows += [r for r in rows if rng.random() < case["twice"]]
            rng.shuffle(rows)
            with gzip.open(d + "/probes/%d.gz" % k, "wt", compresslevel=1) as g:
                for o, t, v in rows:
                    g.write("".join("%d " % x for x in o) + "| %d | %s\n" % (t, " ".join(map(str, v))))
        calls = 0
        primes = {p0: 0}
        bits = 1
        for f in funcs:
            num, den = exact.func_expand(f, n)
            bits = max([bits] + [x.bit_length() for c in list(num.values()) + list(den.values()) for x in (c.numerator, c.denominator)])
        enough = 4 * bits // 60 + 6                # generous: ratios of coefficients, twice as many digits for the reconstruction, a field for the check
        if known:
            write(0)
        while True:
            calls += 1
            if calls > 600:
                raise Fail("after 600 calls there is still no result", "hang")
            for x in ("requested_probes.gz",):
                if os.path.exists(d + "/" + x):
                    os.remove(d + "/" + x)
            r = run_cmd([self.dir[case["flavour"]] + "/firefly", "-v", str(n), "-p", str(case["threads"])], d, timeout=60, env={"VF_JITTER": str(case["jitter"]), "VF_CLOCK": str(rng.choice([0, 0, 0, 100, 1000])), "VF_JITTER_SEED": str(rng.randint(1, 10 ** 6))})
            if r.timeout:
                raise Fail("call %d does not end" % calls, "hang")
            if r.rc != 0 and not (r.rc == 1 and not known):
                raise Fail("call %d ended with status %d: %s" % (calls, r.rc, recon.tail(r)))
            res, req = os.path.exists(d + "/result.m"), os.path.exists(d + "/requested_probes.gz")
            if res == req:
                raise Fail("call %d wrote %s" % (calls, "both a result and requests" if res else "neither a result nor requests"))
            if res:
                break
            # the field of the requests is the last one announced
            ann = re.findall(r"F\((\d+)\)", (r.out or "") + (r.err or ""))
            log = open(d + "/firefly.log").read() if os.path.exists(d + "/firefly.log") else ""
            ann = ann or re.findall(r"F\((\d+)\)", log)
            if not ann:
                raise Fail("call %d does not tell the field" % calls)
            p = int(ann[-1])
            k = primes.setdefault(p, len(primes))
            if len(primes) > enough:
                raise Fail("in call %d values in %d fields are requested although numbers of %d bits have to be reconstructed" % (calls, len(primes), bits), "hang")
            lines = gzip.open(d + "/requested_probes.gz", "rt").read().splitlines()
            if not lines:
                raise Fail("call %d requests nothing" % calls)
            asked = {}
            for l in lines:
                x = l.split("|")
                try:
                    o, t, pt = tuple(map(int, x[0].split())), int(x[1]), list(map(int, x[2].split()))
                except (ValueError, IndexError):
                    raise Fail("call %d: request not readable: %s" % (calls, l))
                if len(o) != n - 1 or len(pt) != n or not all(0 <= y < p for y in pt) or not 0 <= t < p:
                    raise Fail("call %d: illegal request %s" % (calls, l))
                if (o, t) in known.get(k, {}):
                    raise Fail("call %d: %s has been answered already" % (calls, l))
                if (o, t) in asked:
                    raise Fail("call %d: %s is requested twice" % (calls, l))
                if k < min(len(anch), len(sh)):
                    want = [(t + eff[k][0]) % p] + [(pow(a, e, p) * t + s) % p for a, e, s in zip(anch[k], o, eff[k][1:])]
                    if pt != want:
                        raise Fail("call %d: the point of %s does not belong to the given anchor points and shift" % (calls, l))
                asked[(o, t)] = pt
            todo = list(asked)
            rng.shuffle(todo)
            todo = todo[:max(1, int(len(todo) * case["part"]))]
            for q in todo:
                try:
                    known.setdefault(k, {})[q] = value(asked[q], p)
                except ZeroDivisionError:
                    pass
            if known.get(k):
                write(k)
            if rng.random() < case["remove"]:
                shutil.rmtree(d + "/ff_save", ignore_errors=True)
        text = open(d + "/result.m").read().strip()
        if not (text.startswith("{") and text.endswith("}")):
            raise Fail("result file not readable: " + text[:200])
        parts = [x.strip() for x in text[1:-1].split("\n,")]
        if parts and parts[-1] == "" and len(parts) == len(funcs) + 1:
            parts.pop()
        if len(parts) != len(funcs):
            raise Fail("%d functions instead of %d: %s" % (len(parts), len(funcs), text[:200]))
        nm = ["x%d" % (i + 1) for i in range(n)]
        for i, (s, f) in enumerate(zip(parts, funcs)):
            try:
                why = exact.same_function(s, f, nm, rng)
            except RecursionError:
                raise Fail("function %d: text too deep" % i)
            if why:
                raise Fail("function %d: %s: %s" % (i, why, s[:300]))
        return {"nontrivial": calls > 2 and any(recon.interesting(f, n) for f in funcs), "n": calls,
                "labels": [case["flavour"], "n=%d" % n, "fields=%d" % len(primes)] + [x for x in ("remove", "twice", "empty", "zshift") if case[x]] + (["jitter"] if case["jitter"] else []) + (["part"] if case["part"] < 1 else [])}

    def regular_at_zero(self, f, n):
        """no shift is needed when the denominator has a constant term"""
        num, den = exact.func_expand(f, n)
        z = (0,) * n
        return z in den or not num

    def shrink(self, case):
        for k, v in (("threads", 1), ("twice", 0), ("part", 1), ("remove", 0), ("empty", 0), ("jitter", 0), ("initial", 1), ("flavour", "default")):
            if case[k] != v:
                yield dict(case, **{k: v})
        for fs in recon.shrink_funcs(case["funcs"]):
            if fs:
                yield dict(case, funcs=fs)

CHECK = C18()
