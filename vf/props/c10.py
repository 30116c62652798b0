import os, random
from .. import build, exprgen, fieldgen
from ..core import Check, Fail, run_cmd

NAMES = ["x", "y", "z", "W", "x1", "x2", "abc", "s12", "m", "zZ", "T3x", "q", "abcdefghijklmnop", "A0B1C2D3E4F5G6H7", "xx", "a", "b2b"]

class C10(Check):
    id = "C10"
    rule = ("one case = a history of operations on parsers (constructed from a file, a list or function by function; with and without detection of equal functions and kept notation): "
            "field changes with the documented refresh, removal of functions, functions added on the fly, copies, and evaluations by every route, scalar or bunched, at random points; "
            "after every step a model (list of expression trees) predicts the values in the current field. Non-trivial: at least one expression with a power, division or parenthesis was evaluated in two fields or after a change of the list.")
    counts = {"quick": 5000, "thorough": 100000}
    cap = {"quick": 300, "thorough": 3000}
    def setup(self, tier):
        self.dir = {f: build.build(f, ["parse"]) for f in ("default", "flint", "asan")}
        self.primes = fieldgen.primes(build.build("default", ["unit"]) + "/unit")
    def gen(self, rng, i):
        nv = rng.randint(1, 5)
        names = rng.sample(NAMES, nv)
        q = self.primes[0]
        def E():
            while True:
                e = exprgen.expr(rng, nv, rng.choice([0, 1, 2, 3]))
                if len(exprgen.render(e, names)) > 3000:
                    continue
                try:
                    for p in (self.primes[0], self.primes[7]):
                        exprgen.value(e, [random.Random(9).randrange(2, p) for _ in range(nv)], p)
                    return e
                except ZeroDivisionError:
                    pass
        kind = rng.choice(["file", "file", "vec", "def", "empty"])
        check = rng.random() < 0.4 and kind != "def"
        keep = rng.random() < 0.5 and kind != "def"
        nf = 0 if kind == "empty" else rng.randint(1, 6)
        fs = [E() for _ in range(nf)]
        if nf > 1 and rng.random() < 0.5:
            fs[rng.randrange(nf)] = fs[rng.randrange(nf)]
            if rng.random() < 0.5:
                fs.append(fs[0])
        ops = []
        val = rng.random() < 0.5
        count = len(fs)
        for _ in range(rng.randint(2, 9)):
            op = rng.choices(["prime", "trim", "otf", "otfpre", "copy", "force", "at"], [5, 1.5, 2, 0.7, 0.7, 0.7, 4])[0]
            if op == "prime":
                ops.append(["prime", rng.choice([0, 1, 2, 3, 7, 99, 199, 298, 299])])
            elif op == "trim":
                ops.append(["trim", rng.random(), rng.randint(1, 10 ** 9)])
            elif op == "otf":
                ops.append(["otf", [E() if rng.random() < 0.7 or not fs else rng.choice(fs) for _ in range(rng.randint(1, 3))], int(rng.random() < 0.4)])
            elif op == "otfpre":
                ops.append(["otfpre", E()])
            else:
                ops.append([op])
        return {"flavour": rng.choices(["default", "flint", "asan"], [4, 4, 2])[0], "names": names, "kind": kind, "check": int(check), "keep": int(keep), "val": int(val),
                "fs": fs, "ops": ops, "ws": rng.randint(1, 10 ** 9), "p0": rng.choice([0, 0, 0, 1, 5, 298, 299]), "seed": rng.randint(1, 10 ** 9)}
    def run(self, case, d):
        rng = random.Random(case["seed"])
        names, nv, kind, check, keep = case["names"], len(case["names"]), case["kind"], case["check"], case["keep"]
        ws = random.Random(case["ws"])
        S, expect = [], []                # script lines and, per output line, the expectation
        p = case["p0"]
        S.append("prime %d" % p)
        S.append("vars " + " ".join(names))
        out = list(case["fs"])            # the model: what an evaluation returns, in order
        lab = [case["flavour"], kind] + (["check"] if check else []) + (["keep"] if keep else [])
        def sig(e):
            r = random.Random(77)
            q = (1 << 127) - 1
            return exprgen.value(e, [r.randrange(2, q) for _ in range(nv)], q)
        funcs = []                        # the distinct functions the parser holds (check mode)
        if check:
            for e in out:
                if sig(e) not in funcs:
                    funcs.append(sig(e))
        have_rpn = keep or kind in ("def",)
        if kind == "file":
            with open(d + "/e.m", "w") as f:
                f.write("".join(exprgen.render(e, names, ws) + ";" + ws.choice(["", "\n", "\n\n", " "]) for e in out))
            S.append("newfile 0 e.m %d %d" % (check, keep))
        elif kind in ("vec", "empty"):
            S.append("clear")
            S += ["fn " + exprgen.render(e, names) for e in out]
            S.append("newvec 0 %d %d" % (check, keep))
        else:
            S.append("newdef 0")
            S += ["pf 0 %d %s" % (case["val"], exprgen.render(e, names, None, case["val"])) for e in out]
            S.append("refresh 0 0")
        pid, changes, fields, interesting = 0, 0, {p}, False
        def at():
            nonlocal interesting
            P = self.primes[p]
            for route in (["pre", "pre2"] + (["eval"] if keep else [])):
                if rng.random() < 0.35:
                    continue
                n = rng.choice([0, 0, 2, 4, 8, 16, 32, 64, 128])
                vals = []
                for l in range(max(1, n)):
                    for _ in range(20):
                        pt = [rng.choice([rng.randrange(P), rng.randrange(P), rng.randrange(P), 1, 2, P - 1]) for _ in range(nv)]
                        try:
                            w = [exprgen.value(e, pt, P) for e in out]
                            break
                        except ZeroDivisionError:
                            continue
                    else:
                        return
                    vals.append((pt, w))
                S.append("at %d %s %d %s" % (pid, route, n, " ".join(str(v) for pt, _ in vals for v in pt)))
                for pt, w in vals:
                    expect.append(("v", "v" + "".join(" %d" % x for x in w), "%s, %d lanes, field %d, point %s" % (route, n, p, pt)))
                if any(any(c in exprgen.render(e, names) for c in "(^/") for e in out) and (len(fields) > 1 or changes):
                    interesting = True
        at()
        otfpre = False
        for op in case["ops"]:
            if op[0] == "prime":
                p = op[1]
                fields.add(p)
                S.append("prime %d" % p)
                S.append("refresh %d 0" % pid)
                if rng.random() < 0.3:
                    S.append("refresh %d 0" % pid)
                at()
            elif op[0] == "trim":
                if not out:
                    continue
                r = random.Random(op[2])
                ks = [i for i in range(len(out)) if r.random() < max(0.2, op[1])]
                S.append("trim %d %s" % (pid, " ".join(map(str, ks))))
                expect.append(("map", "map" + "".join(" %d:%d" % (k, j) for j, k in enumerate(ks)), "trim " + str(ks)))
                out = [out[k] for k in ks]
                if check:
                    funcs = []
                    for e in out:
                        if sig(e) not in funcs:
                            funcs.append(sig(e))
                changes += 1
                lab.append("trim")
                at()
            elif op[0] == "otf":
                if not keep or otfpre:
                    continue
                for e in op[1]:
                    nd = op[2] if check else 0
                    S.append("otf %d %d %s" % (pid, nd, exprgen.render(e, names)))
                    if check:
                        s = sig(e)
                        pos = funcs.index(s) if s in funcs else len(funcs)
                        if s not in funcs or not nd:
                            out.append(e)
                        if s not in funcs:
                            funcs.append(s)
                    else:
                        out.append(e)
                        pos = len(out) - 1
                    expect.append(("pos", "pos %d p %d" % (pos, self.primes[p]), "add_otf"))
                S.append("refresh %d 1" % pid)
                changes += 1
                lab.append("otf")
                at()
            elif op[0] == "otfpre":
                if check or keep:
                    continue
                S.append("otfpre %d %s" % (pid, exprgen.render(op[1], names)))
                out.append(op[1]); otfpre = True
                expect.append(("pos", "pos %d" % (len(out) - 1), "add_otf_precompute"))
                changes += 1
                lab.append("otfpre")
                at()
            elif op[0] == "copy":
                S.append("copy %d %d" % (pid + 1, pid))
                pid += 1
                at()
            elif op[0] == "force":
                if keep:
                    S.append("refresh %d 1" % pid)
                    at()
            else:
                at()
        if keep:
            S.append("size %d" % pid)
            k = len(funcs) if check else len(out)
            expect.append(("size", "size %d %d %d" % (k, int(k == 0), k), "number of functions"))
        open(d + "/s", "w").write("\n".join(S) + "\n")
        r = run_cmd([self.dir[case["flavour"]] + "/parse", "s", "o"], d, timeout=60, env={"ASAN_OPTIONS": "detect_leaks=0"})
        if r.timeout:
            raise Fail("the parser does not terminate", "hang")
        got = open(d + "/o").read().split("\n")[:-1] if os.path.exists(d + "/o") else []
        for k, (what, want, txt) in enumerate(expect):
            if k >= len(got) or got[k] == "end":
                raise Fail("the process ended with status %d before: %s | %s" % (r.rc, txt, (r.err[:1500] + r.err[-500:]).replace("\n", " / ")))
            if got[k] != want:
                w, g = want.split(), got[k].split()
                bad = next((i for i in range(1, min(len(w), len(g))) if w[i] != g[i]), None)
                raise Fail("%s: %s instead of %s%s" % (txt, got[k][:300], want[:300], " | function: " + exprgen.render(out[bad - 1], names)[:300] if what == "v" and bad and bad <= len(out) else ""))
        if r.rc != 0 or got[-1:] != ["end"]:
            raise Fail("the process ended with status %d: %s" % (r.rc, (r.err[:1500]).replace("\n", " / ")))
        return {"nontrivial": interesting, "labels": lab, "n": len(expect)}
    def shrink(self, case):
        for i in range(len(case["ops"])):
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
        if len(case["fs"]) > 1:
            for i in range(len(case["fs"])):
                yield dict(case, fs=case["fs"][:i] + case["fs"][i + 1:])
        for k in ("check", "keep", "p0"):
            if case[k]:
                yield dict(case, **{k: 0})
        for i, f in enumerate(case["fs"]):
            for g in exprgen.smaller(f):
                yield dict(case, fs=case["fs"][:i] + [g] + case["fs"][i + 1:])
        for i, o in enumerate(case["ops"]):
            if o[0] == "otf":
                for j in range(len(o[1])):
                    if len(o[1]) > 1:
                        yield dict(case, ops=case["ops"][:i] + [["otf", o[1][:j] + o[1][j + 1:], o[2]]] + case["ops"][i + 1:])
                    for g in exprgen.smaller(o[1][j]):
                        yield dict(case, ops=case["ops"][:i] + [["otf", o[1][:j] + [g] + o[1][j + 1:], o[2]]] + case["ops"][i + 1:])
            if o[0] == "otfpre":
                for g in exprgen.smaller(o[1]):
                    yield dict(case, ops=case["ops"][:i] + [["otfpre", g]] + case["ops"][i + 1:])

CHECK = C10()
