import os, random
from .. import build, exprgen, fieldgen
from ..core import Check, Fail, run_cmd

NAMES = ["x", "y", "z", "W", "x1", "x2", "abc", "s12", "m", "zZ", "T3x", "q", "n", "c", "xx", "a", "b2b"]
FILES = ["list", "list.m", "a b.m", "funs.txt", "sub/list.m", "sub dir/my list", "x_c", "1", "./list", "long-name_with.many.dots.m", "*", "[ab].m", "it's.m", "$HOME.m", "a  b"]

class C22(Check):
    id = "C22"
    rule = ("one case = a Mathematica list of 1-12 random expressions (written in one line or broken into lines the way Mathematica writes files: after operators, after commas, inside long numbers or anywhere with a backslash; "
            "with or without quotation marks around the elements, indentation, and trailing newline) in a file with a plain, nested or unusual name; the conversion script of the tree is run on it and its output is read by the parser, "
            "whose values at random points of two fields are compared with the expression trees. Non-trivial: more than one function or a broken line.")
    counts = {"quick": 1200, "thorough": 25000}
    cap = {"quick": 300, "thorough": 3000}
    def setup(self, tier):
        self.dir = {f: build.build(f, ["parse"]) for f in ("default", "flint", "asan")}
        self.primes = fieldgen.primes(build.build("default", ["unit"]) + "/unit")
    def gen(self, rng, i):
        nv = rng.randint(1, 5)
        names = rng.sample(NAMES, nv)
        fs = []
        while len(fs) < rng.choice([1, 2, 2, 3, 3, 5, 12]):
            e = exprgen.expr(rng, nv, rng.choice([0, 1, 1, 2, 3]))
            if len(exprgen.render(e, names)) > 1500:
                continue
            try:
                for k in (0, 7, 299):
                    exprgen.value(e, [random.Random(9).randrange(2, self.primes[k]) for _ in range(nv)], self.primes[k])
            except ZeroDivisionError:
                continue
            fs.append(e)
        return {"flavour": rng.choices(["default", "flint", "asan"], [4, 4, 2])[0], "names": names, "fs": fs, "file": rng.choice(FILES[:2] * 4 + FILES), "ws": rng.choice([0, rng.randint(1, 10 ** 9)]),
                "quote": int(rng.random() < 0.3), "cont": rng.choice([0, 0, 1, 2]), "sep": rng.choice([",", ", ", ",\n", ", \n ", " , ", ",\n\n", ",\t"]),
                "open": rng.choice(["{", "{", "{", "{ ", "{\n", " {", "\n{"]), "close": rng.choice(["}", "}", "}\n", "}\n", " }\n", "\n}\n", "}\n\n", "} "]), "stale": int(rng.random() < 0.15),
                "where": rng.choice(["", "", "", "abs", "copy"]), "check": rng.randint(0, 1), "keep": rng.randint(0, 1), "p0": rng.choice([0, 0, 0, 7, 299]), "seed": rng.randint(1, 10 ** 9)}
    def run(self, case, d):
        rng = random.Random(case["seed"])
        names, nv = case["names"], len(case["names"])
        ws = random.Random(case["ws"]) if case["ws"] else None
        out = []
        for e in case["fs"]:
            s = exprgen.render(e, names, ws)
            if case["cont"] == 1:      # lines broken inside long numbers only
                t, run = "", 0
                for c in s:
                    run = run + 1 if c.isdigit() else 0
                    t += c
                    if run and run % 12 == 0:
                        t += "\\\n"
                s = t
            elif case["cont"] == 2:    # lines of a fixed width, broken anywhere, followed by an indentation
                w = rng.randint(3, 78)
                s = ("\\\n" + rng.choice(["", "  ", ">   "[1:]])).join(s[k:k + w] for k in range(0, len(s), w))
            out.append('"%s"' % s if case["quote"] else s)
        text = case["open"] + case["sep"].join(out) + case["close"]
        base = d + "/work"
        os.makedirs(base)
        name = case["file"]
        arg = name
        if os.path.dirname(name) not in ("", "."):
            os.makedirs(base + "/" + os.path.dirname(name))
        path = os.path.normpath(base + "/" + name)
        with open(path, "w") as f:
            f.write(text)
        if case["stale"]:
            with open(path + "_c", "w") as f:
                f.write("old;\n" * 1000)
        before = sorted(os.listdir(os.path.dirname(path)))
        script = build.REPO + "/mma_2_ff/convert_to_sy.sh"
        if case["where"] == "abs":
            arg = path
        elif case["where"] == "copy":  # the script called by its relative path from its own folder's copy
            with open(script) as f, open(d + "/convert_to_sy.sh", "w") as g:
                g.write(f.read())
            os.chmod(d + "/convert_to_sy.sh", 0o755)
            script = "../convert_to_sy.sh"
        r = run_cmd(["bash", script, arg] if case["where"] != "copy" else [script, arg], base, timeout=60)
        what = "list %r in file %r" % (text[:200], case["file"])
        if r.timeout:
            raise Fail("the script does not end: " + what, "hang")
        if r.rc != 0 or not os.path.exists(path + "_c"):
            raise Fail("the script ends with status %d and %s output file, %s: %s" % (r.rc, "an" if os.path.exists(path + "_c") else "no", what, r.err[:300]))
        if open(path).read() != text:
            raise Fail("the file with the list was changed by the script, " + what)
        extra = [x for x in os.listdir(os.path.dirname(path)) if x not in before and x != os.path.basename(path) + "_c"]
        if extra:
            raise Fail("the script leaves files %s behind, %s" % (extra, what))
        with open(path + "_c") as f, open(d + "/e.m", "w") as g:
            g.write(f.read())
        S, expect = ["prime %d" % case["p0"], "vars " + " ".join(names), "newfile 0 e.m %d %d" % (case["check"], case["keep"])], []
        for p in dict.fromkeys([case["p0"], rng.choice([0, 1, 298])]):
            P = self.primes[p]
            S += ["prime %d" % p, "refresh 0 0"]
            for _ in range(3):
                for _ in range(20):
                    pt = [rng.randrange(P) for _ in range(nv)]
                    try:
                        w = [exprgen.value(e, pt, P) for e in case["fs"]]
                        break
                    except ZeroDivisionError:
                        continue
                else:
                    continue
                S.append("at 0 pre 0 " + " ".join(map(str, pt)))
                expect.append((w, "field %d, point %s" % (p, pt)))
        with open(d + "/s", "w") as f:
            f.write("\n".join(S) + "\n")
        r = run_cmd([self.dir[case["flavour"]] + "/parse", "s", "o"], d, timeout=60, env={"ASAN_OPTIONS": "detect_leaks=0"})
        if r.timeout:
            raise Fail("the parser does not terminate, " + what, "hang")
        got = open(d + "/o").read().split("\n")[:-1] if os.path.exists(d + "/o") else []
        if r.rc != 0 or got[-1:] != ["end"]:
            raise Fail("the parser does not read the converted file (status %d), %s: %s" % (r.rc, what, (r.out + r.err)[:800].replace("\n", " / ")))
        for k, (w, txt) in enumerate(expect):
            g = got[k].split()[1:]
            if len(g) != len(w):
                raise Fail("%d functions instead of %d, %s" % (len(g), len(w), what))
            for j in range(len(w)):
                if g[j] != str(w[j]):
                    raise Fail("function %d is %s instead of %d (%s), %s" % (j, g[j], w[j], txt, what))
        return {"nontrivial": len(case["fs"]) > 1 or "\n" in text.strip(), "n": len(expect),
                "labels": [case["flavour"], "cont%d" % case["cont"]] + ["quote"] * case["quote"] + ["name"] * (case["file"] not in FILES[:2]) + ["stale"] * case["stale"]}
    def shrink(self, case):
        if len(case["fs"]) > 1:
            for i in range(len(case["fs"])):
                yield dict(case, fs=case["fs"][:i] + case["fs"][i + 1:])
        for k, v in (("cont", 0), ("ws", 0), ("quote", 0), ("stale", 0), ("where", ""), ("file", "list"), ("sep", ","), ("open", "{"), ("close", "}"), ("check", 0), ("keep", 0), ("p0", 0)):
            if case[k] != v:
                yield dict(case, **{k: v})
        for i, f in enumerate(case["fs"]):
            for g in exprgen.smaller(f):
                yield dict(case, fs=case["fs"][:i] + [g] + case["fs"][i + 1:])

CHECK = C22()
