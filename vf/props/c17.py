import copy, os, random, re
from .. import build, exact, unirf
from ..core import Check, Fail, run_cmd

VARS = ["s", "t", "d", "x", "y", "zZ", "m2", "F", "aF", "INT", "Fx", "b1", "long16variable16"]
FAMS = ["F", "F1", "F1x12", "INT", "AF", "s", "x1", "TOPO", "G_h", "fam"]
ARGS = ["1", "2", "1,0,-1", "input", "input2", "input,{1,2,3,4}", '"F1",4,432,4,0,{0,0,0,0,1,1,0,1,1}', "{0,0,1}", "-2", "a+b", "master", "s^2", "{1,{2,3}},q"]

def small_poly(rng, vs, deg=2):
    out = []
    for _ in range(rng.randint(1, 3)):
        m = []
        c = rng.randint(1, 40) if rng.random() < 0.9 else rng.randint(1, 10 ** 25)
        if c != 1 or rng.random() < 0.4:
            m.append(str(c) + ("/%d" % rng.randint(2, 30) if rng.random() < 0.25 else ""))
        for _ in range(rng.randint(0, deg)):
            v = rng.choice(vs)
            m.append(v if rng.random() < 0.7 else "%s^%d" % (v, rng.randint(2, 3)))
        out.append("*".join(m) or "1")
    s = out[0] if rng.random() < 0.8 else "-" + out[0]
    for o in out[1:]:
        s += rng.choice("+-") + o
    return s

def coef(rng, vs, dens):
    """a product, or None for no coefficient"""
    if rng.random() < 0.2:
        return None
    k = rng.random()
    if k < 0.25:
        c = str(rng.choice([0, 1, 2, 12, 33, 10 ** 20 + 7])) if rng.random() < 0.9 else str(rng.randint(1, 10 ** 40))
    elif k < 0.5:
        c = rng.choice(vs) + ("^%d" % rng.randint(0, 4) if rng.random() < 0.4 else "")
    else:
        c = "(" + small_poly(rng, vs) + ")" + ("^%d" % rng.randint(1, 3) if rng.random() < 0.2 else "")
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        o, k = rng.choice("**/"), rng.random()
        if o == "/":
            c += "/" + (rng.choice(dens) if k < 0.6 else rng.choice(vs + ["12", "7"]) + ("^2" if rng.random() < 0.3 else ""))
        else:
            c += "*" + ("(" + small_poly(rng, vs) + ")" if k < 0.5 else rng.choice(vs + ["12", "33/7"]))
    if rng.random() < 0.05:
        c = "-" + c
    return c

def lin(rng, names, vs, dens, nmax):
    """linear combination: [[name, sign, coefficient]]"""
    return [[rng.choice(names), rng.choice(["+", "+", "-"]) if rng.random() < 0.95 else rng.choice(["+-", "--", "-+", "++"]), coef(rng, vs, dens)] for _ in range(rng.randint(1, nmax))]

def render_lin(l):
    if not l:
        return "0"
    s = ""
    for i, (f, sg, c) in enumerate(l):
        s += ("" if i == 0 and sg == "+" and len(f) % 2 else sg) + f + ("*" + c if c is not None else "")
    return s

def white(rng, s, p):
    if not p:
        return s
    out = ""
    for i, ch in enumerate(s):
        out += ch
        if rng.random() < p and i + 1 < len(s) and not (ch.isalnum() and s[i + 1].isalnum()):
            out += rng.choice([" ", " ", "  ", "\n", "\t", "\n    "])
    return out

def text_of(case, l, k):
    rng = random.Random("%d:%d" % (case["wseed"], k))
    s = render_lin(l)
    b, e = rng.choice([("", ""), ("", ";"), ("{\n", "\n}\n"), ("{", "};\n"), ("", ";\n")])
    return b + white(rng, s, case["wp"]) + e

def table_text(case, t, k):
    rng = random.Random("t%d:%d" % (case["wseed"], k))
    s = ",".join(f + "->" + render_lin(l) for f, l in t)
    s = white(rng, s, case["wp"]).replace("- >", "->").replace("-\n>", "->")
    s = re.sub(r"-\s+>", "->", s)
    return rng.choice(["{\n%s\n}\n", "{%s}", "%s\n", "%s"]) % s

def lin_value(l, env, q):
    """coefficients by function"""
    r = {}
    for f, sg, c in l:
        v = 1 if c is None else exact.ExprEval(c).value(env, q)
        if sg.count("-") % 2:
            v = -v
        r[f] = (r.get(f, 0) + v) % q
    return r

def expected_text(case, l):
    """exact coefficient of every basis function as a text (for divisibility)"""
    rules = {f: r for t in case["tables"] for f, r in t}
    out = {}
    for f, sg, c in l:
        pre = ("-" if sg.count("-") % 2 else "") + "(" + (c or "1") + ")"
        for g, sg2, c2 in (rules[f] if f in rules else [[f, "+", None]]):
            out.setdefault(g, []).append("(" + pre + ")*(" + ("-" if sg2.count("-") % 2 else "") + "(" + (c2 or "1") + "))")
    return {g: "+".join(x) for g, x in out.items()}

class C17(Check):
    id = "C17"
    rule = ("one case = configuration, replacement tables and one to three expressions (function names that contain each other or variable names, nested braces in arguments, repeated functions and basis functions, "
            "rules to zero, functions without rule, rules not needed, any layout) given to the insertion tool in one of its modes: reconstruction (options, threads, bunches, both back ends), saving with the process "
            "killed at file-system steps and restarted, unsimplified coefficients, factors only, merging of a directory followed by a run on the merged file, skipped basis functions; or input with one defect, "
            "which has to be refused. Every coefficient written is compared with the exactly substituted one at random points of another field. Non-trivial: at least one rule is applied and two basis functions remain.")
    counts = {"quick": 12000, "thorough": 250000}
    cap = {"quick": 400, "thorough": 3300}
    def setup(self, tier):
        self.dir = {f: build.build(f, ["ff_insert"]) for f in ("flint", "default")}
    def gen(self, rng, i):
        fams = rng.sample(FAMS, rng.randint(1, 4))
        vs = rng.sample(VARS, rng.choice([1, 2, 2, 3, 3, 4]))
        used = vs[:max(1, len(vs) - rng.choice([0, 0, 0, 1]))]
        fn = set()
        while len(fn) < rng.randint(3, 9):
            fn.add("%s[%s]" % (rng.choice(fams), rng.choice(ARGS)))
        fn = sorted(fn)
        rng.shuffle(fn)
        nr = rng.randint(0, len(fn) - 1)
        replaced, masters = fn[:nr], fn[nr:]
        dens = ["(" + small_poly(rng, used, 1) + "+%d)" % rng.randint(100, 200) for _ in range(rng.randint(1, 2))]
        rules = []
        for f in replaced:
            rules.append([f, [] if rng.random() < 0.1 else lin(rng, masters[:rng.randint(1, len(masters))], used, dens, 3)])
        rng.shuffle(rules)
        nt = rng.choice([1, 1, 2, 3])
        tables = [t for t in ([r for k, r in enumerate(rules) if k % nt == j] for j in range(nt)) if t]
        mode = rng.choices(["run", "save", "ni", "fs", "merge", "bad"], [8, 4, 4, 2, 3, 4])[0]
        ne = 1 if mode in ("fs",) or (mode != "merge" and rng.random() < 0.7) else rng.randint(2 if mode != "merge" else 1, 3)
        exprs = [lin(rng, fn[:rng.randint(1, len(fn))], used, dens, 5) for _ in range(ne)]
        case = {"flavour": rng.choice(["flint", "flint", "default"]), "fams": fams, "vars": vs, "tables": tables, "exprs": exprs, "mode": mode,
                "wseed": rng.randint(1, 10 ** 9), "wp": rng.choice([0, 0, 0.05, 0.2]), "skip": [], "seed": rng.randint(1, 10 ** 9),
                "opts": [], "crash": [], "dir": ne > 1 or mode == "merge" or rng.random() < 0.15}
        rng.shuffle(case["fams"])
        if rng.random() < 0.2 and mode in ("run", "ni", "save"):
            case["skip"] = rng.sample(masters, rng.randint(1, len(masters)))
        if mode == "fs":
            case["flavour"] = "flint"
        case["opts"] = self.rand_opts(rng, mode)
        if mode == "save":
            case["crash"] = [int(10 ** rng.uniform(0, 2.6)) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        if mode == "merge":
            case["final"] = rng.choice(["run", "ni"])
        if mode == "bad":
            case["bad"] = rng.choice(["fam", "fam2", "close", "open", "front", "undeclared", "twice", "comma", "novars", "nofuncs", "paren", "div", "star", "nofunc", "noinput", "popt", "unknownopt", "noarg", "emptyvars", "empty", "noop", "mergefile"])
        return case
    def rand_opts(self, rng, mode):
        o = []
        if mode in ("run", "save") and rng.random() < 0.5:
            o.append(rng.choice(["-nfs", "--nofactorscan"]))
        if rng.random() < 0.5:
            o += [rng.choice(["-p", "--parallel"]), str(rng.choice([1, 2, 3, 4]))]
        if rng.random() < 0.4:
            o += [rng.choice(["-bs", "--bunchsize"]), str(rng.choice([1, 2, 4, 16, 128]))]
        return o
    def write(self, case, d):
        os.makedirs(d + "/config")
        rng = random.Random(case["wseed"])
        pad = (lambda l: "".join(x + rng.choice(["\n", "\n", " \n", "\n# comment\n", "\n\n"]) for x in l)) if case["wp"] else (lambda l: "\n".join(l) + "\n")
        open(d + "/config/functions", "w").write(pad(case["fams"]))
        open(d + "/config/vars", "w").write(pad(case["vars"]))
        if case["skip"]:
            open(d + "/config/skip_functions", "w").write(pad([white(rng, x, case["wp"] / 2).replace("\n", " ").replace("\t", " ") for x in case["skip"]]))
        if case["tables"] or case["wseed"] % 2:
            os.makedirs(d + "/replacements")
        for k, t in enumerate(case["tables"]):
            open(d + "/replacements/rep%d.m" % k, "w").write(table_text(case, t, k))
        if case["dir"]:
            os.makedirs(d + "/in")
        for k, l in enumerate(case["exprs"]):
            open(d + ("/in/e%d.m" % k if case["dir"] else "/e%d.m" % k), "w").write(text_of(case, l, k))
    def call(self, case, d, args, env=None, timeout=60):
        e = {"VF_TIME": str(case["seed"])}
        if case["mode"] == "save":      # the wall clock jumps: probes are written to files
            e["VF_CLOCK"] = str([0, 0, 100, 1000][case["wseed"] // 7 % 4])
        e.update(env or {})
        return run_cmd([self.dir[case["flavour"]] + "/ff_insert"] + args, d, timeout=timeout, env=e)
    def run(self, case, d):
        self.write(case, d)
        names, mode = case["vars"], case["mode"]
        inp = ("in" + ("/" if case["wseed"] % 3 == 0 else "")) if case["dir"] else "e0.m"
        lab = [mode, case["flavour"]]
        if mode == "bad":
            return self.run_bad(case, d, inp)
        calls = 1
        exprs, files = case["exprs"], ["e%d.m" % k for k in range(len(case["exprs"]))]
        opts = list(case["opts"])
        if mode == "merge":
            r = self.call(case, d, ["-m", inp])
            self.ok(r, "merging")
            exprs, files, inp = [[x for l in exprs for x in l]], ["in_merged.out"], "in_merged.out"
            calls += 1
            mode = case["final"]
        if mode == "ni":
            opts.append("-ni")
        elif mode == "fs":
            opts.append("-fs")
        elif mode == "save":
            opts.append("-s")
            crashed = False
            for j, k in enumerate(case["crash"]):
                r = self.call(case, d, opts + [inp], {"VF_CRASH_FS": str(k), "VF_TIME": str(case["seed"] + 17 * j), "VF_FS_PARTIAL": str(case["wseed"] % 3 * 40)})
                calls += 1
                if r.timeout:
                    raise Fail("a saved run does not terminate (%d. start)" % (j + 1), "hang")
                if r.rc == 77:
                    crashed = True; lab.append("killed")
                elif self.refused(r) and crashed:
                    lab.append("resume refused")
                    return {"nontrivial": False, "labels": lab, "n": calls}
                else:
                    self.ok(r, "a run with -s")
        r = self.call(case, d, opts + [inp])
        if mode == "save" and self.refused(r) and "killed" in lab:
            lab.append("resume refused")
            return {"nontrivial": False, "labels": lab, "n": calls}
        if r.timeout:
            raise Fail("the insertion tool does not terminate", "hang")
        self.ok(r, "the run")
        rules = {f for t in case["tables"] for f, _ in t}
        non = False
        for l, f in zip(exprs, files):
            n = self.compare(case, d, l, f, mode, lab)
            non = non or (n >= 2 and any(x[0] in rules for x in l))
        if mode == "save" and case["wseed"] % 4 == 0:       # once more from the saved states
            r = self.call(case, d, opts + [inp], {"VF_TIME": str(case["seed"] + 999)})
            self.ok(r, "a repeated run with -s")
            lab.append("repeated"); calls += 1
            for l, f in zip(exprs, files):
                self.compare(case, d, l, f, mode, lab)
        return {"nontrivial": non, "labels": sorted(set(lab)), "n": calls}
    def refused(self, r):
        return r.rc > 0 or (r.rc == -6 and "terminate called after throwing" in r.err)
    def ok(self, r, what):
        if r.timeout:
            raise Fail(what + " does not terminate", "hang")
        if r.rc != 0:
            raise Fail("%s ended with status %d: %s" % (what, r.rc, (r.out + r.err)[-600:]))
    def compare(self, case, d, l, fn, mode, lab):
        names, q = case["vars"], exact.Q1
        text = expected_text(case, l)
        rng = random.Random(case["seed"])
        basis = d + "/basis_functions_" + fn
        only = len(text) == 1 and set(text) <= set(case["skip"])
        if only:
            lab.append("only skipped")
            if os.path.exists(d + "/out_" + fn) and mode != "ni":
                raise Fail("%s: the only basis function is skipped but there is an output" % fn)
            return 0
        if not os.path.exists(basis):
            raise Fail("%s: no list of basis functions is written" % fn)
        got = open(basis).read().split("\n")[:-1]
        if sorted(got) != sorted(text):
            raise Fail("%s: the basis functions are %s instead of %s" % (fn, got, sorted(text)))
        want = [m for m in got if m not in case["skip"]]
        if case["skip"]:
            lab.append("skip")
        found = {}
        if mode == "ni":
            for m in want:
                p = d + "/coefficients_%s/%s.m" % (fn, m)
                if not os.path.exists(p):
                    raise Fail("%s: no coefficient file for %s" % (fn, m))
                s = "".join(open(p).read().split())
                if not (s.startswith("{+" + m + "*") and s.endswith("}")):
                    raise Fail("%s: the coefficient file of %s is %.300s" % (fn, m, s))
                found[m] = s[len(m) + 3:-1]
            extra = {x[:-2] for x in os.listdir(d + "/coefficients_" + fn)} - set(want)
            if extra:
                raise Fail("%s: coefficient files of other functions: %s" % (fn, sorted(extra)))
        else:
            s = open(d + "/out_" + fn).read()
            lines = s.split("\n")
            if lines[0] != "{" or lines[-1] != "" or lines[-2] != "}":
                raise Fail("%s: the output is not a list: %.400s" % (fn, s))
            for x in lines[1:-2]:
                m = [m for m in want if x.startswith("+ " + m + "*")]
                if len(m) != 1:
                    raise Fail("%s: unexpected line in the output: %.400s" % (fn, x))
                if m[0] in found:
                    raise Fail("%s: %s is listed twice" % (fn, m[0]))
                found[m[0]] = x[len(m[0]) + 3:]
        pts = []
        for _ in range(20):
            env = {v: rng.randrange(2, q) for v in names}
            try:
                pts.append((env, {m: exact.ExprEval(t).value(env, q) for m, t in text.items()}))
            except ZeroDivisionError:
                continue
            if len(pts) == 2:
                break
        if len(pts) < 2:
            raise Exception("no regular point")
        for m in want:
            zero = all(not v[m] for _, v in pts)
            if m not in found:
                if zero and mode != "fs":
                    lab.append("zero coefficient")
                    continue
                raise Fail("%s: no line for %s" % (fn, m))
            if zero and mode not in ("ni", "fs"):
                raise Fail("%s: the vanishing coefficient of %s is listed as %.200s" % (fn, m, found[m]))
            try:
                if mode == "fs":
                    self.check_factor(found[m], text[m], names, rng, zero, m, lab)
                    continue
                ev = exact.ExprEval(found[m])
                for env, v in pts:
                    if ev.value(env, q) != v[m]:
                        raise Fail("%s: the coefficient of %s is %.300s instead of %.300s" % (fn, m, found[m], text[m]))
            except exact.EvalError as e:
                raise Fail("%s: the coefficient of %s is not an expression (%s): %.300s" % (fn, m, e, found[m]))
            except ZeroDivisionError:
                raise Fail("%s: the coefficient of %s has a pole at a regular point: %.300s" % (fn, m, found[m]))
        return len(want)
    def check_factor(self, s, text, names, rng, zero, m, lab):
        q = exact.Q1
        ev = exact.ExprEval(s)
        pa, pb = ([rng.randrange(2, q) for _ in names] for _ in range(2))
        F = lambda pt: ev.value(dict(zip(names, pt)), q)
        va, vb = F(pa), F(pb)
        if va != vb:
            lab.append("factors found")
        if zero:
            return
        for v in range(len(names)):
            a, b = list(pa), list(pb)
            a[v], b[v] = b[v], a[v]
            if F(a) * F(b) % q != va * vb % q:
                raise Fail("factor of %s, %.300s: not a product of univariate functions" % (m, s))
            gn, gd = unirf.slice_text(s, names, v, pa, q)
            fn, fd = unirf.slice_text(text, names, v, pa, q)
            if not unirf.divides(gn, fn, q) or not unirf.divides(gd, fd, q):
                raise Fail("factor of %s, %.300s: does not divide %.300s" % (m, s, text))
    def run_bad(self, case, d, inp):
        bad, c = case["bad"], case
        e = d + ("/in/e0.m" if c["dir"] else "/e0.m")
        l = c["exprs"][0]
        txt = render_lin(l)
        rng = random.Random(c["seed"])
        opts = list(c["opts"])
        args = None
        rules = {f for t in c["tables"] for f, _ in t}
        used = [r for t in c["tables"] for r in t if r[0] in {x[0] for x in l} and r[1]]
        undecl = "undeclared9"
        place = rng.choice(["expr", "rule"]) if used else "expr"
        def put(newtext):
            if place == "expr":
                open(e, "w").write(newtext)
            else:
                r = used[0]
                for k, t in enumerate(c["tables"]):
                    if r in t:
                        open(d + "/replacements/rep%d.m" % k, "w").write("{" + ",".join(f + "->" + (newtext if f == r[0] else render_lin(x)) for f, x in t) + "}")
        cur = txt if place == "expr" else render_lin(used[0][1])
        first = cur.lstrip("+-")
        if bad in ("fam", "fam2"):
            put(cur + "+Qunknown[1,2]*3" if bad == "fam" else "Qunknown[1]*%s+%s" % (c["vars"][0], first))
        elif bad == "close":
            put(cur.replace("]", "", 1) if "]" in cur and cur.count("[") == 1 else cur + "+" + c["fams"][0] + "[77")
        elif bad == "open":
            put(cur + "+" + c["fams"][0] + "77]")
        elif bad == "front":
            put(rng.choice(["2*", "x*", "(1+1)*"]) + first)
        elif bad == "undeclared":
            if "-ni" in opts:
                opts.remove("-ni")
            put(cur + "+%s[88]*(%s+1)" % (c["fams"][0], undecl))
        elif bad == "twice":
            f = l[0][0]
            os.makedirs(d + "/replacements", exist_ok=True)
            open(d + "/replacements/a.m", "w").write("{%s->%s[5,5]*2}" % (f, c["fams"][0]))
            open(d + "/replacements/b.m", "w").write("{%s->%s[5,6]*2}" % (f, c["fams"][0]))
        elif bad == "comma":
            f = l[0][0]
            os.makedirs(d + "/replacements", exist_ok=True)
            for x in os.listdir(d + "/replacements"):
                os.remove(d + "/replacements/" + x)
            open(d + "/replacements/a.m", "w").write("{%s->%s[5]*2 %s[6]->%s[7]}" % (f, c["fams"][0], c["fams"][0], c["fams"][0]))
        elif bad == "novars":
            os.remove(d + "/config/vars")
        elif bad == "nofuncs":
            os.remove(d + "/config/functions")
        elif bad == "paren":
            put(cur + "+%s[88]*%s" % (c["fams"][0], rng.choice(["(1+2", "1+2)", "((3)", "(2))*(3"])))
        elif bad == "div":
            put(cur + "+%s[88]%s" % (c["fams"][0], rng.choice(["/3", "^2", "(2)", "3"])) + rng.choice(["", "+%s[89]*2" % c["fams"][0]]))
        elif bad == "star":
            put(cur + "+%s[88]*" % c["fams"][0] + rng.choice(["", "+%s[89]" % c["fams"][0]]))
        elif bad == "nofunc":
            put(rng.choice([c["vars"][0] + "+1", c["vars"][0] + "+" + first, cur + "+%s[88]*2+%s" % (c["fams"][0], c["vars"][0])]))
        elif bad == "noinput":
            args = ["does_not_exist"]
        elif bad == "popt":
            args = rng.choice([["-p", "x1", inp], ["-bs", "-2", inp], ["-p"], ["-bs"]])
        elif bad == "unknownopt":
            args = [rng.choice(["-z", "--unknown", "-nsf"]), inp]
        elif bad == "noarg":
            args = rng.choice([[], ["-nfs"], ["-m"], ["-s", "-ni"]])
        elif bad == "emptyvars":
            open(d + "/config/vars", "w").write(rng.choice(["", "\n\n", "# x\n"]))
        elif bad == "empty":
            open(e, "w").write(rng.choice(["", "{}", " \n", "{\n}\n", ";"]))
        elif bad == "noop":
            put("%s[88]%s" % (c["fams"][0], first) if rng.random() < 0.5 else "%s[88],%s" % (c["fams"][0], first))
        elif bad == "mergefile":
            open(d + "/plain.m", "w").write("F[1]")
            os.makedirs(d + "/emptydir")
            args = ["-m", rng.choice(["plain.m", "emptydir"])]
        r = self.call(c, d, args if args is not None else opts + [inp])
        if r.timeout:
            raise Fail("defective input (%s) is not refused, the tool does not terminate" % bad, "hang")
        if r.rc == 0:
            raise Fail("defective input (%s) is accepted" % bad)
        if r.rc < 0 or r.rc > 1:
            raise Fail("defective input (%s) ends the tool with status %d" % (bad, r.rc))
        return {"nontrivial": True, "labels": ["bad", "bad " + bad], "n": 1}
    def shrink(self, case):
        c = case
        for i in range(len(c["exprs"])):
            if len(c["exprs"]) > 1:
                yield dict(c, exprs=c["exprs"][:i] + c["exprs"][i + 1:])
        for k, v in (("wp", 0), ("skip", []), ("opts", []), ("crash", []), ("flavour", "default" if c["mode"] != "fs" else "flint")):
            if c[k] != v:
                yield dict(c, **{k: v})
        if c["mode"] == "save" and not c["crash"]:
            yield dict(c, mode="run")
        for i in range(len(c["tables"])):
            yield dict(c, tables=c["tables"][:i] + c["tables"][i + 1:])
            for j in range(len(c["tables"][i])):
                t = copy.deepcopy(c["tables"])
                del t[i][j]
                yield dict(c, tables=[x for x in t if x])
                for y in self.smaller_lin(c["tables"][i][j][1]):
                    t = copy.deepcopy(c["tables"])
                    t[i][j][1] = y
                    yield dict(c, tables=t)
        for i, l in enumerate(c["exprs"]):
            for y in self.smaller_lin(l):
                if y:
                    yield dict(c, exprs=c["exprs"][:i] + [y] + c["exprs"][i + 1:])
        for i in range(len(c["fams"])):
            if len(c["fams"]) > 1 and not any(f.split("[")[0] == c["fams"][i] for f in self.all_names(c)):
                yield dict(c, fams=c["fams"][:i] + c["fams"][i + 1:])
    def all_names(self, c):
        return [x[0] for l in c["exprs"] for x in l] + [f for t in c["tables"] for f, _ in t] + [x[0] for t in c["tables"] for _, l in t for x in l]
    def smaller_lin(self, l):
        for i in range(len(l)):
            yield l[:i] + l[i + 1:]
            if l[i][1] != "+":
                yield l[:i] + [[l[i][0], "+", l[i][2]]] + l[i + 1:]
            if l[i][2] is not None:
                yield l[:i] + [[l[i][0], l[i][1], None]] + l[i + 1:]
                if l[i][2] != "2":
                    yield l[:i] + [[l[i][0], l[i][1], "2"]] + l[i + 1:]

CHECK = C17()
