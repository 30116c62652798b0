import os, random
from .. import build, exprgen
from ..core import Check, Fail, run_cmd

NAMES = ["x", "y", "z1", "abcdefghijklmnop", "W", "s12"]
FAMS = ["F", "Gg", "H1"]
ALPHA = "()()()+-*/^^;;0123456789xyzWsab.,_$#![]{}<>=~!;:'\"&|%?@\\ \t\n\r\0\x01\x7f\x80\xff"
MODES = ["file", "file", "filecheck", "vec", "otf", "pf"]

def chunks(mode, t):
    if mode.startswith("file"):
        r = [c for c in t.split(";")]
        r = [c.replace(" ", "").replace("\t", "").replace("\n", "") for c in r]
        return [c for c in r if c]
    return [t]

def balanced(t):
    d = 0
    for c in t:
        d += (c == "(") - (c == ")")
        if d < 0:
            return False
    return d == 0

def expect(mode, t, hint):
    """what has to happen: ok, bad or any"""
    if mode in ("file", "filecheck", "vec", "otf", "pf") and any(not balanced(c) for c in chunks(mode, t)):
        return "bad"
    return hint

def mutate(rng, t, other):
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
        k = rng.randrange(9)
        n = len(t)
        i = rng.randrange(n + 1)
        j = min(n, i + rng.choice([1, 1, 2, 3, 8, 30]))
        if k <= 1:
            t = t[:i] + t[j:]
        elif k <= 3:
            t = t[:i] + "".join(rng.choice(ALPHA) for _ in range(rng.choice([1, 1, 2, 5]))) + t[i:]
        elif k == 4:
            t = t[:j] + t[i:j] * rng.choice([1, 1, 3, 50]) + t[j:]
        elif k == 5:
            t = t[:i]
        elif k == 6:
            o = rng.randrange(len(other) + 1)
            t = t[:i] + other[o:]
        elif k == 7:
            t = t[:i] + rng.choice(["()", "((", "))", "^(-", "^(", "(-", "+-", "-+", "--", "++", "**", "//", "^^", "->", "0", "1e5", "1.5", "^-2", "^(-(2))", "9" * rng.choice([17, 18, 19, 20, 40, 400]), "x" * rng.choice([16, 17, 18, 19, 40]), "-" + "9" * 18, "+" + "9" * 18, "[", "]", "F[", "]*"]) + t[i:]
        else:
            o = rng.randrange(n + 1)
            t = t[:i] + t[o:o + rng.choice([1, 4, 12])] + t[i:]
    return t

class C11(Check):
    id = "C11"
    rule = ("one evaluation = one input text given to a parser (file, list, single function, function added on the fly, expression and replacement table of the insertion tool) in a process of its own, "
            "built with address and undefined-behaviour checks and checked containers; valid expressions, mutated and spliced ones, token soups, raw bytes, extreme nesting and length. "
            "Accepted: normal exit or the error exit. Unbalanced parentheses, undeclared variables and missing files have to take the error exit, valid text the normal one; accepted text is "
            "evaluated on every route and after a field change. Non-trivial: not a valid expression.")
    counts = {"quick": 500, "thorough": 12000}
    cap = {"quick": 300, "thorough": 3000}
    per = 60
    def setup(self, tier):
        self.dir = build.build("asan", ["parse"])
    def corpus_text(self, rng, nv):
        return exprgen.render(exprgen.expr(rng, nv, rng.choice([0, 1, 1, 2])), NAMES[:nv])
    def amp(self, rng, nv, fixed=False):
        def c():
            return rng.choice(["", "", "*(" + self.corpus_text(rng, nv) + ")", "*" + NAMES[rng.randrange(nv)], "*2"])
        def f():
            return rng.choice(FAMS) + "[" + ",".join(str(rng.randint(-2, 3)) for _ in range(rng.randint(1, 3))) + "]"
        def s():
            return "".join(rng.choice("+-") + f() + c() for _ in range(rng.randint(1, 4)))
        return f, c, s
    def gen(self, rng, i):
        ins = []
        for _ in range(self.per):
            nv = rng.choice([1, 2, 3, 6])
            mode = rng.choice(MODES)
            k = rng.random()
            hint = "any"
            if k < 0.06:
                t = ";".join(self.corpus_text(rng, nv) for _ in range(rng.randint(1, 3) if mode.startswith("file") else 1)) + (";" if mode.startswith("file") else "")
                hint = "ok"
            elif k < 0.50:
                t = ";\n".join(self.corpus_text(rng, nv) for _ in range(rng.randint(1, 3) if mode.startswith("file") else 1))
                t = mutate(rng, t, self.corpus_text(rng, nv))
            elif k < 0.58:       # token soup
                toks = ["(", ")", "+", "-", "*", "/", "^", "x", "2", "^(-", "3)", ";", "17", "(-", "y", "+-", "0"]
                t = "".join(rng.choice(toks) for _ in range(rng.choice([1, 2, 3, 4, 6, 10, 40])))
            elif k < 0.62:
                t = "".join(chr(rng.randrange(256)) for _ in range(rng.choice([0, 1, 2, 3, 10, 100, 1000])))
            elif k < 0.65:       # extremes
                n = rng.choice([10, 1000, 20000])
                t = rng.choice(["(" * n + "x" + ")" * n, "x" + "+x" * n, "9" * n, "a" * n, "(" * n, ")" * n, "-" * n, "x^" * n + "2", "(-" * n + "x" + ")" * n,
                                "x" + "/7" * min(n, 1000), "x" + ";x" * min(n, 1000), " " * n, "(x+1)*" * n + "x", "x^(-2)" + "^(-2)" * n, "1" + "/3" * min(n, 1000), "x^" + "9" * n])
            elif k < 0.74:       # undeclared variable, otherwise valid
                nv = rng.choice([1, 2, 3])
                bad = rng.choice(["q", "xx", "X", "unknown", "x_", "x2y", "2x", "w", "a" * 16, "a" * 17, "a" * 19, "x.", "x1", "zz"])
                e = exprgen.expr(rng, nv, rng.choice([0, 1, 2]))
                names = NAMES[:nv]
                names[rng.randrange(nv)] = bad
                t = exprgen.render(e, names)
                if mode.startswith("file"):
                    t = "".join(self.corpus_text(rng, nv) + ";\n" for _ in range(rng.randint(0, 2))) + t + ";"
                hint = "bad" if self.uses(e, names.index(bad)) else "any"
            elif k < 0.82:       # one parenthesis removed or added
                t = "(" + self.corpus_text(rng, nv) + ")"
                ps = [q for q, ch in enumerate(t) if ch in "()"]
                q = rng.choice(ps)
                t = t[:q] + t[q + 1:] if rng.random() < 0.5 else t[:q] + rng.choice("()") + t[q:]
            elif k < 0.83:
                t, mode, hint = None, rng.choice(["file", "filecheck", "ampfile", "tabfile"]), "bad"
            else:
                f, c, s = self.amp(rng, nv)
                if rng.random() < 0.5:
                    mode = rng.choice(["amp", "ampfile"])
                    t = "{" + s() + "}"
                    o = "{" + s() + "}"
                else:
                    mode = rng.choice(["tab", "tabfile"])
                    T = lambda: "{" + ",\n".join(l + "->" + rng.choice([s(), s(), s(), "0"]) for l in rng.sample(["F[1]", "Gg[2,-1]", "H1[0]", "F[7]"], rng.randint(1, 4))) + "}"
                    t, o = T(), T()
                if rng.random() < 0.85:
                    t = mutate(rng, t, o)
                elif "" not in (t,):
                    hint = "ok"
            if t is not None and len(t) > 200000:
                t = t[:200000]
            ins.append([mode, nv, t, hint])
        return {"ins": ins}
    def uses(self, x, v):
        k = x[0]
        if k == "E":
            return any(self.uses(t, v) for _, t in x[2])
        if k == "T":
            return any(self.uses(f, v) for _, f in x[1])
        if k == "F":
            return self.uses(x[1], v)
        if k == "p":
            return self.uses(x[1], v)
        return k == "v" and x[1] == v
    def run(self, case, d):
        want = []
        with open(d + "/list", "w") as f:
            for j, (mode, nv, t, hint) in enumerate(case["ins"]):
                if t is not None:
                    open(d + "/i%d" % j, "wb").write(t.encode("latin-1"))
                f.write("%s %d i%d\n" % (mode, nv, j))
                want.append(expect(mode, t, hint) if t is not None else hint)
        r = run_cmd([self.dir + "/parse", "-fuzz", "list", "out"], d, timeout=300,
                    env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=0", "UBSAN_OPTIONS": "exitcode=77:print_stacktrace=1"})
        lines = open(d + "/out").read().split("\n")[:-1] if os.path.exists(d + "/out") else []
        if r.timeout or lines[-1:] != ["end"] or len(lines) != len(want) + 1:
            raise Exception("driver: %s %s" % (r.rc, r.err[-500:]))
        nt, st = 0, {0: 0, 1: 0}
        for j, l in enumerate(lines[:-1]):
            s = int(l.split()[1])
            mode, nv, t, hint = case["ins"][j]
            err = open(d + "/i%d.err" % j, "rb").read().decode("latin-1")
            what = "%s, %d variables, input %r: " % (mode, nv, t[:300] if t is not None else "(no file)")
            if s == -14:
                raise Fail(what + "does not terminate", "hang")
            if s == 98:
                raise Fail(what + "accepted, but the evaluation routes disagree")
            if s not in (0, 1):
                k = err.find("ERROR: AddressSanitizer")
                k = err.find("runtime error") if k < 0 else k
                raise Fail(what + "status %d: %s" % (s, (err[max(0, k - 100):k + 900] if k >= 0 else err[-600:]).replace("\n", " / ")))
            if want[j] == "bad" and s != 1:
                raise Fail(what + "accepted")
            if want[j] == "ok" and s != 0:
                raise Fail(what + "refused: " + err[-300:].replace("\n", " / "))
            if s == 1 and not err.strip():
                raise Fail(what + "refused without a message")
            st[s] += 1
            nt += want[j] != "ok"
        return {"nontrivial": nt > 0, "labels": ["accepted"] * (st[0] > 0) + ["refused"] * (st[1] > 0), "n": len(want), "nt": nt}
    def shrink(self, case):
        ins = case["ins"]
        if len(ins) > 1:
            h = len(ins) // 2
            yield {"ins": ins[:h]}
            yield {"ins": ins[h:]}
            if len(ins) < 8:
                for i in range(len(ins)):
                    yield {"ins": ins[:i] + ins[i + 1:]}
        else:
            mode, nv, t, hint = ins[0]
            if t and hint == "any":
                L = len(t)
                for size in (L // 2, L // 4, L // 8, 4, 2, 1):
                    if size:
                        for a in range(0, L, size):
                            yield {"ins": [[mode, nv, t[:a] + t[a + size:], hint]]}

CHECK = C11()
