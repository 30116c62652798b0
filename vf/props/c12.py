import random
from fractions import Fraction
from ..unit import UnitCheck
from .. import exact
from ..core import Fail

NAMES = ["x", "y", "z", "X", "s12", "t", "m", "mt2", "a1", "a11", "A", "abc", "xx", "x1", "x2", "x10", "zZ", "q", "lam", "N", "z3x", "eps", "d", "W", "longvariable1"]

def rn_s(c):
    return "%d %d" % (c.numerator, c.denominator)

class C12(UnitCheck):
    id = "C12"
    rule = ("one evaluation = one polynomial or rational function (over the rationals or a field; dense, sparse, zero, constant, single term, coefficient +-1, huge coefficients; "
            "up to 3 attached univariate factors and a permuted variable order) printed in plain or Horner form for random variable names; the text is evaluated by an "
            "independent evaluator modulo a foreign prime, and by the library's parser modulo the field's prime. Non-trivial: at least two terms.")
    counts = {"quick": 4000, "thorough": 60000}
    cap = {"quick": 300, "thorough": 3000}
    batch = 100
    def coef(self, rng):
        k = rng.randrange(6)
        if k == 0:
            return Fraction(rng.choice([1, -1]))
        a, b = exact.rand_coef(rng, rng.choice([0, 0, 1, 2, 3]))
        return Fraction(a, b)
    def poly(self, rng, n, maxterms=8, zero=True):
        """{exponents: Fraction}"""
        k = rng.randrange(12)
        if k == 0 and zero:
            return {}
        if k == 1:
            return {(0,) * n: self.coef(rng)}
        if k == 2:
            return {tuple(rng.choice([0, 0, 1, 2, 9]) for _ in range(n)): self.coef(rng)}
        if k == 3:
            deg = {1: 8, 2: 4, 3: 3}.get(n, 2)
            t = exact.dense_poly(rng, n, rng.randint(1, deg), 0)
            return {tuple(e): Fraction(a, b) for a, b, e in t}
        d = {}
        hi = rng.choice([1, 2, 4, 9, 25])
        act = rng.sample(range(n), rng.randint(1, n))
        for _ in range(rng.randint(1, maxterms)):
            e = tuple(rng.choice([0, 1, rng.randint(0, hi)]) if i in act else 0 for i in range(n))
            d[e] = self.coef(rng)
        return d
    def rns(self, d, how="map"):
        return "%s %d %s" % (how, len(d), " ".join("%s %s" % (" ".join(map(str, e)), rn_s(c)) for e, c in d.items()))
    def ffs(self, d, p):
        return "%d %s" % (len(d), " ".join("%s %d" % (" ".join(map(str, e)), c) for e, c in d.items()))
    def gen_ops(self, rng, fl):
        ops = []
        p = self.primes[0]
        while len(ops) < self.batch:
            if rng.random() < 0.05:
                p = rng.choice(self.primes)
                ops.append(["prime %d" % p, "prime", p]); continue
            n = rng.choices([1, 2, 3, 4, 5], [3, 4, 3, 2, 1])[0]
            names = rng.sample(NAMES, n)
            x = [rng.randrange(1, p) for _ in range(n)]
            head = "rt %d %s %s " % (n, " ".join(names), " ".join(map(str, x)))
            L = lambda d: [[list(e), c.numerator, c.denominator] for e, c in d.items()]
            r = rng.random()
            if r < 0.45:
                num, den = self.poly(rng, n), (self.poly(rng, n, zero=False) if rng.random() < 0.85 else {})
                facs, fs = [], ""
                for _ in range(rng.choice([0, 0, 1, 2, 3])):
                    a, b = self.poly(rng, 1, 4, zero=False), self.poly(rng, 1, 4, zero=False)
                    k = rng.randrange(3)
                    if k == 0:
                        b = {}
                    elif k == 1:
                        a = {}
                    v = rng.randrange(n)
                    facs.append([v, L(a), L(b)])
                    fs += " %d %s %s" % (v, self.rns(a, rng.choice(["map", "mon"])), self.rns(b, "map"))
                order = None
                if rng.random() < 0.5:
                    order = list(range(n)); rng.shuffle(order)
                form = rng.choice(["str", "hor"])
                ops.append([head + "rf %s %d %s %s %s %d%s %s" % (form, n, " ".join(names), self.rns(num, rng.choice(["map", "mon"])), self.rns(den), len(facs), fs,
                            "order " + " ".join(map(str, order)) if order else "noorder"), "rf-" + form, names, x, L(num), L(den), facs, order])
            elif r < 0.7:
                d = self.poly(rng, n)
                form = rng.choice(["str", "hor", "hrn"])
                ops.append([head + "pol %s %d %s %s" % (form, n, self.rns(d, rng.choice(["map", "mon"])), " ".join(names)), "pol-" + form, names, x, L(d)])
            else:
                def F(d):
                    return {e: self.res(rng, p) for e in d}
                a = F(self.poly(rng, n))
                if rng.random() < 0.5:
                    b = F(self.poly(rng, n, zero=False)) if rng.random() < 0.85 else {}
                    ops.append([head + "rf ff %d %s %s %s" % (n, " ".join(names), self.ffs(a, p), self.ffs(b, p)), "ff-rf", names, x, [[list(e), c] for e, c in a.items()], [[list(e), c] for e, c in b.items()], p])
                else:
                    form = rng.choice(["str", "hor"])
                    ops.append([head + "pff %s %d %s %s" % (form, n, self.ffs(a, p), " ".join(names)), "ff-" + form, names, x, [[list(e), c] for e, c in a.items()], [[[0] * n, 1]], p])
        return ops
    def res(self, rng, p):
        return rng.choice([1, p - 1, rng.randrange(1, 20), rng.randrange(1, p), rng.randrange(1, p)])
    def op_nontrivial(self, op):
        return len(op[4]) > 1
    def value(self, op, pt, q):
        def P(terms, pt):
            s = 0
            for e, a, b in terms:
                m = a * exact.inv(b, q) % q
                for v, k in zip(pt, e):
                    m = m * pow(v, k, q) % q
                s += m
            return s % q
        if op[1].startswith("pol"):
            return P(op[4], pt)
        num, den, facs, order = op[4:]
        # the variable with internal position i is the caller's variable order[i]
        ptn = [pt[o] for o in order] if order else pt
        r = P(num, ptn)
        if den:
            r = r * exact.inv(P(den, ptn), q) % q
        for v, a, b in facs:
            if a:
                r = r * P(a, [pt[v]]) % q
            if b:
                r = r * exact.inv(P(b, [pt[v]]), q) % q
        return r
    def verify(self, op, out, ctx):
        val, text = out.split(" ", 1) if " " in out else (out, "")
        val, names, x = int(val), op[2], op[3]
        try:
            ev = exact.ExprEval(text)
            if op[1].startswith("ff"):
                p = op[6]
                if p != ctx["p"]:
                    return None
                def P(t):
                    s = 0
                    for e, c in t:
                        m = c
                        for v, k in zip(x, e):
                            m = m * pow(v, k, p) % p
                        s += m
                    return s % p
                try:
                    want = P(op[4]) * (exact.inv(P(op[5]), p) if op[5] else 1) % p
                except ZeroDivisionError:
                    return None
                got = ev.value(dict(zip(names, x)), p)
                if got != want:
                    return "the text evaluates to a different value"
                return None if val == want else "read back by the parser it evaluates to a different value"
            rng = random.Random(op[0])
            q = exact.Q2
            pt = [rng.randrange(2, q) for _ in names]
            if ev.value(dict(zip(names, pt)), q) != self.value(op, pt, q):
                return "the text evaluates to a different value"
            try:
                want = self.value(op, x, ctx["p"])
            except ZeroDivisionError:
                return None
            return None if val == want else "read back by the parser it evaluates to a different value"
        except exact.EvalError as e:
            return "not a valid expression (%s)" % e
        except ZeroDivisionError:
            return "the text has a vanishing denominator"

CHECK = C12()
