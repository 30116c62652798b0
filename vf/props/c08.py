from ..unit import UnitCheck
from .. import fieldgen
from ..fieldgen import elem, nonzero

class C08(UnitCheck):
    id = "C08"
    rule = ("one evaluation = one operation on field elements (constructor from integers of all widths, big integers, decimal strings, binary "
            "and compound operators with equal and with distinct operands, negation, powers with exponents of all integer types, comparisons) "
            "in one of the library's prime fields, with prime changes in between, on one of the two back ends, compared with exact integers; operands "
            "are biased to 0, 1, p-1, p/2, powers of two, small fractions. Non-trivial: every operation except prime changes; distinct operations are counted.")
    counts = {"quick": 2600, "thorough": 60000}
    cap = {"quick": 200, "thorough": 2500}
    def setup(self, tier):
        super().setup(tier)
    def gen_ops(self, rng, fl):
        ops = [["primelist", "list"]]
        p = None
        for _ in range(self.batch):
            if p is None or rng.random() < 0.02:
                p = rng.choice(self.primes) if rng.random() < 0.8 else self.primes[0]
                ops.append(["prime %d" % p, "prime", p])
            k = rng.randrange(10)
            if k < 4:
                op = rng.choice(["+", "-", "*", "/", "+=", "-=", "*=", "/=", "<", "<=", ">", ">=", "==", "!="])
                a, b = elem(rng, p), elem(rng, p)
                r = rng.random()
                if r < 0.1:
                    b = a
                elif r < 0.2:
                    b = (p - a) % p
                ops.append(["fb %s %d %d" % (op, a, b), "bin", op, a, b])
            elif k == 4:
                op, a = rng.choice(["+=", "-=", "*=", "/="]), elem(rng, p)
                ops.append(["fs %s %d" % (op, a), "self", op, a])
            elif k == 5:
                op, a = rng.choice(["neg", "pos", "not", "out", "++x", "--x", "x++", "x--"]), elem(rng, p)
                ops.append(["fu %s %d" % (op, a), "un", op, a])
            elif k < 8:
                t = rng.choice(["i32", "u32", "i64", "u64", "ff"])
                a = elem(rng, p)
                e = self.exponent(rng, t, p)
                if a == 0 and (e < 0 or (t == "ff" and e >= p // 2)):
                    a = nonzero(rng, p)
                ops.append(["fp %s %s %d %d" % (t, rng.choice(["free", "member"]), a, e), "pow", t, a, e])
            else:
                t = rng.choice(["i16", "i32", "u32", "i64", "u64", "z", "s", "sr", "as"])
                v = self.value(rng, t, p)
                w = str(v)
                if t == "s" and rng.random() < 0.2:
                    w = "0" * rng.randrange(1, 30) + w
                if t == "sr":
                    w = rng.choice(["x", "y1", "abc"]) + " " + w
                ops.append(["ff %s %s" % (t, w), "ctor", t, v])
        return ops
    def exponent(self, rng, t, p):
        k = rng.randrange(8)
        if t == "ff":
            return elem(rng, p)
        lo, hi = {"i32": (-2 ** 31, 2 ** 31 - 1), "u32": (0, 2 ** 32 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "u64": (0, 2 ** 64 - 1)}[t]
        if k < 3:
            return max(lo, rng.randint(-20, 60))
        if k == 3:
            return rng.choice([lo, hi, hi - 1, lo + 1])
        if k == 4:
            e = rng.choice([p - 1, p, p - 2, (p - 1) // 2, 1 - p])
            return e if lo <= e <= hi else rng.randint(lo, hi)
        if k == 5:
            e = rng.choice([1, -1]) * (1 << rng.randrange(0, 64)) + rng.randint(-1, 1)
            return e if lo <= e <= hi else 2
        return rng.randint(lo, hi)
    def value(self, rng, t, p):
        rngs = {"i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "u32": (0, 2 ** 32 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "as": (-2 ** 63, 2 ** 63 - 1), "u64": (0, 2 ** 64 - 1), "sr": (0, 2 ** 64 - 1)}
        if t in rngs:
            lo, hi = rngs[t]
            k = rng.randrange(6)
            if k == 0:
                v = rng.choice([lo, hi, 0, 1, -1, lo + 1, hi - 1])
            elif k == 1:
                v = rng.choice([p, -p, p - 1, p + 1, 1 - p, -1 - p, 2 * p, 2 * p - 1])
            elif k == 2:
                v = rng.randint(-50, 50)
            else:
                v = rng.randint(lo, hi)
            return min(hi, max(lo, v))
        k = rng.randrange(7)
        if k == 0:
            v = rng.choice([0, 1, p, 2 * p, p * p, p - 1, p + 1, 2 ** 64, 2 ** 64 - 1, 2 ** 63, 10 ** 18, 10 ** 18 - 1, 10 ** 19, 10 ** 36])
        elif k == 1:
            v = p * rng.randrange(10 ** rng.randrange(1, 40)) + rng.randint(0, 3)
        elif k == 2:
            v = rng.randrange(1000)
        elif k == 3:
            v = int(str(rng.randrange(1, 10)) + "0" * rng.randrange(0, 60)) + rng.randrange(0, 5)
        else:
            v = rng.randrange(10 ** rng.randrange(1, 120))
        if t == "z" and rng.random() < 0.5:
            v = -v
        return v
    def verify(self, op, out, ctx):
        p = ctx["p"]
        k = op[1]
        if k == "list":
            ps = [int(x) for x in out.split()]
            bad = [q for q in ps if q >= 2 ** 63 or not fieldgen.is_prime(q)]
            return "not a prime below 2^63: %s" % bad if bad else ("repeated prime" if len(set(ps)) != len(ps) else None)
        if k == "bin":
            o, a, b = op[2:]
            if o in ("<", "<=", ">", ">=", "==", "!="):
                want = str(int({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[o]))
            else:
                v = {"+": a + b, "-": a - b, "*": a * b}[o[0]] % p if o[0] != "/" else (a * pow(b, -1, p) % p if b else 0)
                want = "%d %d" % (v, v) if len(o) == 2 else str(v)
            want += " | %d" % b
        elif k == "self":
            o, a = op[2:]
            want = str({"+": 2 * a % p, "-": 0, "*": a * a % p, "/": 1 if a else 0}[o[0]])
        elif k == "un":
            o, a = op[2:]
            u, v = (a + 1) % p, (a - 1) % p
            want = {"neg": str(-a % p), "pos": str(a), "not": str(int(a == 0)), "out": str(a), "++x": "%d %d" % (u, u), "--x": "%d %d" % (v, v),
                    "x++": "%d %d" % (a, u), "x--": "%d %d" % (a, v)}[o]
        elif k == "pow":
            t, a, e = op[2:]
            want = "%d | %d" % (pow(a, e, p), a)
        else:
            t, v = op[2:]
            want = str(v % p)
        return None if out == want else "expected %s modulo %d" % (want, p)

CHECK = C08()
