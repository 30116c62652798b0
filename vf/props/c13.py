from math import gcd, isqrt
from ..unit import UnitCheck

class C13(UnitCheck):
    id = "C13"
    rule = ("one evaluation = one Chinese-remainder combination of two residues for coprime moduli of 1-800 bits (primes of the library, products "
            "of them, arbitrary coprime numbers; residues include 0 and m-1), or one rational reconstruction (classical or maximal-quotient) of the residue of a "
            "fraction inside the guaranteed bound, at the bound, outside of it, or of a random residue. Oracle: exact integers. Non-trivial: all but residues of integers below 10.")
    counts = {"quick": 5000, "thorough": 100000}
    cap = {"quick": 200, "thorough": 2500}
    flavours = ["default"]
    batch = 300
    def modulus(self, rng):
        k = rng.randrange(7)
        if k < 2:
            return rng.choice(self.primes)
        if k < 5:
            m = 1
            for q in rng.sample(self.primes, rng.randint(1, 12)):
                m *= q
            return m
        if k == 5:
            return rng.choice([2, 3, 5, 7, 101, 997, 65537, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 64, 10 ** 20, 3 ** 50])
        return rng.randrange(2, 1 << rng.randrange(2, 400))
    def gen_ops(self, rng, fl):
        ops = []
        def edge(m):
            return rng.choice([0, 1, m - 1, m // 2, rng.randrange(m), rng.randrange(m), rng.randrange(m)]) % m
        while len(ops) < self.batch:
            if rng.random() < 0.35:
                m1, m2 = self.modulus(rng), self.modulus(rng)
                if gcd(m1, m2) != 1:
                    continue
                a, b = edge(m1), edge(m2)
                if rng.random() < 0.3:       # residues of a small number
                    x = rng.randrange(1 << rng.randrange(1, 60)); a, b = x % m1, x % m2
                ops.append(["crt %d %d %d %d" % (a, m1, b, m2), "crt", a, m1, b, m2])
                continue
            f = rng.choice(["rr", "rr", "mqrr"])
            m = self.modulus(rng)
            k = rng.randrange(6)
            if f == "rr":
                B = isqrt(m // 2)
            else:
                B = isqrt(isqrt(m))
            if k == 0:
                ops.append(["%s %d %d" % (f, rng.randrange(m), m), f, None, None, m]); ops[-1][2:4] = [int(ops[-1][0].split()[1]), None]
                continue
            hi = max(1, B)
            if k == 1:
                n, d = rng.choice([hi, hi - 1, 1, 0, rng.randint(0, hi)]), rng.choice([hi, hi - 1, 1, rng.randint(1, hi)])
            elif k == 2:
                n, d = rng.randint(0, max(1, hi >> rng.randrange(0, 200))), rng.randint(1, max(1, hi >> rng.randrange(0, 200)))
            elif k == 3:   # unbalanced, partly outside the guaranteed region
                e = rng.randrange(0, m.bit_length())
                n, d = rng.randint(0, 1 << e), rng.randint(1, 1 << max(0, m.bit_length() - e - rng.randrange(0, 30)))
            else:
                n, d = rng.randint(0, hi), rng.randint(1, hi)
            n = min(n, m - 1) if n else 0
            d = max(1, d)
            if rng.random() < 0.45:
                n = -n
            if gcd(d, m) != 1:
                continue
            g = gcd(n, d)
            n, d = n // g, d // g
            r = n * pow(d, -1, m) % m
            ops.append(["%s %d %d" % (f, r, m), f, r, [n, d], m])
        return ops
    def op_nontrivial(self, op):
        return not (op[1] != "crt" and 0 <= op[2] < 10)
    def verify(self, op, out, ctx):
        w = [int(x) for x in out.split()]
        if op[1] == "crt":
            a, m1, b, m2 = op[2:]
            m = m1 * m2
            x = (a + m1 * ((b - a) * pow(m1, -1, m2) % m2)) % m
            return None if w == [x, m] else "expected %d modulo %d" % (x, m)
        r, fr, m = op[2:]
        ok, n, d = w
        if d <= 0 or gcd(n, d) != 1:
            return "not in lowest terms with positive denominator"
        if ok not in (0, 1):
            return "no answer"
        if ok and (n - r * d) % m != 0:
            return "reported as found but does not reduce to the residue"
        if fr:
            a, b = fr
            if op[1] == "rr":
                must = 2 * max(abs(a), b) ** 2 < m
            else:
                mx, T = max(abs(a), b), 1024 * m.bit_length()
                must = m > 6 * mx ** 3 and m // (3 * max(1, abs(a)) * b) > T + 2 if a else m > T
            if must and [ok, n, d] != [1, a, b]:
                return "expected 1 %d %d" % (a, b)
        if op[1] == "rr" and ok and (2 * n * n > m or 2 * d * d > m):
            return "found a fraction outside the unique region"
        return None

CHECK = C13()
