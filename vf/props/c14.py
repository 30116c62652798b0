from fractions import Fraction
from math import comb, gcd
from ..unit import UnitCheck
from ..fieldgen import elem, nonzero

# ---- exact polynomials over the field: dict exps -> residue -----------------------------------
def padd(a, b, p, s=1):
    r = dict(a)
    for e, c in b.items():
        r[e] = (r.get(e, 0) + s * c) % p
    return {e: c for e, c in r.items() if c}
def pmul(a, b, p):
    r = {}
    for ea, ca in a.items():
        for eb, cb in b.items():
            e = tuple(x + y for x, y in zip(ea, eb))
            r[e] = (r.get(e, 0) + ca * cb) % p
    return {e: c for e, c in r.items() if c}
def pscale(a, k, p):
    return {e: c * k % p for e, c in a.items() if c * k % p}
def pshift(a, s, p):
    out = {}
    for e, c in a.items():
        terms = {(): c}
        for x, sh in zip(e, s):
            nt = {}
            for t, v in terms.items():
                for j in range(x + 1):
                    w = v * comb(x, j) * pow(sh, x - j, p) % p
                    if w:
                        nt[t + (j,)] = (nt.get(t + (j,), 0) + w) % p
            terms = nt
        for t, v in terms.items():
            out[t] = (out.get(t, 0) + v) % p
    return {e: c for e, c in out.items() if c}
def peval(a, x, p):
    s = 0
    for e, c in a.items():
        m = c
        for v, k in zip(x, e):
            m = m * pow(v, k, p) % p
        s += m
    return s % p

def txt(poly):
    """[[exps, coef]] -> harness text"""
    return "%d" % len(poly) + "".join(" " + " ".join(map(str, e)) + " %d" % c for e, c in poly)
def dct(poly, p):
    r = {}
    for e, c in poly:
        if c % p:
            r[tuple(e)] = c % p
    return r
def rmap(s):
    """'k ; e.. c ; ...' -> dict without zero coefficients; None when a monomial is repeated"""
    w = s.split(";")
    r, seen = {}, set()
    for t in w[1:]:
        v = [int(x) for x in t.split()]
        e = tuple(v[:-1])
        if e in seen:
            return None
        seen.add(e)
        if v[-1]:
            r[e] = v[-1]
    return r

def rnd_poly(rng, n, p, nt=None, maxdeg=None, zeros=True):
    nt = rng.choice([0, 1, 1, 2, 3, 5, 8, 12]) if nt is None else nt
    maxdeg = maxdeg or rng.choice([1, 2, 3, 5, 9])
    d = {}
    for _ in range(nt):
        e = tuple(rng.randint(0, maxdeg) if rng.random() < 0.7 else 0 for _ in range(n))
        d[e] = elem(rng, p) if zeros and rng.random() < 0.1 else nonzero(rng, p)
    return [[list(e), c] for e, c in d.items()]

def udrop(c):
    c = list(c)
    while c and c[-1] == 0:
        c.pop()
    return c
def uadd(a, b, p, s=1):
    n = max(len(a), len(b))
    return udrop([((a[i] if i < len(a) else 0) + s * (b[i] if i < len(b) else 0)) % p for i in range(n)])
def umul(a, b, p):
    r = [0] * (len(a) + len(b))
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = (r[i + j] + x * y) % p
    return udrop(r)
def udivmod(a, b, p):
    a, b = udrop(a), udrop(b)
    q = [0] * max(0, len(a) - len(b) + 1)
    iv = pow(b[-1], -1, p)
    while len(a) >= len(b):
        k = a[-1] * iv % p
        q[len(a) - len(b)] = k
        for i, c in enumerate(b):
            a[len(a) - len(b) + i] = (a[len(a) - len(b) + i] - k * c) % p
        a = udrop(a)
    return udrop(q), a
def umonic(a, p):
    a = udrop(a)
    return [c * pow(a[-1], -1, p) % p for c in a] if a else a

class C14(UnitCheck):
    id = "C14"
    rule = ("one evaluation = one operation on rational numbers, monomials, sparse polynomials over a field or over Q (1-5 variables, empty, single, "
            "cancelling, more than 50 terms so that the cached Horner evaluation is used, histories of evaluation and change), or dense univariate "
            "polynomials (leading zeros, constants, zero), compared with exact arithmetic, operands checked for changes. Non-trivial: all; distinct operations are counted.")
    counts = {"quick": 2000, "thorough": 50000}
    cap = {"quick": 240, "thorough": 2800}
    batch = 150
    def rn(self, rng):
        k = rng.randrange(5)
        n = rng.choice([0, 1, -1, 2, 6]) if k == 0 else rng.randint(-10 ** rng.choice([1, 2, 9, 40]), 10 ** rng.choice([1, 2, 9, 40]))
        d = rng.choice([1, 1, 2, 3, 6, rng.randint(1, 10 ** rng.choice([1, 9, 30]))])
        if rng.random() < 0.2:
            d = -d
        if rng.random() < 0.3:
            m = rng.randint(2, 60); n, d = n * m, d * m
        return n, d
    def gen_ops(self, rng, fl):
        ops, p = [], self.primes[0]
        for _ in range(self.batch):
            if rng.random() < 0.03:
                p = rng.choice(self.primes)
                ops.append(["prime %d" % p, "prime", p])
            k = rng.randrange(10)
            if k < 2:
                o = rng.choice(["new", "neg", "*", "*", "*=", "+=", "-=", "==", "gcd", "self*=", "self+=", "self-="])
                a, b = self.rn(rng), self.rn(rng)
                if rng.random() < 0.2:
                    b = (a[0] * 3, a[1] * 3) if rng.random() < 0.5 else (-a[0], a[1])
                ops.append(["rn %s %d %d %d %d" % ((o,) + a + b), "rn", o, list(a), list(b)])
            elif k == 2:
                n = rng.randint(1, 5)
                mk = lambda: [[rng.choice([0, 0, 1, 2, 3, 7]) for _ in range(n)], list(self.rn(rng))]
                a, b = mk(), mk()
                if rng.random() < 0.4:     # same degree
                    b[0] = rng.sample(a[0], n)
                o = rng.choice(["*", "<", ">", "<", ">", "neg"])
                t = lambda m: " ".join(map(str, m[0] + m[1]))
                ops.append(["mon %s %d %s %s" % (o, n, t(a), t(b)), "mon", o, a, b])
            elif k < 6:
                ops.append(self.gen_pff(rng, p))
            elif k == 6:
                n = rng.randint(1, 4)
                d = {}
                for _ in range(rng.choice([0, 1, 2, 4, 9])):
                    while True:
                        c = self.rn(rng)
                        if rng.random() < 0.1:
                            c = (c[0] * p, c[1])
                        if c[1] % p:
                            break
                    d[tuple(rng.randint(0, 4) for _ in range(n))] = c
                t = "%d" % len(d) + "".join(" " + " ".join(map(str, e)) + " %d %d" % c for e, c in d.items())
                o = rng.choice(["conv", "conv", "*=", "sort", "zero", "mono", "clear"])
                c = self.rn(rng)
                ops.append(["pol %s %d %s %s %d %d" % (o, n, rng.choice(["map", "mon"]), t, c[0], c[1]), "pol", o, n, [[list(e), list(v)] for e, v in d.items()], list(c)])
            else:
                ops.append(self.gen_up(rng, p))
        return ops
    def gen_pff(self, rng, p):
        n = rng.randint(1, 5)
        a = rnd_poly(rng, n, p)
        o = rng.choice(["+", "-", "*", "+=", "-=", "self+=", "scale*", "scale/", "scale*=", "scale/=", "calc", "calc", "calc1", "calc1", "hom", "mul", "shift", "shift", "zero", "rmz", "deg"])
        if o in ("+", "-", "*", "+=", "-="):
            b = rnd_poly(rng, n, p)
            if rng.random() < 0.4:      # overlapping supports and cancellations
                b = [[e, (c if rng.random() < 0.5 else (-c) % p) if rng.random() < 0.7 else nonzero(rng, p)] for e, c in a] + [t for t in b if t[0] not in [x[0] for x in a]]
            if o == "*":
                a, b = a[:8], b[:8]
            return ["pff %s %d %s %s" % (o, n, txt(a), txt(b)), "pff", o, n, a, b]
        if o.startswith("scale"):
            c = nonzero(rng, p) if "/" in o else elem(rng, p)
            return ["pff %s %d %s %d" % (o, n, txt(a), c), "pff", o, n, a, c]
        if o == "calc":
            x = [elem(rng, p) for _ in range(n)]
            return ["pff calc %d %s %s" % (n, txt(a), " ".join(map(str, x))), "pff", o, n, a, x]
        if o == "calc1":
            n = rng.randint(2, 4)
            big = rng.random() < 0.5
            a = rnd_poly(rng, n, p, rng.randint(45, 120) if big else None, rng.choice([3, 4, 8]) if big else None)
            h = []
            for _ in range(rng.randint(1, 6)):
                w = rng.choice(["e", "e", "e", "+=", "-=", "*=", "/=", "cp"])
                if w == "e":
                    h.append([w, [elem(rng, p) for _ in range(n - 1)]])
                elif w in ("+=", "-="):
                    r = rng.random()
                    b = rnd_poly(rng, n, p, rng.choice([1, 3, 60]), 4)
                    if r < 0.3:
                        b = rng.sample(a, len(a) // 2) + [t for t in b if t[0] not in [x[0] for x in a]]
                    h.append([w, b])
                elif w == "cp":
                    h.append([w, None])
                else:
                    h.append([w, nonzero(rng, p)])
            h.append(["e", [elem(rng, p) for _ in range(n - 1)]])
            t = " ".join(w + " " + ("" if v is None else " ".join(map(str, v)) if w == "e" else txt(v) if w in ("+=", "-=") else str(v)) for w, v in h)
            return ["pff calc1 %d %s %d %s" % (n, txt(a), len(h), t), "pff", o, n, a, h]
        if o == "hom":
            d = max([sum(e) for e, c in a] + [0]) + rng.choice([0, 0, 1, 3])
            return ["pff hom %d %s %d" % (n, txt(a), d), "pff", o, n, a, d]
        if o == "mul":
            z = rng.randint(1, n)
            return ["pff mul %d %s %d" % (n, txt(a), z), "pff", o, n, a, z]
        if o == "shift":
            n = rng.randint(1, 4)
            a = rnd_poly(rng, n, p, None, rng.choice([1, 2, 4]))
            if rng.random() < 0.1 and p > 10 ** 6:
                a = a[:3]
                for t in a:
                    if rng.random() < 0.5:
                        t[0] = list(t[0])
                        t[0][rng.randrange(n)] = rng.randint(36, 180 if n == 1 else 140 if n == 2 else 60)
                a = [[list(e), c] for e, c in {tuple(e): c for e, c in a}.items()]
            x = [elem(rng, p) if rng.random() < 0.7 else 0 for _ in range(n)]
            return ["pff shift %d %s %s" % (n, txt(a), " ".join(map(str, x))), "pff", o, n, a, x]
        return ["pff %s %d %s" % (o, n, txt(a)), "pff", o, n, a, None]
    def gen_up(self, rng, p):
        def up(nz=False, maxl=9):
            l = rng.randint(1, maxl)
            c = [elem(rng, p) if rng.random() < 0.8 else 0 for _ in range(l)]
            if rng.random() < 0.25:
                c += [0] * rng.randint(1, 3)
            if rng.random() < 0.05:
                c = [0] * rng.randint(1, 3)
            if nz and not any(c):
                c[rng.randrange(len(c))] = nonzero(rng, p)
            return c
        o = rng.choice(["+", "-", "*", "+=", "-=", "*=", "/", "%", "divmod", "divmod", "gcd", "gcd", "self*=", "self+=", "self-=", "s*", "s/", "s*=", "s/=", "deg", "rev", "shrink"])
        t = lambda c: "%d %s" % (len(c), " ".join(map(str, c)))
        a = up()
        if o in ("+", "-", "*", "+=", "-=", "*=", "/", "%", "divmod", "gcd"):
            b = up(nz=o in ("/", "%", "divmod"))
            if rng.random() < 0.3 and o in ("+", "-", "+=", "-="):
                b = [x if rng.random() < 0.5 else (-x) % p for x in a]
            if rng.random() < 0.4 and o in ("/", "%", "divmod", "gcd"):
                g = up(nz=True, maxl=4)
                a = umul(a, g, p) or [0]
                b = umul(b, g, p) or [0]
                if o != "gcd" and rng.random() < 0.5:
                    a = umul(a, b, p) or [0]
            if o == "gcd" and not any(a) and not any(b):
                b = [1]
            return ["up %s %s %s" % (o, t(a), t(b)), "up", o, a, b]
        if o[0] == "s" and o[1] in "*/":
            c = nonzero(rng, p) if "/" in o else elem(rng, p)
            return ["up %s %s %d" % (o, t(a), c), "up", o, a, c]
        return ["up %s %s" % (o, t(a)), "up", o, a, None]

    def verify(self, op, out, ctx):
        p = ctx["p"]
        return getattr(self, "v_" + op[1])(op, out, p)
    def v_rn(self, op, out, p):
        o, a, b = op[2:]
        A, B = Fraction(*a), Fraction(*b)
        f = lambda x: "%d %d" % (x.numerator, x.denominator)
        if o == "new": want = f(A)
        elif o == "neg": want = f(-A) + " | " + f(A)
        elif o == "self*=": want = f(A * A)
        elif o == "self+=": want = f(A + A)
        elif o == "self-=": want = "0 1"
        else:
            if o == "gcd":
                x, y = A.numerator * B.denominator, B.numerator * A.denominator
                r = Fraction(gcd(x, y), A.denominator * B.denominator)
            else:
                r = {"*": A * B, "*=": A * B, "+=": A + B, "-=": A - B, "==": None}[o]
            want = (str(int(A == B)) if o == "==" else f(r)) + " | " + f(r if o.endswith("=") and o != "==" else A) + " | " + f(B)
        return None if out == want else "expected %s" % want
    def v_mon(self, op, out, p):
        o, a, b = op[2:]
        A, B = Fraction(*a[1]), Fraction(*b[1])
        f = lambda e, x: " ".join(map(str, e)) + " %d %d" % (x.numerator, x.denominator)
        if o == "neg":
            want = f(a[0], -A) + " | " + f(a[0], A)
        else:
            if o == "*":
                r = f([x + y for x, y in zip(a[0], b[0])], A * B)
            else:
                da, db = sum(a[0]), sum(b[0])
                lt, gt = da < db or (da == db and a[0] > b[0]), da > db or (da == db and a[0] < b[0])
                r = str(int(lt if o == "<" else gt))
            want = r + " | " + f(a[0], A) + " | " + f(b[0], B)
        return None if out == want else "expected %s" % want
    def v_pff(self, op, out, p):
        o, n, a, b = op[2:]
        A = dct(a, p)
        parts = [x.strip() for x in out.split("|")]
        if o == "calc":
            w = peval(A, b, p)
            return None if int(parts[0]) == w and rmap(parts[1]) == A else "expected %d" % w
        if o == "calc1":
            res = []
            for w, v in b:
                if w == "e": res.append(peval(A, [1] + v, p))
                elif w == "+=": A = padd(A, dct(v, p), p)
                elif w == "-=": A = padd(A, dct(v, p), p, -1)
                elif w == "*=": A = pscale(A, v, p)
                elif w == "/=": A = pscale(A, pow(v, -1, p), p)
            return None if out.split() == [str(x) for x in res] else "expected %s" % res
        if o == "zero":
            return None if int(out) == int(not A) or len(a) > 1 else "expected %d" % (not A)
        if o == "deg":
            if not a:
                return None
            M, m = [[int(x) for x in t.split()] for t in out.split(";")]
            degs = [sum(e) for e, c in a]
            return None if M in [e for e, c in a] and m in [e for e, c in a] and sum(M) == max(degs) and sum(m) == min(degs) else "expected degrees %d and %d" % (max(degs), min(degs))
        if o == "rmz":
            k = int(out.split()[0])
            return None if rmap(out) == A and k == len(A) else "expected %s" % A
        if o == "self+=":
            return None if rmap(out) == pscale(A, 2, p) else "expected %s" % pscale(A, 2, p)
        if o == "hom":
            want = {(b - sum(e),) + e: c for e, c in A.items()}
            return None if rmap(parts[0]) == want else "expected %s" % want
        if o in ("+", "-", "*", "+=", "-="):
            B = dct(b, p)
            R = pmul(A, B, p) if o == "*" else padd(A, B, p, 1 if o[0] == "+" else -1)
        elif o.startswith("scale"):
            B = None
            R = pscale(A, b if "*" in o else pow(b, -1, p), p)
        elif o == "mul":
            B = None
            R = {tuple(x + (i == b - 1) for i, x in enumerate(e)): c for e, c in A.items()}
        else:
            B = None
            R = pshift(A, b, p)
        r, nn = parts[0].split("/")
        if rmap(r) != R or int(nn) != n:
            return "expected %s in %d variables" % (R, n)
        if rmap(parts[1]) != (R if o in ("+=", "-=", "scale*=", "scale/=") else A):
            return "the first operand changed"
        if B is not None and rmap(parts[2]) != B:
            return "the second operand changed"
        return None
    def v_pol(self, op, out, p):
        o, n, terms, c = op[2:]
        T = {tuple(e): Fraction(*v) for e, v in terms}
        def rp(s):
            w = s.split(";")
            r = {}
            for t in w[1:]:
                v = [int(x) for x in t.split()]
                if tuple(v[:-2]) in r:
                    return None
                r[tuple(v[:-2])] = Fraction(v[-2], v[-1])
            return r
        nz = lambda d: {e: v for e, v in (d or {}).items() if v}
        if o == "zero":
            return None if int(out) == int(not nz(T)) or len(T) > 1 else "expected %d" % (not nz(T))
        if o == "clear":
            return None if out == "0 1" else "expected an empty polynomial"
        if o == "conv":
            a, b = out.split("|")
            R = {e: v.numerator * pow(v.denominator, -1, p) % p for e, v in T.items()}
            R = {e: v for e, v in R.items() if v}
            m, nn = a.split("/")
            if rmap(m) != R or (T and int(nn) != n):
                return "expected %s" % R
            return None if nz(rp(b)) == nz(T) else "the operand changed"
        if o == "mono":
            w = [x.split() for x in out.split(";")[1:]]
            got = {}
            for i in range(0, len(w), 2):
                v = [int(x) for x in w[i + 1]]
                got[tuple(v[:-2])] = Fraction(v[-2], v[-1])
            return None if got == T else "expected the single terms of %s" % T
        if o == "*=":
            C = Fraction(*c)
            return None if nz(rp(out)) == nz({e: v * C for e, v in T.items()}) else "expected the terms times %s" % C
        if o == "sort":
            if rp(out) != T:
                return "the terms changed"
            es = [tuple(int(x) for x in t.split())[:-2] for t in out.split(";")[1:]]
            key = [e[::-1] for e in es]
            return None if key == sorted(key) else "not sorted"
    def v_up(self, op, out, p):
        o, a, b = op[2:]
        parts = [x.strip() for x in out.split("|")]
        g = lambda s: udrop([int(x) for x in s.split()])
        A = udrop(a)
        if o == "deg":
            w = max(0, len(A) - 1)
            return None if int(out) == w else "expected %d" % w
        if o in ("rev", "shrink"):
            w = A[::-1] if o == "rev" else A
            raw = [int(x) for x in out.split()]
            return None if g(out) == udrop(w) and (raw == w or not A) else "expected %s" % w
        if o == "divmod":
            q, r = udivmod(a, b, p)
            return None if g(parts[0]) == q and g(parts[1]) == r else "expected %s and %s" % (q, r)
        if o in ("self*=", "self+=", "self-="):
            R = {"self*=": umul(A, A, p), "self+=": uadd(A, A, p), "self-=": []}[o]
            return None if g(out) == R else "expected %s" % R
        if o[0] == "s":
            R = udrop([x * (b if "*" in o else pow(b, -1, p)) % p for x in A])
            return None if g(parts[0]) == R and g(parts[1]) == A else "expected %s" % R
        if o == "gcd":
            x, y = A, udrop(b)
            while y:
                x, y = y, udivmod(x, y, p)[1]
            got = g(parts[0])
            if umonic(got, p) != umonic(x, p):
                return "expected a multiple of %s" % umonic(x, p)
        else:
            B = udrop(b)
            R = {"+": lambda: uadd(A, B, p), "-": lambda: uadd(A, B, p, -1), "*": lambda: umul(A, B, p), "/": lambda: udivmod(A, B, p)[0], "%": lambda: udivmod(A, B, p)[1]}[o[0]]()
            if g(parts[0]) != R:
                return "expected %s" % R
        return None if g(parts[1]) == A and g(parts[2]) == udrop(b) else "an operand changed"

CHECK = C14()
