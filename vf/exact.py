"""Independent exact arithmetic used as oracle: rational functions given as products of
sparse polynomials, and a small evaluator for printed expressions, both modulo a prime that
the library does not use (Schwartz-Zippel identity testing at random points)."""
import math, random
from fractions import Fraction

# the first prime numbers the library uses
PRIMES = [9223372036854775783, 9223372036854775643, 9223372036854775549]
Q1 = (1 << 61) - 1
Q2 = (1 << 89) - 1
Q3 = (1 << 127) - 1

class EvalError(Exception):
    pass

def inv(a, q):
    a %= q
    if a == 0:
        raise ZeroDivisionError
    return pow(a, -1, q)

# ---- functions: {"facs": [[exp, [[num, den, [e...]], ...]], ...]} -----------------------
def poly_eval(terms, pt, q):
    s = 0
    for num, den, es in terms:
        m = num * inv(den, q) % q
        for x, e in zip(pt, es):
            if e:
                m = m * pow(x, e, q) % q
        s += m
    return s % q

def func_eval(f, pt, q):
    r = 1
    for exp, terms in f["facs"]:
        v = poly_eval(terms, pt, q)
        if exp < 0:
            v = inv(v, q)
        r = r * pow(v, abs(exp), q) % q
    return r

def poly_mul(a, b):
    r = {}
    for ea, ca in a.items():
        for eb, cb in b.items():
            e = tuple(x + y for x, y in zip(ea, eb))
            r[e] = r.get(e, 0) + ca * cb
    return {k: v for k, v in r.items() if v}

def poly_dict(terms):
    r = {}
    for num, den, es in terms:
        e = tuple(es)
        r[e] = r.get(e, 0) + Fraction(num, den)
    return {k: v for k, v in r.items() if v}

def func_expand(f, n):
    one = {(0,) * n: Fraction(1)}
    num, den = dict(one), dict(one)
    for exp, terms in f["facs"]:
        p = poly_dict(terms)
        for _ in range(abs(exp)):
            if exp > 0:
                num = poly_mul(num, p)
            else:
                den = poly_mul(den, p)
    return num, den

def dense_bound(f, n):
    """number of values a dense interpolation of the function's total degrees takes (generously)"""
    num, den = func_expand(f, n)
    dn, dd = max([sum(e) for e in num] or [0]), max([sum(e) for e in den] or [0])
    return (dn + dd + 3) * (math.comb(dn + n, n) + math.comb(dd + n, n)) + 10

def func_is_zero(f):
    return any(exp > 0 and not poly_dict(t) for exp, t in f["facs"])

def fmt_coef(num, den, style=0):
    return str(num) if den == 1 else "%d/%d" % (num, den)

def poly_str(terms, names):
    out = []
    for num, den, es in terms:
        s = "(%s)" % fmt_coef(num, den) if (num < 0 or den != 1) else str(num)
        for v, e in zip(names, es):
            if e == 1:
                s += "*" + v
            elif e > 1:
                s += "*%s^%d" % (v, e)
        out.append(s)
    return "+".join(out) if out else "0"

def func_str(f, names):
    num, den = [], []
    for exp, terms in f["facs"]:
        t = "(" + poly_str(terms, names) + ")"
        if abs(exp) != 1:
            t += "^%d" % abs(exp)
        (num if exp > 0 else den).append(t)
    s = "*".join(num) if num else "1"
    if den:
        s += "/(" + "*".join(den) + ")"
    return s

# ---- evaluator for printed expressions ---------------------------------------------------
def tokenize(s):
    toks, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif c in "+-*/^()":
            toks.append(c); i += 1
        elif c.isalnum():
            j = i
            while j < n and (s[j].isalnum() or s[j] == "_"):
                j += 1
            w = s[i:j]
            toks.append(int(w) if w.isdigit() else w)
            i = j
        else:
            raise EvalError("character %r" % c)
    return toks

class ExprEval:
    """Ordinary precedence; unary minus binds weaker than ^ and *, i.e. -x^2 = -(x^2)."""
    def __init__(self, s):
        self.t = tokenize(s)
        self.code = None

    def value(self, env, q):
        self.i, self.env, self.q = 0, env, q
        v = self.sum()
        if self.i != len(self.t):
            raise EvalError("trailing input at token %d of %r" % (self.i, self.t[max(0, self.i - 3):self.i + 3]))
        return v % q

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def sum(self):
        sign = 1
        while self.peek() in ("+", "-"):
            if self.t[self.i] == "-":
                sign = -sign
            self.i += 1
        v = sign * self.prod()
        while self.peek() in ("+", "-"):
            s = 1
            while self.peek() in ("+", "-"):
                if self.t[self.i] == "-":
                    s = -s
                self.i += 1
            v += s * self.prod()
        return v % self.q

    def prod(self):
        v = self.power()
        while self.peek() in ("*", "/"):
            o = self.t[self.i]; self.i += 1
            w = self.power()
            v = v * w % self.q if o == "*" else v * inv(w, self.q) % self.q
        return v

    def power(self):
        v = self.atom()
        while self.peek() == "^":
            self.i += 1
            e = self.exponent()
            v = pow(inv(v, self.q), -e, self.q) if e < 0 else pow(v, e, self.q)
        return v

    def exponent(self):
        t = self.peek()
        if isinstance(t, int):
            self.i += 1
            return t
        if t == "(":
            j, sign = self.i + 1, 1
            while self.t[j] in ("+", "-"):
                sign = -sign if self.t[j] == "-" else sign
                j += 1
            if isinstance(self.t[j], int) and self.t[j + 1] == ")":
                self.i = j + 2
                return sign * self.t[j]
        raise EvalError("exponent at token %d" % self.i)

    def atom(self):
        t = self.peek()
        if t is None:
            raise EvalError("unexpected end")
        self.i += 1
        if isinstance(t, int):
            return t % self.q
        if t == "(":
            v = self.sum()
            if self.peek() != ")":
                raise EvalError("missing )")
            self.i += 1
            return v
        if t in "+-*/^)":
            raise EvalError("unexpected %s" % t)
        if t not in self.env:
            raise EvalError("unknown name %s" % t)
        return self.env[t]

def same_function(string, f, names, rng, q=Q1, points=2):
    """None when the printed expression equals f at random points, else a reason."""
    try:
        ev = ExprEval(string)
        ok = 0
        for _ in range(points * 4):
            pt = [rng.randrange(2, q) for _ in names]
            try:
                want = func_eval(f, pt, q)
            except ZeroDivisionError:
                continue
            try:
                got = ev.value(dict(zip(names, pt)), q)
            except ZeroDivisionError:
                return "the printed form has a zero denominator at a point where the function is regular"
            if got != want:
                return "the printed form evaluates to a different value"
            ok += 1
            if ok == points:
                return None
        return None
    except EvalError as e:
        return "not a valid expression: %s" % e

def same_terms(num, den, f, rng, q=Q2, points=2):
    """num, den: lists of [n, d, exps]; compares num/den with f."""
    for _ in range(points):
        n = max([len(t[2]) for t in num + den] + [1])
        pt = [rng.randrange(2, q) for _ in range(64)]
        try:
            want = func_eval(f, pt, q)
            nv = poly_eval(num, pt, q)
            dv = poly_eval(den, pt, q) if den else 1
        except ZeroDivisionError:
            continue
        if dv == 0:
            return "zero denominator polynomial"
        if nv * inv(dv, q) % q != want:
            return "coefficients differ from the function"
    return None

# ---- generators ---------------------------------------------------------------------------
def rand_coef(rng, big):
    """(num, den); big in 0..3 selects the size class."""
    k = rng.random()
    if big == 0:
        num, den = rng.randint(1, 12), rng.choice([1, 1, 1, 2, 3, 5])
    elif big == 1:
        num, den = rng.randint(1, 10 ** rng.randint(1, 9)), rng.choice([1, 1, rng.randint(1, 10 ** rng.randint(1, 6))])
    elif big == 2:
        num, den = rng.randint(1, 10 ** rng.randint(10, 40)), rng.choice([1, rng.randint(1, 10 ** rng.randint(1, 25))])
    else:
        num, den = rng.randint(1, 10 ** rng.randint(40, 150)), rng.choice([1, rng.randint(1, 10 ** rng.randint(1, 100))])
    if rng.random() < 0.4:
        num = -num
    fr = Fraction(num, den)
    return fr.numerator, fr.denominator

def rand_exps(rng, n, deg):
    """a monomial of total degree <= deg, biased to few variables"""
    e = [0] * n
    d = rng.randint(0, deg)
    act = rng.sample(range(n), rng.randint(1, n))
    for _ in range(d):
        e[rng.choice(act)] += 1
    return e

def rand_poly(rng, n, deg, nterms, big, const=None, maxvar=None):
    """distinct monomials, nonzero coefficients; const: True force, False forbid a constant term"""
    seen = {}
    for _ in range(nterms * 3):
        if len(seen) >= nterms:
            break
        e = tuple(rand_exps(rng, n, deg))
        if const is False and not any(e):
            continue
        seen.setdefault(e, rand_coef(rng, big if rng.random() < 0.8 else 0))
    if const is True:
        seen.setdefault((0,) * n, rand_coef(rng, big))
    if not seen:
        e = [0] * n
        if const is False:
            e[rng.randrange(n)] = 1
        seen[tuple(e)] = rand_coef(rng, big)
    return [[c[0], c[1], list(e)] for e, c in seen.items()]

def dense_poly(rng, n, deg, big):
    out = []
    def rec(pref, left):
        if len(pref) == n:
            c = rand_coef(rng, big)
            out.append([c[0], c[1], list(pref)])
            return
        for e in range(left + 1):
            rec(pref + [e], left - e)
    rec([], deg)
    return out
