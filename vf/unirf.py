"""Univariate rational functions modulo a prime; used to decide divisibility of printed factors."""
from .exact import tokenize, EvalError, ExprEval, inv

def trim(a):
    while a and a[-1] == 0:
        a.pop()
    return a

def padd(a, b, q, s=1):
    n = max(len(a), len(b))
    return trim([((a[i] if i < len(a) else 0) + s * (b[i] if i < len(b) else 0)) % q for i in range(n)])

def pmul(a, b, q):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return trim([x % q for x in r])

def pdivmod(a, b, q):
    a, out = list(a), [0] * max(0, len(a) - len(b) + 1)
    iv = pow(b[-1], -1, q)
    while len(a) >= len(b):
        c = a[-1] * iv % q
        s = len(a) - len(b)
        out[s] = c
        for i, y in enumerate(b):
            a[s + i] = (a[s + i] - c * y) % q
        a.pop()
        trim(a)
    return trim(out), a

def pgcd(a, b, q):
    while b:
        a, b = b, pdivmod(a, b, q)[1]
    return a

class RF:
    def __init__(self, n, d, q):
        self.n, self.d, self.q = n, d, q
    def __add__(self, o):
        if isinstance(o, int):
            o = RF(trim([o % self.q]), [1], self.q)
        q = self.q
        if self.d == o.d:
            return RF(padd(self.n, o.n, q), self.d, q)
        return RF(padd(pmul(self.n, o.d, q), pmul(o.n, self.d, q), q), pmul(self.d, o.d, q), q)
    __radd__ = __add__
    def __neg__(self):
        return RF([-x % self.q for x in self.n], self.d, self.q)
    def __mul__(self, o):
        if isinstance(o, int):
            o = RF(trim([o % self.q]), [1], self.q)
        return RF(pmul(self.n, o.n, self.q), pmul(self.d, o.d, self.q), self.q)
    __rmul__ = __mul__
    def inverse(self):
        if not self.n:
            raise ZeroDivisionError
        return RF(self.d, self.n, self.q)
    def power(self, e):
        r = RF([1], [1], self.q)
        b = self.inverse() if e < 0 else self
        for _ in range(abs(e)):
            r = r * b
        return r
    def reduced(self):
        if not self.n:
            return [], [1]
        g = pgcd(self.n, self.d, self.q)
        return pdivmod(self.n, g, self.q)[0], pdivmod(self.d, g, self.q)[0]

class RFEval(ExprEval):
    """evaluates a printed expression over univariate rational functions"""
    def value(self, env, q):
        self.i, self.env, self.q = 0, env, q
        v = self.sum()
        if self.i != len(self.t):
            raise EvalError("trailing input")
        return v
    def sum(self):
        v, sign, first = None, 1, True
        while first or self.peek() in ("+", "-"):
            sign, first = 1, False
            while self.peek() in ("+", "-"):
                if self.t[self.i] == "-":
                    sign = -sign
                self.i += 1
            w = self.prod()
            w = w if sign > 0 else -w
            v = w if v is None else v + w
        return v
    def prod(self):
        v = self.power()
        while self.peek() in ("*", "/"):
            o = self.t[self.i]; self.i += 1
            w = self.power()
            v = v * (w if o == "*" else w.inverse())
        return v
    def power(self):
        v = self.atom()
        while self.peek() == "^":
            self.i += 1
            v = v.power(self.exponent())
        return v
    def atom(self):
        t = self.peek()
        if isinstance(t, int):
            self.i += 1
            return RF(trim([t % self.q]), [1], self.q)
        v = ExprEval.atom(self)
        return RF(trim([v % self.q]), [1], self.q) if isinstance(v, int) else v

def slice_text(text, names, v, pt, q):
    env = {nm: RF(trim([x % q]), [1], q) for nm, x in zip(names, pt)}
    env[names[v]] = RF([0, 1], [1], q)
    return RFEval(text).value(env, q).reduced()

def slice_func(f, v, pt, q):
    r = RF([1], [1], q)
    for exp, terms in f["facs"]:
        p = []
        for num, den, es in terms:
            c = num * inv(den, q) % q
            for k, (x, e) in enumerate(zip(pt, es)):
                if k != v:
                    c = c * pow(x, e, q) % q
            p = padd(p, [0] * es[v] + [c], q)
        r = r * RF(p, [1], q).power(exp)
    return r.reduced()

def divides(a, b, q):
    return not b or (bool(a) and not pdivmod(b, a, q)[1])
