"""Random expressions of the syntax the README supports, as trees: rendered to text and
evaluated modulo a prime independently of the library.

E = ["E", sign, [[op, T], ...]]   T = ["T", [[op, F], ...]]   F = ["F", base, exponent or None, style]
base = ["v", i] | ["n", digits] | ["p", E, extra parentheses]"""

def number(rng):
    if rng.random() < 0.02:
        return "0" * rng.choice([1, 2, 17, 18, 25]) + number(rng)
    k = rng.random()
    if k < 0.5:
        return str(rng.randint(0 if rng.random() < 0.1 else 1, 30))
    if k < 0.75:
        return str(rng.randint(1, 10 ** rng.randint(2, 17)))
    if k < 0.85:
        return str(rng.choice([10 ** 17, 10 ** 18 - 1, 10 ** 18, 10 ** 17 - 1, 2 ** 63, 2 ** 63 - 25, 2 ** 64 - 1, 2 ** 64, 9223372036854775783, 9223372036854775784, 9223372036854775807]))
    return str(rng.randint(1, 10 ** rng.randint(18, 60)))

def expo(rng):
    k = rng.random()
    if k < 0.75:
        e = rng.randint(0 if rng.random() < 0.15 else 1, 6)
    elif k < 0.95:
        e = rng.randint(7, 120)
    else:
        e = rng.choice([1000, 65537, 10 ** 6, 2 ** 31 - 1])
    return -e if e and rng.random() < 0.3 else e

def tower(rng, depth):
    """an expression of numbers only, e.g. (2/3)/(4/(9/8))"""
    def num(d):
        if d > 0 and rng.random() < 0.6:
            return ["p", tower(rng, d - 1), rng.choice([0, 0, 0, 1])]
        return ["n", str(rng.randint(1, 30)) if rng.random() < 0.7 else str(rng.randint(1, 10 ** rng.randint(2, 25)))]
    t = ["T", [[rng.choice("//*"), ["F", num(depth), rng.choice([None] * 8 + [1, 2, 3, -1, -2]), 0]] for _ in range(rng.choice([1, 2, 2, 2, 3]))]]
    terms = [[rng.choice("+-"), t]]
    if rng.random() < 0.2:
        terms.append([rng.choice("+-"), ["T", [["*", ["F", num(0), None, 0]]]]])
    return ["E", rng.choice(["", "", "", "-"]), terms]

def factor(rng, nv, depth):
    k = rng.random()
    if k < 0.06:
        return ["F", ["p", tower(rng, rng.choice([1, 2, 3])), 0], None, 0]
    k = rng.random()
    if depth > 0 and k < 0.45:
        b = ["p", expr(rng, nv, depth - 1), rng.choice([0, 0, 0, 0, 1, 2])]
    elif k < 0.75 and nv:
        b = ["v", rng.randrange(nv)]
    else:
        b = ["n", number(rng)]
    e = expo(rng) if rng.random() < 0.3 else None
    return ["F", b, e, rng.choice([0, 0, 0, 1])]

def term(rng, nv, depth):
    n = rng.choices([1, 2, 3, 5], [5, 5, 2, 0.5])[0]
    return ["T", [[rng.choice("***/"), factor(rng, nv, depth)] for _ in range(n)]]

def expr(rng, nv, depth):
    n = rng.choices([1, 2, 3, 6, 12], [5, 5, 3, 1, 0.3])[0]
    return ["E", rng.choice(["", "", "", "-", "-", "+"]), [[rng.choice(["+", "+", "-", "-", "+-", "-+"]), term(rng, nv, depth)] for _ in range(n)]]

def render(x, names, ws=None, validated=True):
    """ws: random generator for white space or None"""
    def sp():
        if ws is None:
            return ""
        return ws.choice([""] * 6 + [" ", " ", "  ", "\t", "\n", " \n "])
    def R(x):
        k = x[0]
        if k == "E":
            s = (x[1] + sp()) if x[1] else ""
            for i, (op, t) in enumerate(x[2]):
                if i:
                    o = op if validated else {"+-": "-", "-+": "-"}.get(op, op)
                    s += sp() + o + sp()
                s += R(t)
            return s
        if k == "T":
            return "".join((sp() + op + sp() if i else "") + R(f) for i, (op, f) in enumerate(x[1]))
        if k == "F":
            s = R(x[1])
            if x[2] is not None:
                s += sp() + "^" + sp()
                if x[2] < 0:
                    s += "(" + sp() + "-" + sp() + str(-x[2]) + sp() + ")"
                else:
                    s += "(" + sp() + str(x[2]) + sp() + ")" if x[3] else str(x[2])
            return s
        if k == "v":
            return names[x[1]]
        if k == "n":
            return x[1]
        if k == "p":
            return "(" * (x[2] + 1) + sp() + R(x[1]) + sp() + ")" * (x[2] + 1)
    return R(x)

def value(x, pt, p):
    """ZeroDivisionError when the expression is not defined at the point"""
    k = x[0]
    if k == "E":
        s = 0
        for i, (op, t) in enumerate(x[2]):
            v = value(t, pt, p)
            if (x[1] == "-") if i == 0 else ("-" in op):
                v = -v
            s += v
        return s % p
    if k == "T":
        r = 1
        for i, (op, f) in enumerate(x[1]):
            v = value(f, pt, p)
            if i and op == "/":
                if v == 0:
                    raise ZeroDivisionError
                v = pow(v, -1, p)
            r = r * v % p
        return r
    if k == "F":
        v = value(x[1], pt, p)
        e = x[2]
        if e is None:
            return v
        if e < 0:
            if v == 0:
                raise ZeroDivisionError
            return pow(pow(v, -1, p), -e, p)
        return pow(v, e, p)
    if k == "v":
        return pt[x[1]] % p
    if k == "n":
        return int(x[1]) % p
    if k == "p":
        return value(x[1], pt, p)

def smaller(x):
    """trees with something removed"""
    k = x[0]
    if k == "E":
        if x[1]:
            yield ["E", "", x[2]]
        for i in range(len(x[2])):
            if len(x[2]) > 1:
                yield ["E", x[1], x[2][:i] + x[2][i + 1:]]
            if x[2][i][0] not in "+-":
                yield ["E", x[1], x[2][:i] + [["-", x[2][i][1]]] + x[2][i + 1:]]
            for t in smaller(x[2][i][1]):
                yield ["E", x[1], x[2][:i] + [[x[2][i][0], t]] + x[2][i + 1:]]
    elif k == "T":
        for i in range(len(x[1])):
            if len(x[1]) > 1:
                yield ["T", x[1][:i] + x[1][i + 1:]]
            for f in smaller(x[1][i][1]):
                yield ["T", x[1][:i] + [[x[1][i][0], f]] + x[1][i + 1:]]
    elif k == "F":
        if x[2] is not None:
            yield ["F", x[1], None, 0]
            if x[2] not in (2, -2):
                yield ["F", x[1], 2 if x[2] > 0 else -2, 0]
        if x[3]:
            yield ["F", x[1], x[2], 0]
        for b in smaller(x[1]):
            yield ["F", b, x[2], x[3]]
    elif k == "n":
        if x[1] not in ("2", "3"):
            yield ["n", "3"]
            if len(x[1]) > 4:
                yield ["n", x[1][:len(x[1]) // 2].lstrip("0") or "1"]
    elif k == "p":
        yield ["n", "2"]
        if x[2]:
            yield ["p", x[1], 0]
        for e in smaller(x[1]):
            yield ["p", e, x[2]]
