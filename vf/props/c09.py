from ..unit import UnitCheck
from ..fieldgen import elem, nonzero

class C09(UnitCheck):
    id = "C09"
    rule = ("one evaluation = one operation on bunches of 2-128 field elements (bunch with bunch, with a scalar on either side, with itself, with one of "
            "its own lanes, powers by scalars, integers, vectors and bunches, comparisons, element access, iteration, output, copies) compared lane by "
            "lane with exact integers; lanes hold unrelated boundary-biased values, zeros included. Non-trivial: every operation (lanes differ by construction); distinct operations are counted.")
    counts = {"quick": 2400, "thorough": 60000}
    cap = {"quick": 200, "thorough": 2500}
    batch = 120
    def gen_ops(self, rng, fl):
        ops, p = [], self.primes[0]
        for _ in range(self.batch):
            if rng.random() < 0.02:
                p = rng.choice(self.primes)
                ops.append(["prime %d" % p, "prime", p])
            n = rng.choice([2, 2, 4, 4, 8, 8, 16, 32, 64, 128])
            a = [elem(rng, p) for _ in range(n)]
            if rng.random() < 0.3:
                a[rng.randrange(n)] = 0
            b = [elem(rng, p) for _ in range(n)]
            if rng.random() < 0.2:
                b = list(a)
                if rng.random() < 0.7:
                    b[rng.choice([0, n - 1, rng.randrange(n)])] = elem(rng, p)
            c = elem(rng, p)
            j = lambda v: " ".join(map(str, v))
            k = rng.randrange(9)
            if k < 3:
                o = rng.choice(["+", "-", "*", "/", "+=", "-=", "*=", "/=", "==", "!=", "pow", "fpow"])
                if o in ("pow", "fpow"):
                    b = [nonzero(rng, p) if x == 0 else x for x in b] if 0 in a else b
                    a = [y if y or x < p // 2 else nonzero(rng, p) for x, y in zip(b, a)]
                ops.append(["v %d vv %s %s %s" % (n, o, j(a), j(b)), "vv", n, o, a, b])
            elif k == 3:
                o = rng.choice(["+", "-", "*", "/", "+=", "-=", "*=", "/=", "pow"])
                if o == "pow" and c >= p // 2:
                    a = [x or nonzero(rng, p) for x in a]
                ops.append(["v %d vs %s %s %d" % (n, o, j(a), c), "vs", n, o, a, c])
            elif k == 4:
                o = rng.choice(["+", "-", "*", "/"])
                ops.append(["v %d sv %s %d %s" % (n, o, c, j(a)), "sv", n, o, a, c])
            elif k == 5:
                o = rng.choice(["+=", "-=", "*=", "/=", "+", "-", "*", "/", "powv", "="])
                if o == "powv":
                    a = [x or 1 for x in a]
                ops.append(["v %d self %s %s" % (n, o, j(a)), "self", n, o, a])
            elif k == 6:
                l = rng.randrange(n)
                o = rng.choice(["+", "-", "*", "/", "+=", "-=", "*=", "/="])
                ops.append(["v %d lane %s %s %d" % (n, o, j(a), l), "lane", n, o, a, l])
            elif k == 7:
                o = rng.choice(["neg", "pos", "not", "out", "size", "copy", "iter", "index", "at", "arr", "fill"])
                if o == "fill":
                    ops.append(["v %d fill x %d" % (n, c), "fill", n, c])
                else:
                    ops.append(["v %d un %s %s" % (n, o, j(a)), "un", n, o, a])
            else:
                t = rng.choice(["i32", "i64", "u32", "u64", "vec"])
                lo = {"i32": -40, "i64": -2 ** 40, "u32": 0, "u64": 0, "vec": -30}[t]
                hi = {"i32": 40, "i64": 2 ** 40, "u32": 2 ** 32 - 1, "u64": 2 ** 64 - 1, "vec": 30}[t]
                if t == "vec":
                    m = n if rng.random() < 0.85 else max(0, n + rng.choice([-1, 1]))
                    e = [rng.randint(lo, hi) for _ in range(m)]
                    a = [x or 1 for x in a]
                    ops.append(["v %d powi vec %s %d %s" % (n, j(a), m, j(e)), "powvec", n, a, e])
                else:
                    e = rng.randint(lo, hi) if rng.random() < 0.7 else rng.choice([0, 1, 2, 3])
                    if e < 0:
                        a = [x or 1 for x in a]
                    ops.append(["v %d powi %s %s %d" % (n, t, j(a), e), "powi", n, a, e])
        return ops
    def verify(self, op, out, ctx):
        p = ctx["p"]
        def f(o, x, y):
            o = o.rstrip("=") or "="
            if o == "+": return (x + y) % p
            if o == "-": return (x - y) % p
            if o == "*": return x * y % p
            if o == "/": return x * pow(y, -1, p) % p if y else 0
            return pow(x, y, p)
        j = lambda v: " ".join(map(str, v))
        k, n = op[1], op[2]
        if k == "vv":
            o, a, b = op[3:]
            if o in ("==", "!="):
                want = "%d | %s | %s" % ((a == b) == (o == "=="), j(a), j(b))
            else:
                r = [f(o, x, y) for x, y in zip(a, b)]
                want = "%s | %s | %s" % (j(r), j(r if o[-1] == "=" else a), j(b))
        elif k in ("vs", "sv"):
            o, a, c = op[3:]
            r = [f(o, x, c) if k == "vs" else f(o, c, x) for x in a]
            want = "%s | %s | %d" % (j(r), j(r if o[-1] == "=" else a), c)
        elif k == "self":
            o, a = op[3:]
            want = j(a if o == "=" else [f("^" if o == "powv" else o, x, x) for x in a])
        elif k == "lane":
            o, a, l = op[3:]
            want = j([f(o, x, a[l]) for x in a])
        elif k == "fill":
            want = "%s ; %s" % (j([op[3]] * n), j([0] * n))
        elif k == "powi":
            want = "%s | %s" % (j([pow(x, op[4], p) for x in op[3]]), j(op[3]))
        elif k == "powvec":
            a, e = op[3:]
            want = "%s | %s" % (j([pow(x, y, p) for x, y in zip(a, e)]) if len(e) == n else "out_of_range", j(a))
        else:
            o, a = op[3:]
            if o == "not": want = str(int(0 in a))
            elif o == "out": want = "(" + ", ".join(map(str, a)) + ")"
            elif o == "size": want = str(n)
            elif o == "copy": want = j(a) + " ; " + j(a)
            elif o == "iter": want = j([(x + 1) % p for x in a])
            elif o == "index": want = j(a) + " ; " + j(a[:-1] + [7])
            elif o == "at": want = j(a) + " ; 1"
            elif o == "arr": want = j(a[::-1])
            elif o == "neg": want = j([-x % p for x in a])
            else: want = j(a)
        return None if out == want else "expected %.600s modulo %d" % (want, p)

CHECK = C09()
