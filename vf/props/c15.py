from ..unit import UnitCheck

def det_mod(m, p):
    m = [list(r) for r in m]
    n, d = len(m), 1
    for i in range(n):
        k = next((k for k in range(i, n) if m[k][i] % p), None)
        if k is None:
            return 0
        if k != i:
            m[i], m[k] = m[k], m[i]; d = -d
        d = d * m[i][i] % p
        inv = pow(m[i][i], -1, p)
        for k in range(i + 1, n):
            f = m[k][i] * inv % p
            if f:
                m[k] = [(a - f * b) % p for a, b in zip(m[k], m[i])]
    return d % p

def mul(a, b, p):
    bt = list(zip(*b))
    return [[sum(x * y for x, y in zip(r, c)) % p for c in bt] for r in a]

class C15(UnitCheck):
    id = "C15"
    rule = ("one evaluation = one regular linear system / inverse / determinant of size 1-9 (1 or 2-128 lanes; entries random, small, sparse, with structurally vanishing "
            "pivots, permuted triangular), one shifted transposed Vandermonde system with up to 40 unknowns, or one continued-fraction interpolation of a random univariate "
            "rational function (degree <= 14), over a random prime. Oracle: residuals A x = b, A A^-1 = 1, exact determinant, cross-multiplied polynomials. Non-trivial: size at least 2.")
    counts = {"quick": 3000, "thorough": 30000}
    cap = {"quick": 300, "thorough": 3000}
    batch = 60
    def matrix(self, rng, n, p, lanes):
        """lanes share the zero pattern and the structural rank of every minor; single systems are arbitrary"""
        kind = rng.randrange(7)
        if lanes == 1 and kind < 2:
            vals = rng.choice([[0, 1], [0, 1, p - 1], [0, 0, 0, 1, 2, p - 1, p - 2], [1, 1, 2, 3]])
            return [[[rng.choice(vals) for _ in range(n)] for _ in range(n)]]
        dens = rng.choice([1, 1, 0.7, 0.5, 0.3, 0.15])
        if kind < 4:
            pat = [[rng.random() < dens for _ in range(n)] for _ in range(n)]
            perm = list(range(n)); rng.shuffle(perm)
            for i in range(n):
                pat[i][perm[i]] = True
            return [[[(rng.randrange(1, p) if pat[i][j] else 0) for j in range(n)] for i in range(n)] for _ in range(lanes)]
        # permuted product of triangular matrices: leading minors vanish structurally
        lp = [[i == j or (j < i and rng.random() < dens) for j in range(n)] for i in range(n)]
        up = [[i == j or (j > i and rng.random() < dens) for j in range(n)] for i in range(n)]
        perm = list(range(n))
        if kind > 4:
            rng.shuffle(perm)
        out = []
        for _ in range(lanes):
            L = [[(rng.randrange(1, p) if lp[i][j] else 0) for j in range(n)] for i in range(n)]
            U = [[(rng.randrange(1, p) if up[i][j] else 0) for j in range(n)] for i in range(n)]
            m = mul(L, U, p)
            out.append([m[k] for k in perm])
        return out
    def flat(self, lanesmats):
        """entry order: row, column, lane"""
        n, c = len(lanesmats[0]), len(lanesmats[0][0])
        return " ".join(str(lanesmats[l][i][j]) for i in range(n) for j in range(c) for l in range(len(lanesmats)))
    def gen_ops(self, rng, fl):
        ops = []
        p = self.primes[0]
        while len(ops) < self.batch:
            r = rng.random()
            if r < 0.06:
                if rng.random() < 0.3:
                    p = rng.choice([101, 997, 65537, 2 ** 31 - 1, 1000003, 9223372036854775783])
                else:
                    p = rng.choice(self.primes)
                ops.append(["prime %d" % p, "prime", p])
            elif r < 0.7:
                lanes = rng.choice([1, 1, 1, 1, 2, 4, 8, 16, 64, 128])
                n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9]) if lanes < 64 else rng.choice([1, 2, 3, 4])
                if p < 2 ** 30 and lanes > 1:
                    continue     # accidental zeros in some lanes only: see known findings
                m = self.matrix(rng, n, p, lanes)
                if any(det_mod(x, p) == 0 for x in m):
                    continue
                f = rng.choice(["gauss", "gaussf", "inv", "lu", "det"])
                if f in ("gauss", "gaussf"):
                    b = [[[rng.choice([0, 1, rng.randrange(p), rng.randrange(p)])] for _ in range(n)] for _ in range(lanes)]
                    aug = [[row + bb for row, bb in zip(x, y)] for x, y in zip(m, b)]
                    ops.append(["la %d %s %d %s" % (lanes, f, n, self.flat(aug)), f, p, m, b])
                elif f == "inv" or f == "det":
                    ops.append(["la %d %s %d %s" % (lanes, f, n, self.flat(m)), f, p, m])
                else:
                    k = rng.randint(1, 3)
                    bs = [[[rng.choice([0, 1, rng.randrange(p), rng.randrange(p)]) for _ in range(n)] for _ in range(k)] for _ in range(lanes)]
                    ops.append(["la %d lu %d %s %d %s" % (lanes, n, self.flat(m), k, self.flat(bs)), "lu", p, m, bs])
            elif r < 0.86:
                n = rng.randint(1, 4)                    # variables besides the first
                k = rng.choice([1, 2, 3, 5, 8, 12, 20, 40])
                val = [rng.randrange(1, p) for _ in range(n)]
                degs, vs, tries = [], set(), 0
                while len(degs) < k and tries < 400:
                    tries += 1
                    d = [rng.randrange(0, 6) for _ in range(n + 1)]
                    v = 1
                    for x, e in zip(val, d[1:]):
                        v = v * pow(x, e, p) % p
                    if v not in vs:
                        vs.add(v); degs.append(d)
                k = len(degs)
                nums = [rng.choice([0, rng.randrange(p), rng.randrange(p), rng.randrange(p)]) for _ in range(k)]
                ops.append(["vdm %d %d %s %s %s" % (n + 1, k, " ".join(str(e) for d in degs for e in d), " ".join(map(str, nums)), " ".join(map(str, val))), "vdm", p, n, degs, nums, val])
            else:
                if p < 2 ** 60:
                    continue     # random points must be generic
                a, b = rng.randint(0, 14), rng.choice([0, 0, 1, 2, 5, 14])
                q = lambda d: [rng.choice([0, rng.randrange(p), rng.randrange(p), rng.randrange(20)]) for _ in range(d)] + [rng.randrange(1, p)]
                num, den = q(a), q(b)
                if rng.random() < 0.1:
                    num = [0]
                ev = lambda c, x: sum(v * pow(x, i, p) for i, v in enumerate(c)) % p
                pts, vals = [], []
                for _ in range(2 * max(a, b) + 6):
                    x = rng.randrange(1, p)
                    if ev(den, x) and x not in pts:
                        pts.append(x); vals.append(ev(num, x) * pow(ev(den, x), -1, p) % p)
                ops.append(["thiele %d %d %s" % (len(pts), rng.choice([0, 0, 1, 2, 3]), " ".join("%d %d" % t for t in zip(pts, vals))), "thiele", p, num, den])
        return ops
    def op_nontrivial(self, op):
        return op[1] in ("thiele", "vdm") or len(op[3][0]) > 1
    def verify(self, op, out, ctx):
        k, p = op[1], op[2]
        if p != ctx["p"]:
            return None      # left over by shrinking
        if k in ("gauss", "gaussf"):
            m, b = op[3:]
            n, L = len(m[0]), len(m)
            x = [int(t) for t in out.split()[1:]]
            if len(x) != n * L:
                return "wrong number of unknowns"
            return self.residual(m, [[[b[l][i][0] for i in range(n)]] for l in range(L)], [x], p)
        if k == "inv":
            return self.inverse(op[3], [int(t) for t in out.split()[1:]], p)
        if k == "det":
            return self.dets(op[3], out.split()[1:], p)
        if k == "lu":
            m, bs = op[3:]
            parts, cur = [], None
            for t in out.split():
                if t[0] in "dix":
                    cur = [t[0]]; parts.append(cur); t = t[1:]
                    if not t:
                        continue
                cur.append(int(t))
            kinds = "".join(q[0] for q in parts)
            if kinds != "di" + "x" * len(bs[0]) + "d":
                return "unexpected output"
            return self.dets(m, parts[0][1:], p) or self.dets(m, parts[-1][1:], p) or self.inverse(m, parts[1][1:], p) or self.residual(m, bs, [q[1:] for q in parts[2:-1]], p)
        if k == "vdm":
            n, degs, nums, val = op[3:]
            body, nn = out.rsplit(" / ", 1)
            if int(nn) != n + 1:
                return "wrong number of variables"
            t = body.split(";")
            coef = {}
            for q in t[1:]:
                w = [int(z) for z in q.split()]
                coef[tuple(w[:-1])] = w[-1]
            if set(coef) - set(map(tuple, degs)):
                return "unexpected monomials"
            v = []
            for d in degs:
                z = 1
                for x, e in zip(val, d[1:]):
                    z = z * pow(x, e, p) % p
                v.append(z)
            c = [coef.get(tuple(d), 0) for d in degs]
            if any(z < 0 or z >= p for z in c):
                return "not reduced"
            for j in range(len(nums)):
                if sum(a * pow(z, j + 1, p) for a, z in zip(c, v)) % p != nums[j]:
                    return "equation %d is not satisfied" % j
            return None
        if k == "thiele":
            num, den = op[3:]
            w = out.split(" / ")
            if w[0].split()[1] != "1":
                return "no termination after %s points" % w[0].split()[0]
            def pm(s):
                d = {}
                for q in s.split(";")[1:]:
                    a, b = q.split(); d[int(a)] = int(b)
                return d
            N, D = pm(w[1]), pm(w[2])
            if not any(D.values()):
                return "zero denominator"
            def pmul(a, c):
                r = {}
                for i, x in a.items():
                    for j, y in enumerate(c):
                        r[i + j] = (r.get(i + j, 0) + x * y) % p
                return {i: x for i, x in r.items() if x}
            if pmul(N, den) != pmul(D, num):
                return "not the interpolated function"
            return None
    def residual(self, m, bs, xs, p):
        n, L = len(m[0]), len(m)
        for s, x in enumerate(xs):
            if any(t < 0 or t >= p for t in x):
                return "not reduced"
            for l in range(L):
                xl = [x[i * L + l] for i in range(n)]
                for i in range(n):
                    if (sum(a * b for a, b in zip(m[l][i], xl)) - bs[l][s][i]) % p:
                        return "equation %d of lane %d is not satisfied" % (i, l)
        return None
    def inverse(self, m, x, p):
        n, L = len(m[0]), len(m)
        if len(x) != n * n * L or any(t < 0 or t >= p for t in x):
            return "wrong size or not reduced"
        for l in range(L):
            inv = [[x[(i * n + j) * L + l] for j in range(n)] for i in range(n)]
            if mul(m[l], inv, p) != [[int(i == j) for j in range(n)] for i in range(n)]:
                return "not the inverse in lane %d" % l
        return None
    def dets(self, m, x, p):
        x = [int(t) for t in x]
        if x != [det_mod(q, p) for q in m]:
            return "not the determinant"
        return None

CHECK = C15()
