"""Spec files for the recon harness, running it, reading its output, comparing results."""
import os, random, re
from . import exact
from .core import Fail, HarnessError, run_cmd

def job_lines(job):
    """job: dict(n, threads, bunch, verb, seed, funcs, acts, vars, bb, record, sleep)"""
    L = ["job", "n %d" % job["n"], "threads %d" % job.get("threads", 1), "bunch %d" % job.get("bunch", 1),
         "verb %d" % job.get("verb", 0), "seed %d" % job.get("seed", 1)]
    if job.get("nobunch"):
        L.append("nobunch")
    L.append("vars " + " ".join(job.get("vars") or names(job["n"])))
    if job.get("record"):
        L.append("record")
    if job.get("sleep"):
        L.append("sleep %d" % job["sleep"])
    if job.get("bb") == "parser":
        L.append("bb parser exprs_%d.m" % job["_idx"])
    for f in job["funcs"]:
        L.append("f")
        for exp, terms in f["facs"]:
            L.append("p %d" % exp)
            for num, den, es in terms:
                L.append("t %d %d %s" % (num, den, " ".join(map(str, es))))
    for a in job["acts"]:
        L.append("act " + a)
    return L

def names(n):
    return ["x%d" % (i + 1) for i in range(n)]

def write_spec(d, jobs, fname="spec.txt"):
    L = []
    for i, j in enumerate(jobs):
        j = dict(j, _idx=i)
        if j.get("bb") == "parser":
            with open(os.path.join(d, "exprs_%d.m" % i), "w") as f:
                for fn in j["funcs"]:
                    f.write(exact.func_str(fn, j.get("vars") or names(j["n"])) + ";\n")
        L += job_lines(j)
    with open(os.path.join(d, fname), "w") as f:
        f.write("\n".join(L) + "\n")

def parse_poly(s):
    """' ; num den e1 e2 ; ...' """
    terms = []
    for part in s.split(";")[1:]:
        w = part.split()
        terms.append([int(w[0]), int(w[1]), [int(x) for x in w[2:]]])
    return terms

def read_out(path):
    """list of jobs, each a list of records"""
    jobs, cur, rec = [], None, None
    ended = False
    if not os.path.exists(path):
        return [], False
    for l in open(path):
        l = l.rstrip("\n")
        k = l.split(" ", 1)[0]
        if k == "job":
            cur = []; jobs.append(cur)
        elif k == "end":
            ended = True
        elif k in ("result", "early"):
            m = re.match(r"(\w+) (.*) zero=(\d) nfac=(\d+) order=(\d+)$", l)
            rec = {"kind": k, "tag": m.group(2), "zero": int(m.group(3)), "nfac": int(m.group(4)), "order": int(m.group(5))}
            cur.append(rec)
        elif k in ("num", "den"):
            rec[k] = parse_poly(l)
        elif k in ("str", "hor"):
            rec[k] = l.split(" ", 1)[1]
        elif k == "nresult":
            m = re.match(r"nresult (\d+) done=(\d)", l)
            cur.append({"kind": k, "n": int(m.group(1)), "done": int(m.group(2))})
        elif k == "nresultff":
            m = re.match(r"nresultff (\d+) p=(\d+)", l)
            cur.append({"kind": k, "n": int(m.group(1)), "p": int(m.group(2))})
        elif k == "ff":
            _, a, b = l.split(" | ") if l.count(" | ") == 2 else (None, None, None)
            def pf(s):
                return [[int(x) for x in t.split()] for t in s.split(";")[1:]]
            cur.append({"kind": "ff", "i": int(l.split()[1]), "num": pf(a), "den": pf(b)})
        elif k in ("nfactors", "nearly"):
            cur.append({"kind": k, "n": int(l.split()[1])})
        elif k == "factor":
            cur.append({"kind": k, "str": l.split(" ", 1)[1]})
        elif k == "ffstr":
            cur[-1]["str"] = l.split(" ", 1)[1]
        elif k == "evals":
            w = l.split()
            cur.append({"kind": k, "evals": int(w[1]), "fsops": int(w[3]), "prime": int(w[5])})
    return jobs, ended

def check_rf(rec, f, vars_, rng, what):
    """rec must denote f: as data (when it has no factors), as text and in Horner form"""
    for key, name in (("str", "plain text"), ("hor", "Horner text")):
        why = exact.same_function(rec[key], f, vars_, rng)
        if why:
            raise Fail("%s: %s: %s: %.300s" % (what, name, why, rec[key]))
    if rec["nfac"] == 0 and rec["order"] == 0:
        why = exact.same_terms(rec["num"], rec["den"], f, rng)
        if why:
            raise Fail("%s: %s" % (what, why))
    if bool(rec["zero"]) != exact.func_is_zero(f):
        raise Fail("%s: reported zero=%d" % (what, rec["zero"]))

def check_results(recs, job, rng, what):
    nr = [r for r in recs if r["kind"] == "nresult"]
    if len(nr) != 1:
        raise Fail("%s: no result list" % what)
    res = [r for r in recs if r["kind"] == "result"]
    if nr[0]["n"] != len(job["funcs"]):
        raise Fail("%s: %d results for %d functions" % (what, nr[0]["n"], len(job["funcs"])))
    if not nr[0]["done"]:
        raise Fail("%s: the reconstruction does not report completion" % what)
    for i, (r, f) in enumerate(zip(res, job["funcs"])):
        check_rf(r, f, job.get("vars") or names(job["n"]), rng, "%s: function %d" % (what, i))

def tail(r):
    return (r.err[-400:] + " | " + r.out[-200:]).replace("\n", " / ")

def check_ff(rec, f, p, what):
    """a field interpolation equals f mod p (random points mod p)"""
    rng = random.Random(p)
    for _ in range(2):
        n = 64
        pt = [rng.randrange(2, p) for _ in range(n)]
        want = exact.func_eval(f, pt, p)
        def ev(terms):
            s = 0
            for t in terms:
                m = t[0]
                for x, e in zip(pt, t[1:]):
                    m = m * pow(x, e, p) % p
                s += m
            return s % p
        nv, dv = ev(rec["num"]), (ev(rec["den"]) if rec["den"] else 1)
        if dv == 0 or nv * pow(dv, -1, p) % p != want:
            raise Fail("%s: the interpolation over the field differs from the function" % what)

# ---- generators ---------------------------------------------------------------------------
def rand_func(rng, n, size=1.0, fac=False, kind=None):
    """A random rational function as product of polynomials. Kinds cover the statement's list."""
    kinds = ["generic"] * 6 + ["zero", "const", "poly", "subset", "nodenconst", "sparsehigh", "dense", "monomial", "homog", "fewterms", "shiftneeded", "onlyden"]
    k = kind or rng.choice(kinds)
    big = rng.choices([0, 1, 2, 3], [5, 4, 2, 0.5])[0]
    dmax = {1: 14, 2: 8, 3: 6, 4: 4, 5: 3}.get(n, 2)
    deg = max(1, int(rng.randint(1, dmax) * size + 0.5))
    nt = rng.randint(1, max(1, int({1: 8, 2: 9, 3: 9, 4: 8}.get(n, 6) * size)))
    P = lambda **kw: exact.rand_poly(rng, n, kw.pop("deg", deg), kw.pop("nt", nt), big, **kw)
    zero = [0] * n
    if k == "zero":
        return {"facs": [[1, []]]}
    if k == "const":
        c = exact.rand_coef(rng, rng.choice([0, 1, 2, 3]))
        return {"facs": [[1, [[c[0], c[1], zero]]]]}
    if k == "poly":
        return {"facs": [[1, P()]]}
    if k == "subset" and n > 1:
        act = rng.sample(range(n), rng.randint(1, n - 1))
        def S():
            p = P()
            d = {}
            for a, b, e in p:
                e2 = tuple(x if i in act else 0 for i, x in enumerate(e))
                d[e2] = (a, b)
            return [[c[0], c[1], list(e)] for e, c in d.items()]
        return {"facs": [[1, S()], [-1, S()]]}
    if k == "nodenconst":
        return {"facs": [[1, P()], [-1, P(const=False)]]}
    if k == "shiftneeded":
        return {"facs": [[1, P(const=False)], [-1, P(const=False)]]}
    if k == "sparsehigh":
        d2 = max(deg, rng.randint(deg, max(deg, {1: 60, 2: 30, 3: 16}.get(n, 8))))
        return {"facs": [[1, P(deg=d2, nt=rng.randint(1, 3))], [-1, P(deg=d2, nt=rng.randint(1, 3))]]}
    if k == "veryhigh":
        # one power above 35 and 60 (binomials behind 32 and 64 bits when a shift is needed)
        p, q, v = P(nt=3, const=False), P(nt=3, const=False), rng.randrange(n)
        for t in (p, q) if rng.random() < 0.5 else (rng.choice([p, q]),):
            if t:
                t[0][2][v] = rng.randint(36, 80 if n < 3 else 70) if rng.random() < 0.8 or n > 2 else rng.randint(100, 170)
        return {"facs": [[1, p], [-1, q]]}
    if k == "dense":
        d2 = {1: rng.randint(1, 20), 2: rng.randint(1, 5), 3: rng.randint(1, 3)}.get(n, 1)
        d3 = {1: rng.randint(1, 20), 2: rng.randint(1, 5), 3: rng.randint(1, 3)}.get(n, 1)
        return {"facs": [[1, exact.dense_poly(rng, n, d2, big)], [-1, exact.dense_poly(rng, n, d3, big)]]}
    if k == "monomial":
        return {"facs": [[1, P(nt=1)], [-1, P(nt=1)]]}
    if k == "homog":
        def H():
            d = {}
            for a, b, e in P():
                e = list(e)
                while sum(e) < deg:
                    e[rng.randrange(n)] += 1
                d[tuple(e)] = (a, b)
            return [[c[0], c[1], list(e)] for e, c in d.items()]
        return {"facs": [[1, H()], [-1, H()]]}
    if k == "fewterms":
        return {"facs": [[1, P(nt=rng.randint(1, 2))], [-1, P(nt=2)]]}
    if k == "onlyden":
        c = exact.rand_coef(rng, 1)
        return {"facs": [[1, [[c[0], c[1], zero]]], [-1, P(nt=max(2, nt))]]}
    return {"facs": [[1, P()], [-1, P()]]}

def univ_poly(rng, n, v, deg, big):
    """univariate polynomial in variable v with nonzero constant and leading coefficient"""
    out = []
    for e in range(deg + 1):
        if e in (0, deg) or rng.random() < 0.6:
            c = exact.rand_coef(rng, big)
            es = [0] * n; es[v] = e
            out.append([c[0], c[1], es])
    return out

def fac_func(rng, n, size=1.0):
    """function with univariate factors (with multiplicities) times a remainder"""
    f = rand_func(rng, n, size * 0.7, kind=rng.choice(["generic", "poly", "const", "fewterms", "subset", "nodenconst"]))
    facs = list(f["facs"])
    for _ in range(rng.randint(1, 3)):
        v = rng.randrange(n)
        if rng.random() < 0.3:
            es = [0] * n; es[v] = 1
            p = [[1, 1, es]]
        else:
            p = univ_poly(rng, n, v, rng.randint(1, 3), rng.choice([0, 0, 1, 2]))
        facs.append([rng.choice([1, 1, 2, -1, -1, -2, 3]), p])
    return {"facs": facs}

def interesting(f, n):
    """non-trivial: depends on at least one variable and has at least two terms somewhere"""
    return any(len(t) >= 2 for _, t in f["facs"]) and any(any(e[2]) for _, t in f["facs"] for e in t)

# ---- shrinking ------------------------------------------------------------------------------
def shrink_funcs(funcs):
    if len(funcs) > 1:
        for i in range(len(funcs)):
            yield [funcs[i]]
        for i in range(len(funcs)):
            yield funcs[:i] + funcs[i + 1:]
    for i, f in enumerate(funcs):
        for j, (exp, terms) in enumerate(f["facs"]):
            def put(new):
                facs = f["facs"][:j] + new + f["facs"][j + 1:]
                return funcs[:i] + [{"facs": facs}] + funcs[i + 1:]
            if len(f["facs"]) > 1:
                yield put([])
            if abs(exp) > 1:
                yield put([[1 if exp > 0 else -1, terms]])
            if len(terms) > 1:
                h = len(terms) // 2
                yield put([[exp, terms[:h]]])
                yield put([[exp, terms[h:]]])
                for k in range(len(terms)):
                    yield put([[exp, terms[:k] + terms[k + 1:]]])
            for k, (a, b, es) in enumerate(terms):
                if (a, b) != (1, 1):
                    yield put([[exp, terms[:k] + [[1, 1, es]] + terms[k + 1:]]])
                    if b != 1:
                        yield put([[exp, terms[:k] + [[a, 1, es]] + terms[k + 1:]]])
                for v, e in enumerate(es):
                    if e > 1:
                        e2 = list(es); e2[v] = e // 2
                        if all(t[2] != e2 for t in terms):
                            yield put([[exp, terms[:k] + [[a, b, e2]] + terms[k + 1:]]])

def drop_var(funcs, n, v):
    out = []
    for f in funcs:
        facs = []
        for exp, terms in f["facs"]:
            d = {}
            for a, b, es in terms:
                e = tuple(es[:v] + es[v + 1:])
                d.setdefault(e, (a, b))
            facs.append([exp, [[c[0], c[1], list(e)] for e, c in d.items()]])
        out.append({"facs": facs})
    return out
