import random
from collections import Counter
from .. import build, exact, recon
from ..core import Check, Fail, run_cmd
from . import c02

def model_order(prog):
    """execution order of a pool with one thread whose first task blocks until the gate opens"""
    q = []
    for op, t, prio in prog:
        if op == "q":
            q.insert(0, t) if prio else q.append(t)
        elif op == "k":
            q = []
    return q

class C16(Check):
    id = "C16"
    rule = ("two kinds of cases. (a) one run of a random black box (1-12 threads, maximum bunch 1-128, shift scan, factor scan, safe mode, scheduling noise) whose every call is recorded: "
            "number of variables, reduced coordinates, bunch a power of two not above the maximum, no more calls at a time than threads, field equal to the announced one, "
            "no point probed twice in a field and no more points than a dense interpolation of the degrees takes (runs without scans). (b) 12 random histories of a thread pool of 0-8 threads (tasks and priority tasks with and without futures, tasks submitting tasks, cancellation, "
            "waiting, destruction, scheduling noise), checked against the rules: every task not cancelled runs exactly once, cancelled ones at most once and never after the cancellation "
            "returned, waiting and cancelling return with nothing running, futures deliver, one-threaded order equals that of a deque; plus 200 questions about bunch sizes. "
            "Non-trivial: (a) 20 recorded calls with more than one thread or bunches, (b) a cancellation or nested submission with at least two threads.")
    counts = {"quick": 5000, "thorough": 60000}
    cap = {"quick": 300, "thorough": 3000}
    confirm = 8
    flavours = ["default", "flint"]
    def setup(self, tier):
        self.dir = {f: build.build(f, ["recon", "pool"]) for f in self.flavours}

    def gen(self, rng, i):
        if rng.random() < 0.6:
            c = c02.CHECK
            case = {"kind": "run", "flavour": rng.choice(self.flavours)}
            case["jobs"] = [dict(c.gen_job(rng, case["flavour"], False), record=1)]
            return case
        hs = []
        for _ in range(12):
            hs.append(self.gen_history(rng))
        qs = []
        for _ in range(200):
            q = rng.choice([1, 2, 3, 7, 8, 9, rng.randint(1, 300), rng.randint(1, 100000)])
            if rng.random() < 0.7:
                qs.append(["bunch", q, rng.randint(1, 40), rng.choice([1, 2, 4, 8, 16, 32, 64, 128])])
            else:
                t = rng.randint(1, 40)
                qs.append(["jobs", q, rng.randint(1, 80), t, rng.choice([1, 2, 4, 8, 16, 32, 64, 128])])
        return {"kind": "pool", "flavour": "default", "hist": hs, "questions": qs}

    def gen_history(self, rng):
        size = rng.choice([0, 1, 1, 2, 3, 4, 8])
        mode = rng.choices(["order", "plain", "nested"], [1 if size == 1 else 0, 2, 2])[0]
        if size == 0:
            mode = "plain"
        tasks, prog, nid = {}, [], 0
        def new(subs=(), gate=0):
            nonlocal nid
            nid += 1
            tasks[str(nid)] = [int(rng.random() < 0.3), int(rng.random() < 0.4), rng.choice([0, 0, 0, 20, 200]), gate, list(subs)]
            return nid
        if mode == "order":
            g = new(gate=1)
            tasks[str(g)][0] = 0
            prog.append(["q", g])
            for _ in range(rng.randint(1, 12)):
                prog.append(["q", new()])
            prog.append(["o"])
            if rng.random() < 0.5:
                prog.append(["d"])
        else:
            for _ in range(rng.randint(1, 14)):
                r = rng.random()
                if r < 0.7:
                    subs = []
                    if mode == "nested" and rng.random() < 0.5:
                        for _ in range(rng.randint(1, 3)):
                            subs.append(new([new()] if rng.random() < 0.3 else []))
                    prog.append(["q", new(subs)])
                elif r < 0.8:
                    prog.append(["z", rng.choice([10, 100, 400])])
                elif r < 0.9:
                    prog.append(["k"])
                elif mode == "plain":
                    prog.append(["d"])
        return {"size": size, "jit": rng.choice([0, 10, 100, 400]), "seed": rng.randint(1, 10 ** 6), "tasks": tasks, "prog": prog, "mode": mode}

    def run(self, case, d):
        return self.run_pool(case, d) if case["kind"] == "pool" else self.run_recon(case, d)

    def run_pool(self, case, d):
        L = []
        for h in case["hist"]:
            L.append("pool %d %d %d" % (h["size"], h["jit"], h["seed"]))
            for t, (p, k, us, g, subs) in h["tasks"].items():
                L.append("task %s %d %d %d %d %s" % (t, p, k, us, g, " ".join(map(str, subs))))
            L += [" ".join(map(str, o)) for o in h["prog"]] + ["go"]
        L += [" ".join(map(str, q)) for q in case["questions"]]
        open(d + "/spec.txt", "w").write("\n".join(L) + "\n")
        r = run_cmd([self.dir[case["flavour"]] + "/pool", "spec.txt"], d, timeout=60)
        out = open(d + "/out.txt").read().splitlines()
        if r.timeout:
            raise Fail("a thread pool history does not terminate (history %d)" % (out.count("history") - 1), "hang")
        if r.rc != 0 or out[-1:] != ["end"]:
            raise Fail("the process ended with status %d: %s" % (r.rc, recon.tail(r)))
        cur, hist, ans = None, [], []
        for l in out[:-1]:
            if l == "history":
                cur = []
                hist.append(cur)
            elif l.startswith(("bunch ", "jobs ")):
                ans.append(int(l.split()[1]))
            else:
                cur.append(l.split())
        non = False
        for k, (h, ev) in enumerate(zip(case["hist"], hist)):
            self.check_history(h, ev, k)
            if h["size"] > 1 and (h["mode"] == "nested" or ["k"] in h["prog"]):
                non = True
        for q, a in zip(case["questions"], ans):
            n = q[1]
            if q[0] == "bunch":
                if not (1 <= a <= min(n, q[3])) or a & (a - 1):
                    raise Fail("bunch size %d for %d queued probes, %d threads and maximum bunch size %d" % (a, n, q[2], q[3]))
            elif not (1 <= a <= min(n, q[2] * q[4])):
                raise Fail("%d probes are sent for %d queued ones, %d free threads and maximum bunch size %d" % (a, n, q[2], q[4]))
        return {"nontrivial": non, "labels": ["pool"], "n": len(case["hist"])}

    def check_history(self, h, ev, k):
        where = "history %d (%d threads): " % (k, h["size"])
        started, ended, running, queued = {}, {}, set(), set()
        dead, must, order, closed, killing = set(), set(), [], False, False
        fut = {}
        for e in ev:
            if e[0] == "q":
                t = e[1]
                queued.add(t); must.add(t)
                if killing:
                    must.discard(t)
            elif e[0] == "s":
                t = e[1]
                if t in started:
                    raise Fail(where + "task %s is executed twice" % t)
                if t in dead:
                    raise Fail(where + "task %s starts after the cancellation returned" % t)
                if closed:
                    raise Fail(where + "task %s starts after the pool was destroyed" % t)
                started[t] = 1; running.add(t); order.append(int(t))
            elif e[0] == "e":
                running.discard(e[1]); ended[e[1]] = 1
            elif e[0] == "kb":
                killing = True
                must -= {t for t in queued if t not in ended}
            elif e[0] == "ke":
                killing = False
                if running:
                    raise Fail(where + "the cancellation returns while task %s is running" % sorted(running)[0])
                dead |= {t for t in queued if t not in started}
            elif e[0] == "de":
                left = [t for t in must if t not in ended]
                if running or left:
                    raise Fail(where + "waiting returns before task %s has ended" % sorted(running | set(left))[0])
            elif e[0] == "xe":
                closed = True
                if running:
                    raise Fail(where + "the pool is destroyed while task %s is running" % sorted(running)[0])
            elif e[0] == "f":
                fut[e[1]] = e[2]
            elif e[0] == "size":
                raise Fail(where + "the pool reports %s threads" % e[1])
        left = [t for t in must if t not in ended]
        if left:
            raise Fail(where + "task %s was never executed" % left[0])
        for t in queued:
            if h["tasks"][t][1]:
                want = str(int(t) * 7 + 1) if t in ended else "broken"
                if fut.get(t) != want:
                    raise Fail(where + "the future of task %s gives %s instead of %s" % (t, fut.get(t), want))
        if h["mode"] == "order" and h["size"] == 1:
            first = h["prog"][0][1]
            want = [first] + model_order([("q", o[1], h["tasks"][str(o[1])][0]) for o in h["prog"][1:] if o[0] == "q"])
            if order != want:
                raise Fail(where + "execution order %s instead of %s" % (order, want))

    def run_recon(self, case, d):
        job = case["jobs"][0]
        recon.write_spec(d, case["jobs"])
        r = run_cmd([self.dir[case["flavour"]] + "/recon", "spec.txt"], d, timeout=90)
        if r.timeout:
            raise Fail("a reconstruction does not terminate", "hang")
        jobs, ended = recon.read_out(d + "/out.txt")
        if r.rc != 0 or not ended:
            raise Fail("the process ended with status %d: %s" % (r.rc, recon.tail(r)))
        opts = [a.split()[0] for a in job["acts"]]
        scans = ("shift" in opts and "safe" not in opts and job["n"] > 1) or ("factor" in opts and "safe" not in opts)
        limit = 1 if job.get("nobunch") else job["bunch"]
        seen, calls, big, par, points = set(), 0, False, False, Counter()
        for l in open(d + "/calls_0.txt"):
            w = l.split()
            p, ann, lanes, nv, conc = map(int, w[1:6])
            vals = list(map(int, w[6:]))
            calls += 1
            big |= lanes > 1
            par |= conc > 1
            points[p] += lanes
            if p != ann:
                raise Fail("call %d is made in the field %d although %d was announced last" % (calls, p, ann))
            if nv != job["n"]:
                raise Fail("call %d has %d variables instead of %d" % (calls, nv, job["n"]))
            if lanes > limit or lanes & (lanes - 1):
                raise Fail("call %d has a bunch of %d with maximum bunch size %d" % (calls, lanes, limit))
            if conc > job["threads"]:
                raise Fail("%d calls at the same time with %d threads" % (conc, job["threads"]))
            if max(vals) >= p:
                raise Fail("call %d has a coordinate %d which is not reduced modulo %d" % (calls, max(vals), p))
            if not scans:
                for k in range(lanes):
                    pt = (p,) + tuple(vals[k * nv:(k + 1) * nv])
                    if pt in seen:
                        raise Fail("the point %s is probed twice" % (pt,))
                    seen.add(pt)
        if not scans:
            dense = sum(exact.dense_bound(f, job["n"]) for f in job["funcs"]) + 6 * job["threads"]
            if max(points.values()) > dense:
                raise Fail("%d points are probed in one field where a dense interpolation takes %d" % (max(points.values()), dense))
        recon.check_results(jobs[0], job, random.Random(job["seed"]), "run")
        lab = ["run", case["flavour"]] + (["scans"] if scans else ["no scans"]) + (["bunches"] if big else []) + (["parallel"] if par else [])
        return {"nontrivial": calls >= 20 and (big or par), "labels": lab}

    def shrink(self, case):
        if case["kind"] == "pool":
            hs = case["hist"]
            if case["questions"]:
                yield dict(case, questions=[])
                if len(hs) == 0:
                    for q in case["questions"]:
                        yield dict(case, questions=[q])
            for i in range(len(hs)):
                yield dict(case, hist=hs[:i] + hs[i + 1:])
            for i, h in enumerate(hs):
                for j in range(len(h["prog"])):
                    if h["mode"] == "order" and (j == 0 or h["prog"][j][0] == "o"):
                        continue
                    yield dict(case, hist=hs[:i] + [dict(h, prog=h["prog"][:j] + h["prog"][j + 1:])] + hs[i + 1:])
                if h["jit"]:
                    yield dict(case, hist=hs[:i] + [dict(h, jit=0)] + hs[i + 1:])
            return
        for c in c02.CHECK.shrink(case):
            yield c

CHECK = C16()
