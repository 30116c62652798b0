"""Generic driver: generate cases from VERIF_SEED, run them in parallel, confirm and shrink
failures, write the replay file, the evidence file and the VIOLATION line."""
import hashlib, json, multiprocessing, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Fail(Exception):
    """The property is violated. kind: 'wrong' (sound observation), 'hang' (needs confirmation)."""
    def __init__(self, why, kind="wrong"):
        super().__init__(why)
        self.why, self.kind = why, kind

class HarnessError(Exception):
    pass

def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "/tmp"

class Workdir:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="vf_", dir=os.environ.get("VF_SCRATCH") or scratch_base())
        return self.path
    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

class Result:
    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

def run_cmd(cmd, cwd, timeout=60, env=None, stdin=None):
    e = dict(os.environ, LC_ALL="C")
    if env:
        e.update(env)
    errf = tempfile.TemporaryFile(dir=cwd)
    outf = tempfile.TemporaryFile(dir=cwd)
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=outf, stderr=errf, env=e, start_new_session=True)
    to = False
    try:
        p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    def rd(f):
        f.seek(0)
        b = f.read(4 << 20)
        f.close()
        return b.decode("utf-8", "replace")
    return Result(p.returncode, rd(outf), rd(errf), to)

# ---- worker side ---------------------------------------------------------------------------
_check = None
def _init(check):
    global _check
    _check = check
    signal.signal(signal.SIGINT, signal.SIG_IGN)

def _eval(case):
    """returns (status, why, info): status ok / wrong / hang / error"""
    try:
        with Workdir() as d:
            info = _check.run(case, d) or {}
        return ("ok", "", info)
    except Fail as f:
        return (f.kind, f.why, {})
    except Exception:
        return ("error", traceback.format_exc()[-2000:], {})

def _gen_eval(args):
    seed, i = args
    try:
        case = _check.gen(random.Random("%s:%s:%d" % (_check.id, seed, i)), i)
    except Exception:
        return None, ("error", "generator: " + traceback.format_exc()[-2000:], {})
    return case, _eval(case)

# ---- checks ----------------------------------------------------------------------------------
class Check:
    id = "?"
    level = "exploration"
    rule = ""
    workers = 8
    counts = {"quick": 200, "thorough": 2000}
    cap = {"quick": 300, "thorough": 3000}     # seconds; reached only on slow machines
    assumptions = []
    confirm = 3                                # replays of a failure before it is reported
    need = 1                                   # how many of them have to fail again

    def setup(self, tier):                     # build; runs once before workers start
        pass
    def gen(self, rng, i):
        raise NotImplementedError
    def run(self, case, d):                    # returns {"nontrivial": bool, "labels": [...], "n": int}
        raise NotImplementedError
    def shrink(self, case):
        return iter(())
    def corpus(self):
        d = os.path.join(ROOT, "corpus", self.id)
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith(".json"):
                    yield f, json.load(open(os.path.join(d, f)))
    def sample(self, case):
        return case

def load_known(pid):
    """known findings: lines 'known: property=C01 case=<file> <text>' -> [(case file, text)]"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + pid:
                out.append((w[2].split("=", 1)[1], w[3].strip()))
    return out

def main(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 0
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 1
        elif argv[i] == "--replay":
            replay = argv[i + 1]; i += 1
        elif argv[i] == "--count":
            check.counts = {tier: int(argv[i + 1])}; i += 1
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    check.tier = tier
    check.setup(tier)
    tb = time.time() - t0
    if replay:
        data = json.load(open(replay))
        _init(check)
        r = _eval(data["case"])
        print(r[0], r[1])
        if r[0] in ("wrong", "hang"):
            print("VIOLATION property=%s replay=%s" % (check.id, replay))
            return 1
        return 0
    n = check.counts[tier]
    deadline = t0 + check.cap[tier]
    stats = {"evaluations": 0, "nontrivial": set(), "labels": {}, "errors": [], "inconclusive": 0}
    samples, fails = [], []

    def account(case, r, keep_sample=True):
        st, why, info = r
        stats["evaluations"] += info.get("n", 1)
        if st == "ok":
            if info.get("nontrivial"):
                h = hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()
                stats["nontrivial"].add(h)
                for x in range(1, info.get("nn", 1)):
                    stats["nontrivial"].add(h + str(x))
                if keep_sample and len(samples) < 3:
                    s = json.dumps(check.sample(case), default=str)
                    samples.append(s if len(s) < 2500 else s[:2500] + "...")
            for l in info.get("labels", []):
                stats["labels"][l] = stats["labels"].get(l, 0) + 1
        elif st == "error":
            stats["errors"].append(why)
        else:
            fails.append((case, st, why))

    ctx = multiprocessing.get_context("fork")
    with ProcessPoolExecutor(check.workers, mp_context=ctx, initializer=_init, initargs=(check,)) as ex:
        # listed findings: reported as such, never as violations
        for f, text in load_known(check.id):
            case = json.load(open(os.path.join(ROOT, f)))
            st, why, info = ex.submit(_eval, case.get("case", case)).result()
            if st in ("wrong", "hang"):
                print("KNOWN-FINDING: property=%s %s" % (check.id, text))
        pend = {}
        for name, c in check.corpus():
            c = c.get("case", c)
            pend[ex.submit(_eval, c)] = c
        for f in list(pend):
            account(pend[f], f.result())
        pend, nxt = set(), 0
        while (nxt < n or pend) and not (len(fails) >= 2 or (fails and not pend)):
            while nxt < n and len(pend) < 3 * check.workers and not fails and time.time() < deadline:
                pend.add(ex.submit(_gen_eval, (seed, nxt))); nxt += 1
            if not pend:
                break
            done, pend = wait(pend, return_when=FIRST_COMPLETED)
            for f in done:
                case, r = f.result()
                account(case, r)
        for f in pend:
            f.cancel()
        generated = nxt
        # confirm
        violation = None
        fails.sort(key=lambda f: (f[1] != "wrong", len(json.dumps(f[0], default=str))))
        for k, (case, st, why) in enumerate(fails[:4]):
            again = 0
            for r in ex.map(_eval, [case] * check.confirm):
                if r[0] in ("wrong", "hang"):
                    again += 1
                    if r[0] == "wrong":
                        why = r[1]
            need = max(2, check.need) if st == "hang" else check.need
            if again >= need:
                violation = (case, why); break
        if not violation and len([f for f in fails if f[1] == "wrong"]) >= 2:
            violation = (fails[0][0], fails[0][2] + " (two different cases failed; schedule dependent)")
        if fails and not violation:
            stats["inconclusive"] += len(fails)
            os.makedirs(os.path.join(ROOT, ".replays"), exist_ok=True)
            for case, st, why in fails:     # kept for analysis; not reported
                body = json.dumps({"property": check.id, "why": why, "case": case}, default=str)
                open(os.path.join(ROOT, ".replays", "unconfirmed-%s-%s.json" % (check.id, hashlib.sha1(body.encode()).hexdigest()[:10])), "w").write(body)
        if violation:
            case, why = violation
            tend = time.time() + (60 if tier == "quick" else 240)
            improved = True
            while improved and time.time() < tend:
                improved = False
                it = check.shrink(case)
                while time.time() < tend:
                    batch = []
                    for c in it:
                        batch.append(c)
                        if len(batch) >= check.workers:
                            break
                    if not batch:
                        break
                    res = list(ex.map(_eval, batch))
                    for c, r in zip(batch, res):
                        if r[0] == "wrong":
                            case, why, improved = c, r[1], True
                            break
                    if improved:
                        break
            violation = (case, why)
    wall = time.time() - t0
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level,
          "coverage": {"evaluations": stats["evaluations"], "distinct_nontrivial": len(stats["nontrivial"]),
                       "rule": check.rule, "samples": samples, "labels": stats["labels"],
                       "cases_requested": n, "cases_generated": generated, "inconclusive": stats["inconclusive"],
                       "harness_errors": len(stats["errors"]), "build_s": round(tb, 1)},
          "assumptions": check.assumptions, "wall_s": round(wall, 1), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if stats["errors"]:
        print("harness errors: %d, first:\n%s" % (len(stats["errors"]), stats["errors"][0]))
    for c, st, why in fails:
        print("failure (%s): %s" % (st, why[:600]))
    print("%s %s: %d evaluations, %d non-trivial, %d cases, %.1f s (build %.1f s) %s" % (check.id, tier, stats["evaluations"], len(stats["nontrivial"]), generated, wall, tb, json.dumps(stats["labels"])))
    if violation:
        case, why = violation
        d = os.path.join(ROOT, ".replays")
        os.makedirs(d, exist_ok=True)
        body = json.dumps({"property": check.id, "why": why, "case": case}, default=str)
        path = os.path.join(d, "%s-%s.json" % (check.id, hashlib.sha1(body.encode()).hexdigest()[:10]))
        open(path, "w").write(body)
        print("what failed: " + why[:1500])
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    if stats["errors"] and len(stats["errors"]) > max(2, generated // 5):
        return 2
    return 0
