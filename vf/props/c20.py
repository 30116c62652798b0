import importlib, os
from .. import build, fieldgen
from ..core import Check, Fail
from ..san import Sanitizers

# The generators and drivers of the other checks, run with sanitizer builds.
# sub: (weight, {sanitizer: (flavour of the build, executables)})
SUBS = {
    "c02": (7, {"tsan": "tsanflint", "asan": "asanflint"}),      # whole runs
    "c06": (3, {"tsan": "tsanflint", "asan": "asanflint"}),      # early results polled while a run goes on
    "c03": (3, {"tsan": "tsanflint", "asan": "asanflint"}),      # saved state, death at an evaluation, resume
    "c04": (0.7, {"asan": "asanflint"}),                         # refused resume
    "c05": (1, {"tsan": "tsanflint", "asan": "asanflint"}),      # factor scan
    "c16": (2, {"tsan": "tsanflint", "asan": "asanflint"}),      # thread pool histories
    "c17": (3, {"tsan": "tsanflint", "asan": "asanflint"}),      # the insertion tool
    "c18": (0.7, {"tsan": "tsanflint", "asan": "asanflint"}),    # the stand-alone tool
    "c19": (1.5, {"asan": "asanflint"}),                         # interpolation objects
    "c08": (0.6, {"asan": "asanflint"}), "c09": (0.6, {"asan": "asanflint"}), "c13": (0.6, {"asan": "asanflint"}),
    "c14": (1.2, {"asan": "asanflint"}), "c15": (1.2, {"asan": "asanflint"}), "c12": (0.8, {"asan": "asanflint"}),
    "c10": (1.2, {"asan": "asanflint"}),
}
EXES = {"tsanflint": ["recon", "pool", "ff_insert", "firefly"], "asanflint": ["recon", "pool", "ff_insert", "firefly", "single", "unit", "parse"]}

class AnyDict(dict):
    """the sub-check asks for its own flavours; there is only one build here"""
    def __init__(self, v): self.v = v
    def __getitem__(self, k): return self.v
    def get(self, k, d=None): return self.v

class C20(Check):
    id = "C20"
    rule = ("one case = one case of the generators of the other properties (whole runs with any options and 1-12 threads, early results polled from another thread, saving, sudden death at an evaluation and "
            "resuming, factor scans, thread pool histories, the insertion tool, the stand-alone tool, interpolation objects, arithmetic, parser, solvers) executed by a build with ThreadSanitizer or with Address- "
            "and UndefinedBehaviorSanitizer and library assertions; any report is a violation. Functional differences are left to the property they belong to. "
            "Non-trivial: the case is non-trivial for its own property, and under ThreadSanitizer more than one thread is used.")
    counts = {"quick": 2600, "thorough": 40000}
    cap = {"quick": 400, "thorough": 3300}
    confirm = 8

    def setup(self, tier):
        self.dirs = {f: build.build(f, EXES[f]) for f in ("asanflint", "tsanflint")}
        primes = fieldgen.primes(self.dirs["asanflint"] + "/unit")
        self.subs = {}
        for s in SUBS:
            c = importlib.import_module("vf.props." + s).CHECK
            c.tier = tier
            c.primes = primes
            self.subs[s] = c

    def gen(self, rng, i):
        s = rng.choices(list(SUBS), [w for w, _ in SUBS.values()])[0]
        san = rng.choice(["tsan", "tsan", "asan"] if "tsan" in SUBS[s][1] else ["asan"])
        case = self.subs[s].gen(rng, i)
        if s == "c16":
            for _ in range(100):
                if case["kind"] == "pool":
                    break
                case = self.subs[s].gen(rng, i)
        if san == "tsan":
            self.parallel(rng, s, case)
        return {"sub": s, "san": san, "case": case}

    def parallel(self, rng, s, case):
        """a data race needs two threads"""
        T = lambda t: t if t > 1 else rng.choice([2, 3, 4, 8])
        for job in case.get("jobs", []) + ([case["job"]] if "job" in case else []):
            job["threads"] = T(job["threads"])
        if s == "c03":
            for c in case["chain"]:
                c[3]["threads"] = T(c[3]["threads"])
            case["last"]["threads"] = T(case["last"]["threads"])
        if s == "c18":
            case["threads"] = T(case["threads"])
        if s == "c17" and not any(o in ("-p", "--parallel") for o in case["opts"]):
            case["opts"] = case["opts"] + ["-p", str(rng.choice([2, 3, 4, 8]))]

    def run(self, case, d):
        s = self.subs[case["sub"]]
        s.dir = AnyDict(self.dirs[SUBS[case["sub"]][1][case["san"]]])
        w = d + "/w"
        os.makedirs(w)
        info, lab, why = {}, [], ""
        with Sanitizers(d) as san:
            try:
                info = s.run(case["case"], w) or {}
            except Fail as f:
                lab.append("hang under the sanitizer" if f.kind == "hang" else "functional difference")
                why = f.why
        san.check("%s, case of %s" % (case["san"], case["sub"].upper()), why)
        return {"n": 1, "nontrivial": info.get("nontrivial") or bool(lab), "labels": lab + [case["san"], case["san"] + " " + case["sub"].upper()]}

    def shrink(self, case):
        s = self.subs[case["sub"]]
        for c in s.shrink(case["case"]):
            yield dict(case, case=c)

    def sample(self, case):
        return {"sub": case["sub"], "san": case["san"], "case": self.subs[case["sub"]].sample(case["case"])}

    def corpus(self):
        for s, (w, m) in SUBS.items():
            for name, c in self.subs[s].corpus():
                for san in m:
                    yield "%s-%s-%s" % (s, san, name), {"case": {"sub": s, "san": san, "case": c.get("case", c)}}

CHECK = C20()
