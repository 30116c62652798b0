"""Builds the library from /repo's working tree, and the harnesses, into /verif/.build/<hash>.

The cache key covers every byte of /repo/source, the tools' sources, the harness sources and
the flags, so a build is only reused for identical input."""
import fcntl, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(ROOT, "harness")
CACHE = os.path.join(ROOT, ".build")
GUARD = "FIREFLY_VERIF_HOOKS"

SAN = ["-DNO_JITTER", "-DNO_FS_INJECT"]

FLAVOURS = {
    # name: (arithmetic, mpi, compiler, compile flags, link flags)
    "default":  ("DEFAULT", 0, "g++", ["-O1", "-g1"], []),
    "flint":    ("FLINT", 0, "g++", ["-O1", "-g1"], []),
    "mpi":      ("DEFAULT", 1, "mpicxx", ["-O1", "-g1"], []),
    "mpiflint": ("FLINT", 1, "mpicxx", ["-O1", "-g1"], []),
    "asan":     ("DEFAULT", 0, "g++", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"], ["-fsanitize=address,undefined"]),
    "asanflint":("FLINT", 0, "g++", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"], ["-fsanitize=address,undefined"]),
    "tsan":     ("DEFAULT", 0, "g++", ["-O1", "-g", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "tsanflint":("FLINT", 0, "g++", ["-O1", "-g", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "assert":   ("DEFAULT", 0, "g++", ["-O1", "-D_GLIBCXX_ASSERTIONS"], []),
}

class BuildError(Exception):
    pass

def _files(d, exts):
    for base, dirs, names in os.walk(d):
        dirs.sort()
        for n in sorted(names):
            if n.endswith(exts):
                yield os.path.join(base, n)

def _hash(flavour, extra):
    h = hashlib.sha256()
    h.update(repr((flavour, FLAVOURS[flavour], extra)).encode())
    for f in list(_files(REPO + "/source", (".cpp", ".hpp", ".h", ".in"))) + [REPO + "/ff_insert.cpp", REPO + "/firefly.cpp"] + list(_files(HARN, (".cpp", ".hpp"))):
        h.update(os.path.relpath(f, "/").encode())
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except FileNotFoundError:
            pass
    return h.hexdigest()[:16]

def _config(flavour, inc):
    arith, mpi = FLAVOURS[flavour][:2]
    os.makedirs(inc + "/firefly", exist_ok=True)
    subst = {"FLINT_FLAG": int(arith == "FLINT"), "DEFAULT_FLAG": int(arith == "DEFAULT"), "CUSTOM_FLAG": 0, "MPI_FLAG": mpi}
    cm = open(REPO + "/CMakeLists.txt").read()
    v = re.search(r"(?m)^\s*set\s*\(\s*FireFly_VERSION\s+(\d+)\.(\d+)\.(\d+)", cm) or re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", cm)
    maj, mnr, pat = v.groups() if v else (2, 0, 3)
    subst.update(PROJECT_VERSION_MAJOR=maj, PROJECT_VERSION_MINOR=mnr, PROJECT_VERSION_PATCH=pat)
    for f in ("config.hpp", "version.hpp"):
        src = open(REPO + "/source/include/firefly/" + f + ".in").read()
        src = re.sub(r"@(\w+)@", lambda m: str(subst.get(m.group(1), 0)), src)
        open(inc + "/firefly/" + f, "w").write(src)

# harness executables: name -> (sources, extra compile flags, link inject layer?, flavours restrictions)
EXES = {
    "recon":   (["@recon.cpp"], [], True),
    "unit":    (["@unit.cpp"], [], False),
    "parse":   (["@parse.cpp"], [], False),
    "pool":    (["@pool.cpp"], [], True),
    "single":  (["@single.cpp"], [], True),
    "ff_insert": (["ff_insert.cpp"], [], True),
    "firefly": (["firefly.cpp"], [], True),
}

def build(flavour, exes, quiet=False):
    """Returns the directory holding the executables."""
    arith, mpi, cxx, cflags, lflags = FLAVOURS[flavour]
    key = _hash(flavour, None)
    out = os.path.join(CACHE, flavour + "-" + key)
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ, LC_ALL="C", OMPI_CXX="g++")
    for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS"):
        env.pop(k, None)
    with open(out + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        todo = [e for e in exes if not os.path.exists(out + "/" + e)]
        if not todo:
            return out
        inc = out + "/include"
        _config(flavour, inc)
        obj = out + "/obj"
        os.makedirs(obj, exist_ok=True)
        base = [cxx, "-std=c++14", "-pipe", "-w", "-D" + GUARD, "-I", inc, "-I", REPO + "/source/include", "-I", HARN, "-pthread"] + cflags
        jobs = []
        libobjs = []
        for s in sorted(os.listdir(REPO + "/source")):
            if s.endswith(".cpp"):
                o = obj + "/lib_" + s[:-4] + ".o"
                libobjs.append(o)
                jobs.append((base + ["-c", REPO + "/source/" + s, "-o", o], o))
        links = []
        for e in todo:
            srcs, extra, inject = EXES[e]
            objs = []
            for s in srcs:
                src = HARN + "/" + s[1:] if s.startswith("@") else REPO + "/" + s
                o = obj + "/" + e + "_" + os.path.basename(s).lstrip("@")[:-4] + ".o"
                jobs.insert(0, (base + extra + ["-c", src, "-o", o], o))
                objs.append(o)
            if inject:
                nm = "tool" if srcs[0][0] != "@" else ("san" if "san" in flavour else "std")
                o = obj + "/inject_" + nm + ".o"
                fl = {"tool": ["-DTOOL_INJECT"] + (SAN if "san" in flavour else []), "san": SAN, "std": []}[nm]
                fl = fl + (["-DVF_BIGNEW"] if flavour.startswith("tsan") else [])
                jobs.append((base + fl + ["-c", HARN + "/inject.cpp", "-o", o], o))
                objs.append(o)
            links.append((e, objs))
        # RatReconst.cpp takes longest: start it early
        jobs.sort(key=lambda j: 0 if "RatReconst" in j[1] or "recon" in j[1] or "ff_insert" in j[1] or "firefly_firefly" in j[1] else 1)
        seen, uniq = set(), []
        for j in jobs:
            if j[1] not in seen and not os.path.exists(j[1] + ".ok"):
                seen.add(j[1]); uniq.append(j)
        def run(j):
            r = subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
            if r.returncode == 0:
                open(j[1] + ".ok", "w").close()
            return r
        with ThreadPoolExecutor(8) as ex:
            for j, r in zip(uniq, ex.map(run, uniq)):
                if r.returncode != 0:
                    raise BuildError("compiling %s failed:\n%s" % (j[1], r.stdout[-4000:]))
        libs = (["-lflint"] if arith == "FLINT" else []) + ["-lgmpxx", "-lgmp", "-lz", "-ldl", "-pthread"]
        lib = out + "/libff.a"
        if not os.path.exists(lib):
            r = subprocess.run(["ar", "rcs", lib + ".tmp"] + libobjs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError(r.stdout)
            os.rename(lib + ".tmp", lib)
        def link(l):
            e, objs = l
            r = subprocess.run([cxx] + lflags + objs + [lib] + ["-o", out + "/" + e + ".tmp"] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
            if r.returncode == 0:
                os.rename(out + "/" + e + ".tmp", out + "/" + e)
            return r
        with ThreadPoolExecutor(8) as ex:
            for l, r in zip(links, ex.map(link, links)):
                if r.returncode != 0:
                    raise BuildError("linking %s failed:\n%s" % (l[0], r.stdout[-4000:]))
    # keep the cache small
    dirs = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=os.path.getmtime)
    for d in dirs[:-24]:
        if d != out:
            shutil.rmtree(d, ignore_errors=True)
    return out

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
