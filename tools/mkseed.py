"""Helper to write planted bugs: seed(id, property, edits, needs, breaks, demo).  Builds seeded/<id>/."""
import difflib, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Compiles demo.cpp against the library built in /repo/_build/%(cfg)s and runs it in a scratch folder.
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/ffdemo.XXXXXX)
trap 'rm -r -- "$W"' EXIT
cd "$W"
%(cxx)s %(flags)s -pthread -O1 -std=gnu++14 -I/repo/source/include -I/repo/_build/%(cfg)s/include "$D/demo.cpp" %(src)s -lgmp -lz%(libs)s -o demo
%(run)s
'''
def seed(id, prop, edits, needs, breaks, demo=None, cfg="default", run="timeout 200 ./demo", sh=None, flags="", cxx="g++", src=None, files={}):
    d = ROOT + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    by = {}
    for f, old, new in edits:
        t = by.setdefault(f, [open("/repo/" + f).read()] * 2)
        if t[1].count(old) != 1:
            raise SystemExit("%s: %d matches in %s for %r" % (id, t[1].count(old), f, old))
        by[f] = [t[0], t[1].replace(old, new)]
    out = ""
    for f, (a, b) in by.items():
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo:
        open(d + "/demo.cpp", "w").write(demo.lstrip("\n"))
    for k, v in files.items():
        open(d + "/" + k, "w").write(v)
    s = sh.lstrip("\n") if sh else DEMO % dict(cfg=cfg, run=run, flags=flags, cxx=cxx, libs=" -lflint" if cfg == "flint" else "", src=src or "/repo/_build/%s/libfirefly.a" % cfg)
    open(d + "/demo.sh", "w").write(s)
    os.chmod(d + "/demo.sh", 0o755)
