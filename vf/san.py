"""Running under the sanitizers: options, and looking for reports afterwards."""
import glob, os, re
from .core import Fail

REPORT = re.compile(r"ERROR: AddressSanitizer|WARNING: ThreadSanitizer|runtime error:|ERROR: LeakSanitizer|Assertion '.*' failed")

class Sanitizers:
    """with Sanitizers(dir) as s: run something; s.check(text) raises Fail for any report"""
    def __init__(self, d):
        self.d = d + "/.san"
        os.makedirs(self.d, exist_ok=True)
    def __enter__(self):
        log = self.d + "/log"
        self.env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:log_path=" + log,
                    "UBSAN_OPTIONS": "print_stacktrace=1:log_path=" + log,
                    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:second_deadlock_stack=1:ignore_noninstrumented_modules=1:log_path=" + log}
        os.environ.update(self.env)
        return self
    def __exit__(self, *a):
        for k in self.env:
            os.environ.pop(k, None)
    def check(self, what, text=""):
        if REPORT.search(text):
            raise Fail("%s: %s" % (what, digest(text)))
        for f in sorted(glob.glob(self.d + "/log.*")):
            t = open(f, errors="replace").read()
            if REPORT.search(t):
                raise Fail("%s: %s" % (what, digest(t)))

def digest(t):
    m = REPORT.search(t)
    t = t[m.start():]
    out = [t.split("\n")[0][:200]]
    for part in re.split(r"\n\s*\n", t)[:2]:     # the two accesses of a race, or the stack of the error
        head = next((l.strip() for l in part.split("\n") if re.match(r"\s*(Write|Read|Previous|Atomic|READ|WRITE)", l)), "")
        frames = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(\S*firefly::[^\n]{0,400})", part)
        if frames:
            out.append((head[:60] + ": " if head else "") + " < ".join(short(x) for x in frames[:3]))
    return " | ".join(out)

def short(x):
    """function name and place of a stack frame"""
    place = re.search(r"(\w+\.[ch]pp:\d+)", x)
    return x.split("(")[0][:90] + (" " + place.group(1) if place else "")
