import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
from seeds2 import BB
R = "source/include/firefly/Reconstructor.hpp"

seed("C21-a", "C21", [(R, """    if (bunch_size != 1 && bunch_size != 2 && bunch_size != 4 && bunch_size != 8 && bunch_size != 16 && bunch_size != 32 && bunch_size != 64 && bunch_size != 128) {
""", """    if ((bunch_size & (bunch_size - 1)) != 0 || bunch_size > 128) {
""")],
 "a maximum bunch size of zero: the test for a power of two accepts it",
 "the reconstruction is not refused with an error message; it runs with an unsupported bunch size",
 demo=BB + r'''
int main() {
  std::vector<std::string> v {"x", "y"};
  int bad = 0;
  for (uint32_t bunch : {0u, 3u, 127u, 256u, 1u, 128u}) {
    bool ok = bunch == 1 || bunch == 128;
    pid_t pid = fork();
    if (pid == 0) {
      alarm(20);
      std::vector<std::string> f {"(1+x*y)/(3+x)"};
      BB bb(f, v);
      Reconstructor<BB> r(2, 2, bunch, bb, Reconstructor<BB>::SILENT);
      r.reconstruct();
      _exit(wrong(r.get_result(), f, v) ? 5 : 0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    bool refused = WIFEXITED(st) && WEXITSTATUS(st) == 1, right = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    std::cout << bunch << ": " << st << "\n";
    if (ok ? !right : !refused) ++bad;
  }
  return bad != 0;
}
''')

seed("C11-a", "C11", [("source/ShuntingYardParser.cpp", """        if (st.size() == 0) {
          ERROR_MSG(""", """        if (st.size() == 0 && r[i + 1] == '\\0') {
          // Nothing follows, i.e. the parenthesis encloses the whole expression
          r[i] = '$';
          i++;
        } else if (st.size() == 0) {
          ERROR_MSG(""")],
 "an expression with a surplus closing parenthesis as its very last character",
 "the unbalanced expression is accepted instead of rejected",
 demo=BB + r'''
static int status(const std::string& f) {
  pid_t pid = fork();
  if (pid == 0) {
    alarm(20);
    std::vector<std::string> fs {f}, v {"x", "y"};
    ShuntingYardParser p(fs, v);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + st;
}
int main() {
  int bad = 0;
  for (const char* s : {"x+1", "(x+1)", "(x+y)*(x-y)"}) if (status(s) != 0) { ++bad; std::cout << "refused: " << s << "\n"; }
  for (const char* s : {"x)+1", "(x+1", "x+1)", "(x+y)*(x-y))", "((x)", "x)"}) if (status(s) != 1) { ++bad; std::cout << "not refused: " << s << " " << status(s) << "\n"; }
  return bad != 0;
}
''')

TS = r'''#!/bin/bash
# Compiles the library and demo.cpp with ThreadSanitizer and runs the program several times.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/ffdemo.XXXXXX)
trap 'rm -r -- "$W"' EXIT
cd "$W" || exit 9
for f in /repo/source/*.cpp; do case $f in *main.cpp) continue;; esac; echo "$f"; done > list
echo "$D/demo.cpp" >> list
xargs -P 8 -I{} sh -c 'g++ -w -fsanitize=thread -g -O1 -std=gnu++14 -pthread -I/repo/source/include -I/repo/_build/default/include -c "$1" -o "$(basename "$1" .cpp).o" || exit 255' - {} < list || exit 9
g++ -fsanitize=thread -pthread *.o -lgmp -lz -o demo || exit 9
export TSAN_OPTIONS="exitcode=66 halt_on_error=1"
for k in 1 2 3 4 5 6; do
  timeout 60 ./demo $k > out 2>&1; c=$?
  [ $c = 0 ] || { grep -m3 -A12 "WARNING: ThreadSanitizer" out; tail -3 out; echo "status $c"; exit 1; }
done
exit 0
'''
seed("C20-a", "C20", [(R, """    std::lock_guard<std::mutex> lock_clean(clean);

    std::vector<std::pair<std::string, RationalFunction>> result;

    for (auto & rec : reconst) {
      if (std::get<1>(rec) == DONE) {
        if (save_states) {""", """    std::vector<std::pair<std::string, RationalFunction>> result;

    for (auto & rec : reconst) {
      if (std::get<1>(rec) == DONE) {
        std::lock_guard<std::mutex> lock_clean(clean);

        if (save_states) {""")],
 "early results taken by another thread while the reconstruction fills or cleans its list of functions (interleaving)",
 "the list of functions is walked through without the lock: it is read while it grows, and functions are read after they have been deleted",
 sh=TS, files={"demo.cpp": "#include <atomic>\n" + BB.lstrip("\n").replace("static long calls = 0, stop_at = -1;", "static std::atomic<long> calls {0};\nstatic long stop_at = -1;") + r'''
#include <thread>
#include <atomic>
int main(int argc, char** argv) {
  std::vector<std::string> v {"x", "y"}, f {"(1+x*y)/(3+x)", "7*x^2", "(x+y)/(x-y+1)", "123456789012345678901234567890123456789*x+y", "y^3/(1+x)"};
  BB bb(f, v);
  Reconstructor<BB> r(2, 2, bb, Reconstructor<BB>::SILENT);
  std::atomic<bool> end {false};
  std::thread t([&]() { while (!end.load(std::memory_order_relaxed)) { r.get_early_results(); usleep(20); } });
  r.reconstruct();
  end.store(true, std::memory_order_relaxed);
  t.join();
  return 0;
}
'''})

seed("C02-a", "C02", [(R, """          result.back().set_var_order(optimal_var_order);
        }

        if (factors_rf.find(std::get<0>(rec)) != factors_rf.end()) {
          for (const auto& factor : factors_rf[std::get<0>(rec)]) {
            result.back().add_factor(factor);
          }
        }
      }
    }

    return result;
  }

  template<typename BlackBoxTemp>
  std::vector<RationalFunctionFF> Reconstructor<BlackBoxTemp>::get_result_ff() {
""", """          // Factors are attached in the original order of the variables
          if (factors_rf.find(std::get<0>(rec)) != factors_rf.end()) {
            result.back().set_var_order(optimal_var_order);
          }
        }

        if (factors_rf.find(std::get<0>(rec)) != factors_rf.end()) {
          for (const auto& factor : factors_rf[std::get<0>(rec)]) {
            result.back().add_factor(factor);
          }
        }
      }
    }

    return result;
  }

  template<typename BlackBoxTemp>
  std::vector<RationalFunctionFF> Reconstructor<BlackBoxTemp>::get_result_ff() {
""")],
 "the factor scan changes the order of the variables, and the collection has a function without factors",
 "functions without factors are returned with their variables interchanged; without the factor scan they are right",
 demo=BB + r'''
int main() {
  std::vector<std::string> v {"x", "y", "z"}, f {"(1+x*y)*(z+3)/(3+x+y^4*z^2)", "(x+7*y^3*z)/(1+5*x*y+z^2)", "x+2*y"};
  int bad = 0;
  for (int scan = 0; scan != 2; ++scan) {
    BB bb(f, v);
    {
      Reconstructor<BB> r(3, 2, bb, Reconstructor<BB>::SILENT);
      if (scan) r.enable_factor_scan();
      r.reconstruct();
      bad += wrong(r.get_result(), f, v);
    }
    RatReconst::reset();
  }
  return bad != 0;
}
''', cfg="flint")

seed("C18-a", "C18", [(R, """        } else if (anchor_points.size() > static_cast<std::size_t>(prime_it)) {
          std::vector<FFInt> tmp_an_vec;

          for (const auto value : anchor_points[prime_it]) {
            tmp_an_vec.emplace_back(value);
          }

          tmp_rec.set_anchor_points(tmp_an_vec);

          for (auto & rec : reconst) {
            std::get<2>(rec)->set_anchor_points(tmp_an_vec);
          }
        } else {""", """        } else if (anchor_points.size() > static_cast<std::size_t>(prime_it)) {
          std::vector<FFInt> tmp_an_vec;

          for (const auto value : anchor_points[prime_it]) {
            tmp_an_vec.emplace_back(value);
          }

          tmp_rec.set_anchor_points(tmp_an_vec);
        } else {""")],
 "a file with anchor points for more than one prime field and a multivariate function that needs more than one field, so that the field is changed within a call",
 "the functions keep the anchor points of the previous field and are fed values of other points: the result is wrong or never found",
 sh=r'''#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/ffdemo.XXXXXX)
trap 'rm -r -- "$W"' EXIT
cd "$W"
timeout 280 python3 "$D/loop.py"
''', files={"loop.py": r'''
import gzip, os, re, shutil, subprocess, sys
from fractions import Fraction
N = 2
def f(x, y, p=None):
    num = 123456789012345678901234567890 * x * y + 987654321098765432109 * x * x + 5
    den = 7 + 3 * x + 111222333444555666777888999 * y * y
    return Fraction(num, den) if p is None else num * pow(den, -1, p) % p
anch = [[3 ** 20 + 17 * k] for k in range(40)]
sh = [[10 ** 9 + 7 * k, 10 ** 8 + 9 * k] for k in range(40)]
open("anchor_points", "w").write("".join(" ".join(map(str, r)) + "\n" for r in anch))
open("shifts", "w").write("".join(" ".join(map(str, r)) + "\n" for r in sh))
os.mkdir("probes")
p0 = 9223372036854775783
known = {0: {((1,), 5): f(5 + sh[0][0], 5 * anch[0][0] + sh[0][1], p0)}}
primes = {p0: 0}
def write(k):
    with gzip.open("probes/%d.gz" % k, "wt") as g:
        for (o, t), v in known[k].items():
            g.write("%d | %d | %d\n" % (o[0], t, v))
write(0)
for call in range(80):
    if os.path.exists("requested_probes.gz"):
        os.remove("requested_probes.gz")
    shutil.rmtree("ff_save", ignore_errors=True)      # all fields are done within a call
    r = subprocess.run(["/repo/_build/default/firefly", "-v", "2"], capture_output=True, text=True, timeout=60)
    if r.returncode:
        print(r.stderr[-300:]); sys.exit("call %d: status %d" % (call, r.returncode))
    if os.path.exists("result.m"):
        break
    p = int(re.findall(r"F\((\d+)\)", r.stdout + r.stderr)[-1])
    k = primes.setdefault(p, len(primes))
    for l in gzip.open("requested_probes.gz", "rt").read().splitlines():
        o, t, pt = l.split("|")
        x, y = map(int, pt.split())
        known.setdefault(k, {})[(int(o),), int(t)] = f(x, y, p)
    write(k)
else:
    sys.exit("no result after 80 calls")
t = open("result.m").read().strip()[1:-1].strip().rstrip(",").strip()
t = re.sub(r"(?<![A-Za-z0-9_])(\d+)", r"Fraction(\1)", t).replace("^", "**")
for x, y in ((2, 3), (5, 7), (11, 4)):
    if eval(t, {"Fraction": Fraction, "x1": Fraction(x), "x2": Fraction(y)}) != f(x, y):
        sys.exit("wrong result: " + t)
print("right after", call, "calls")
'''})
