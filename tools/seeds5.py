import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
from seeds2 import BB
R = "source/include/firefly/Reconstructor.hpp"

seed("C13-b", "C13", [("source/utils.cpp", """    mpz_class a, n, m1, m2, tmp_c;
    mpz_t tmp;
    n = p1.second * p2.second;
    mpz_init(tmp);
    mpz_invert(tmp, p2.second.get_mpz_t(), p1.second.get_mpz_t());
    tmp_c = mpz_class(tmp);
""", """    mpz_class a, n, m1, m2;
    // The inverse only depends on the moduli, i.e. it is the same for all coefficients of a prime field
    static thread_local mpz_class modulus, tmp_c;
    mpz_t tmp;
    n = p1.second * p2.second;
    mpz_init(tmp);

    if (modulus != p2.second) {
      mpz_invert(tmp, p2.second.get_mpz_t(), p1.second.get_mpz_t());
      tmp_c = mpz_class(tmp);
      modulus = p2.second;
    }

""")],
 "two combinations with the same new modulus but different old moduli, one after the other in a thread",
 "the inverse of the previous combination is used: the residue is not congruent to the two it was made of",
 demo=r'''
#include "firefly/utils.hpp"
#include "firefly/ReconstHelper.hpp"
#include <iostream>
using namespace firefly;
int main() {
  int bad = 0;
  for (int i = 0; i != 5; ++i)
    for (int j = 0; j != 5; ++j) {
      if (i == j) continue;
      // 2^i-th field combined with the j-th one, also products of fields
      mpz_class m1 = mpz_class(std::to_string(primes()[i])) * (i % 2 && j != 7 ? mpz_class(std::to_string(primes()[20 + i])) : mpz_class(1)), m2(std::to_string(primes()[j]));
      mpz_class a1 = mpz_class("123456789012345678901234567890") % m1, a2 = mpz_class("987654321098765432109876543210") % m2;
      auto r = run_chinese_remainder({a1, m1}, {a2, m2});
      if (r.second != m1 * m2 || r.first < 0 || r.first >= r.second || r.first % m1 != a1 || r.first % m2 != a2) { ++bad; std::cout << i << " " << j << " wrong\n"; }
    }
  return bad != 0;
}
''')

seed("C12-b", "C12", [("source/RationalFunction.cpp", """          num_str += "(" + factor.numerator.generate_horner(vars) + ")*";
""", """          num_str += "(" + factor.numerator.generate_horner(vars_ordered) + ")*";
"""), ("source/RationalFunction.cpp", """          den_str += "(" + factor.denominator.generate_horner(vars) + ")*";
""", """          den_str += "(" + factor.denominator.generate_horner(vars_ordered) + ")*";
""")],
 "the Horner form of a function that has both attached factors and another order of its variables",
 "the factors are printed with the variables in the order of the remainder: the text is another function",
 demo=BB + r'''
#include "firefly/RationalFunction.hpp"
int main() {
  typedef std::vector<uint32_t> V;
  rn_map fn, fd, n, d;
  fn.emplace(V {0, 2}, RationalNumber(3, 1)); fn.emplace(V {1, 0}, RationalNumber(5, 7));
  fd.emplace(V {0, 1}, RationalNumber(1, 1)); fd.emplace(V {0, 0}, RationalNumber(11, 1));
  n.emplace(V {3, 1}, RationalNumber(2, 1)); n.emplace(V {0, 0}, RationalNumber(-1, 1));
  d.emplace(V {1, 0}, RationalNumber(1, 1)); d.emplace(V {0, 2}, RationalNumber(13, 1));
  RationalFunction f {Polynomial(fn), Polynomial(fd)}, r {Polynomial(n), Polynomial(d)};
  r.add_factor(f);
  r.set_var_order({{0, 1}, {1, 0}});
  std::vector<std::string> v {"x", "y"};
  // the factor is written in the original order of the variables, the remainder in the other one
  std::vector<std::string> s {r.to_string(v), r.generate_horner(v), "(3*y^2+5/7*x)/(y+11)*(2*y^3*x-1)/(y+13*x^2)"};
  ShuntingYardParser p(s, v);
  p.precompute_tokens();
  int bad = 0;
  for (uint64_t k = 1; k != 6; ++k) {
    auto y = p.evaluate_pre(std::vector<FFInt> {FFInt(k * 7919 + 3), FFInt(k * k * 104729 + 1)});
    if (y[0] != y[2]) { ++bad; std::cout << s[0] << "\n"; }
    if (y[1] != y[2]) { ++bad; std::cout << s[1] << "\n"; }
  }
  return bad != 0;
}
''')

seed("C22-a", "C22", [("source/ShuntingYardParser.cpp", """        line.erase(std::remove(line.begin(), line.end(), '\\t'), line.end());
        line.erase(std::remove(line.begin(), line.end(), '\\n'), line.end());
""", """        line.erase(std::remove(line.begin(), line.end(), '\\t'), line.end());
        // Functions are separated by line breaks
        line.erase(0, line.find_first_not_of('\\n'));
        line.erase(line.find_last_not_of('\\n') + 1);
""")],
 "a converted list in which Mathematica broke a line within an expression or a number",
 "the line break stays in the expression: it is refused or its value is another one",
 demo=BB, sh=r'''
#!/bin/bash
# Converts a list that is broken into lines and compares the functions read with the expected ones.
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/ffdemo.XXXXXX)
trap 'rm -r -- "$W"' EXIT
cd "$W"
g++ -pthread -O1 -std=gnu++14 -I/repo/source/include -I/repo/_build/default/include "$D/demo.cpp" /repo/_build/default/libfirefly.a -lgmp -lz -o demo
printf '{x + y*12345678\\\n9 - 3, (x^2 + \n  7)/(y - x), "x*y +\n 1"}\n' > list
bash /repo/mma_2_ff/convert_to_sy.sh list
timeout 60 ./demo
''', files={"demo.cpp": BB.lstrip("\n") + r'''
int main() {
  std::vector<std::string> v {"x", "y"}, f {"x+y*123456789-3", "(x^2+7)/(y-x)", "x*y+1"};
  ShuntingYardParser a("list_c", v), b(f, v);
  a.precompute_tokens();
  b.precompute_tokens();
  int bad = 0;
  for (uint64_t k = 1; k != 6; ++k) {
    std::vector<FFInt> x {FFInt(k * 7919 + 3), FFInt(k * k * 104729 + 1)};
    auto y = a.evaluate_pre(x), z = b.evaluate_pre(x);
    if (y.size() != 3 || z.size() != 3) return 2;
    for (size_t i = 0; i != 3; ++i) if (y[i] != z[i]) { ++bad; std::cout << "function " << i << " is wrong\n"; }
  }
  return bad != 0;
}
'''})

seed("C03-c", "C03", [("source/RatReconst.cpp", """        std::queue<std::tuple<FFInt, FFInt, std::vector<uint32_t>>> tmp_;
        saved_food.swap(tmp_);

""", "")],
 "a run with saved states that takes longer than half an hour in a prime field after the first one (probes are written), and is then interrupted and resumed",
 "probes of the previous prime field are written to the file of the current one: the resumed run returns other functions or never ends",
 demo=BB + r'''
#include <sys/syscall.h>
#include <time.h>
#include <dirent.h>
static bool fast = false;
static long jump = 0;
// The clock of the program: in a fast run half an hour passes with every reading once probes of the second field are evaluated
extern "C" int clock_gettime(clockid_t id, struct timespec* t) {
  int r = syscall(SYS_clock_gettime, id, t);
  if (fast) t->tv_sec += (jump += 2000);
  return r;
}
static int child(bool resume, long stop, bool fast_) {
  std::vector<std::string> v {"x", "y"}, f {"(x*y^2+1234567890123456789012345678901234567890123456789012345678901234567890*y^2+x^3+1)/(x^2+3*y+17)"};
  fast = fast_;
  alarm(20);
  stop_at = stop;
  BB bb(f, v);
  Reconstructor<BB> rec(2, 1, 1, bb, Reconstructor<BB>::SILENT);
  rec.set_tags({"f"});
  if (resume) rec.resume_from_saved_state();
  rec.reconstruct();
  return wrong(rec.get_result(), f, v) ? 5 : 0;
}
static int run(bool resume, long stop, bool fast_) {
  pid_t pid = fork();
  if (pid == 0) _exit(child(resume, stop, fast_));
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + st;
}
int main() {
  int bad = 0;
  for (long k = 20; k < 200 && bad < 2; k += 6) {
    if (system("find . -depth -path './ff_save*' -delete")) return 9;
    int a = run(false, k, true);
    if (a == 0) break;
    if (a != 77) { ++bad; std::cout << k << ": first run " << a << "\n"; continue; }
    int b = run(true, -1, false);
    if (b != 0 && b != 1) { ++bad; std::cout << k << ": resumed run " << b << "\n"; }
  }
  return bad != 0;
}
''')
