import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
BB = '''
#include "firefly/Reconstructor.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/DenseSolver.hpp"
#include <iostream>
#include <unistd.h>
#include <sys/wait.h>
using namespace firefly;
static long calls = 0, stop_at = -1;
class BB : public BlackBoxBase<BB> {
public:
  BB(const std::vector<std::string>& f, const std::vector<std::string>& v) : par(f, v) {}
  template<typename T> std::vector<T> operator()(const std::vector<T>& x) {
    if (calls++ == stop_at) _exit(77);
    return par.evaluate_pre(x);
  }
  void prime_changed() { par.precompute_tokens(); }
  ShuntingYardParser par;
};
// number of functions whose reconstructed form differs from the expected one at a few points
static int wrong(const std::vector<RationalFunction>& r, const std::vector<std::string>& f, const std::vector<std::string>& v) {
  int bad = 0;
  if (r.size() != f.size()) return 1000;
  FFInt::set_new_prime(primes()[200]);
  for (size_t i = 0; i != f.size(); ++i) {
    ShuntingYardParser p(std::vector<std::string> {f[i], r[i].to_string(v)}, v);
    p.precompute_tokens();
    bool ok = true;
    for (uint64_t k = 1; k != 6; ++k) {
      std::vector<FFInt> x;
      for (size_t j = 0; j != v.size(); ++j) x.emplace_back(FFInt(uint64_t(1000003) * k * k + 7919 * j * k + 13 * j));
      auto y = p.evaluate_pre(x);
      if (y[0] != y[1]) ok = false;
    }
    if (!ok) { ++bad; std::cout << "function " << i << " is wrong: " << r[i].to_string(v) << "\\n"; }
  }
  return bad;
}
'''
P = ["9223372036854775783", "9223372036854775643", "9223372036854775549"]
seed("C01-a", "C01", [("source/PolynomialFF.cpp", """    FFInt res = 1;

    // Since C(n, k) = C(n, n-k)
    if (k > n - k)
      k = n - k;

    // Calculate value of [n * (n-1) *---* (n-k+1)] / [k * (k-1) *----* 1]
    for (uint32_t i = 0; i < k; ++i) {
      res *= (FFInt(n) - FFInt(i));
      res /= (FFInt(i) + FFInt(1));
    }

    return res;
""", """    unsigned __int128 res = 1;

    // Since C(n, k) = C(n, n-k)
    if (k > n - k)
      k = n - k;

    // Calculate value of [n * (n-1) *---* (n-k+1)] / [k * (k-1) *----* 1]
    // All intermediate results are integers, so no modular inversion is needed
    for (uint32_t i = 0; i < k; ++i) {
      res *= n - i;
      res /= i + 1;
    }

    return FFInt(static_cast<uint64_t>(res % FFInt::p));
""")],
 "a multivariate function that needs a variable shift (no constant term) with a power above 125 in one variable: the binomial coefficients do not fit into 128 bits",
 "the shift is removed wrongly: the reconstruction does not find the function",
 BB + '''
int main() {
  std::vector<std::string> f {"(x^150+3*y)/(x^131*y+5*x^3+7*y^2)", "(x^30+3*y)/(x^5*y+5*x^3+7*y^2)"};
  int bad = 0;
  for (const auto& g : f) {
    pid_t pid = fork();
    if (pid == 0) {
      alarm(60);
      std::vector<std::string> v {"x", "y"};
      BB bb({g}, v);
      Reconstructor<BB> rec(2, 1, 1, bb, Reconstructor<BB>::SILENT);
      rec.reconstruct();
      _exit(wrong(rec.get_result(), {g}, v) != 0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::cout << g << " status " << st << "\\n";
    if (st != 0) ++bad;
  }
  return bad != 0;
}
''')

seed("C03-a", "C03", [("source/RatReconst.cpp", "    file << \"combined_primes_di\\n\";\n\n    for (const auto & el : combined_primes_di) {", "    file << \"combined_primes_di\\n\";\n\n    for (const auto & el : combined_primes_ni) {")],
 "safe interpolation mode, state saving, and a run interrupted after the second prime field and resumed: the moduli of the denominator coefficients are lost in the saved state",
 "the resumed run combines denominator coefficients with a wrong modulus: it returns different functions or never ends",
 BB + '''
int main() {
  std::vector<std::string> f {"(7*x^2+13/17*y*x+123456789012345678901234567890123/7)/(x*y+987654321098765432109876543210987654321/11*y^3+19*x^4+3)"}, v {"x", "y"};
  bool done = false;
  // interrupted after every 25 evaluations and resumed
  for (int round = 0; round != 60 && !done; ++round) {
    pid_t pid = fork();
    if (pid == 0) {
      alarm(60);
      BB bb(f, v);
      Reconstructor<BB> rec(2, 1, 1, bb, Reconstructor<BB>::SILENT);
      rec.set_safe_interpolation();
      rec.set_tags();
      rec.resume_from_saved_state();
      stop_at = calls + 25;
      rec.reconstruct();
      stop_at = -1;
      _exit(wrong(rec.get_result(), f, v) ? 1 : 0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) continue;
    std::cout << "round " << round << " status " << st << "\\n";
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) return 1;
    done = true;
  }
  return !done;
}
''')

seed("C04-a", "C04", [("source/include/firefly/Reconstructor.hpp", "        while (std::getline(validation_file, line)) {\n          if (counter", "        while (counter != result.size() && std::getline(validation_file, line)) {\n          if (counter")],
 "a saved run resumed with a black box that has the same first functions but fewer of them",
 "the resume is not refused (the entries of the validation file that have no partner are not looked at)",
 BB + '''
static int child(const std::vector<std::string>& f, const std::vector<std::string>& v, long stop) {
  pid_t pid = fork();
  if (pid == 0) {
    alarm(60);
    BB bb(f, v);
    Reconstructor<BB> rec(2, 1, 1, bb, Reconstructor<BB>::SILENT);
    rec.set_tags();
    rec.resume_from_saved_state();
    stop_at = stop;
    rec.reconstruct();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
int main() {
  std::vector<std::string> v {"x", "y"}, f {"(x+3*y)/(x*y+7)", "123456789012345678901234567890123*x+5*y", "(x+5)/(3*x*y+987654321098765432109876543210)"};
  std::vector<std::string> g(f.begin(), f.begin() + 2);
  int a = child(f, v, 12);
  int b = child(g, v, 1000000);
  std::cout << "first run " << a << ", resumed with fewer functions " << b << "\\n";
  return !(a == 77 && b == 1);
}
''')

seed("C06-a", "C06", [("source/include/firefly/Reconstructor.hpp", """        if (factors_rf.find(std::get<0>(rec)) != factors_rf.end()) {
          for (const auto& factor : factors_rf[std::get<0>(rec)]) {
            result.back().second.add_factor(factor);
          }
        }

        // TODO delete or clear memory?
""", """        const uint32_t pos = static_cast<uint32_t>(result.size()) - 1;

        if (factors_rf.find(pos) != factors_rf.end()) {
          for (const auto& factor : factors_rf[pos]) {
            result.back().second.add_factor(factor);
          }
        }

        // TODO delete or clear memory?
""")],
 "the factor scan, several functions of which only a later one is finished when early results are taken (here: a first function with larger coefficients, stopped after a number of prime fields)",
 "a function handed out early gets the factors of another function",
 BB + '''
int main() {
  std::vector<std::string> v {"x", "y"}, f {"(x+3)*(123456789012345678901234567890123456789*y*x+7*y^2+1)/(y+5)", "(x+11)*(y*x+2)/(y+13)"};
  BB bb(f, v);
  Reconstructor<BB> rec(2, 1, 1, bb, Reconstructor<BB>::SILENT);
  rec.enable_factor_scan();
  rec.reconstruct(2);
  auto early = rec.get_early_results();
  std::cout << early.size() << " early results\\n";
  if (early.size() != 1) return early.size() == 0 ? 2 : 3;
  return wrong({early[0].second}, {f[1]}, v) != 0;
}
''', cfg="flint")
