import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed

seed("C13-a", "C13", [("source/utils.cpp", "if (2 * newt * newt > p || gcd(newr, newt) != 1) {", "// newr and newt are coprime by construction of the extended Euclidean algorithm\n    if (newt == 0 || 2 * newt * newt > p) {")],
 "a modulus that is not prime (a product of primes, as after the Chinese remainder theorem) and a residue which shares a factor with it: then the remainder and the cofactor of the Euclidean algorithm are not coprime",
 "get_rational_coef reports success with a fraction that does not reduce to the residue",
 '''
#include "firefly/utils.hpp"
#include <iostream>
using namespace firefly;
int main() {
  // every residue modulo a few composite moduli: a reported fraction has to reduce to the residue
  int bad = 0;
  for (unsigned m : {15u, 77u, 221u, 1001u, 2431u}) {
    mpz_class M(m);
    for (unsigned u = 0; u != m; ++u) {
      auto r = get_rational_coef(mpz_class(u), M);
      if (!r.first) continue;
      mpz_class d = (r.second.numerator - mpz_class(u) * r.second.denominator) % M;
      mpz_class g = gcd(r.second.denominator, M), h = gcd(r.second.numerator, r.second.denominator);
      if (d != 0 || g != 1 || h != 1) ++bad;
    }
  }
  std::cout << bad << " wrong fractions\\n";
  return bad != 0;
}
''')

seed("C08-a", "C08", [("source/FFInt.cpp", "      // special case: the parsed value fits into n, but is >= p\n      n %= p;", "      // special case: the parsed value fits into n, but is >= p\n      n -= p;")],
 "a number given as a string with a value between twice the prime and 2^64",
 "construction of a field element from a string gives a value that is not the canonical representative",
 '''
#include "firefly/FFInt.hpp"
#include "firefly/ReconstHelper.hpp"
#include <iostream>
using namespace firefly;
int main() {
  int bad = 0;
  for (int k : {0, 1, 99, 299}) {
    FFInt::set_new_prime(primes()[k]);
    mpz_class p(std::to_string(FFInt::p));
    for (const mpz_class& z : {mpz_class(p - 1), mpz_class(p), mpz_class(p + 1), mpz_class(p + 12345), mpz_class(2 * p - 1), mpz_class(2 * p), mpz_class("18446744073709551614"), mpz_class("18446744073709551615"), mpz_class("18446744073709551616")}) {
      mpz_class e = z % p;
      if (mpz_class(std::to_string(FFInt(z.get_str(), {}).n)) != e) { ++bad; std::cout << z.get_str() << " is wrong\\n"; }
    }
  }
  return bad != 0;
}
''')

seed("C09-a", "C09", [("source/FFIntVec.cpp", """  FFIntVec<N> operator/(const FFIntVec<N>& a, const FFIntVec<N>& b) {
    FFIntVec<N> result(a);

    for (int i = 0; i != N; ++i) {
      result.vec[i] /= b.vec[i];
    }

    return result;
  }
""", """  FFIntVec<N> operator/(const FFIntVec<N>& a, const FFIntVec<N>& b) {
    FFIntVec<N> result(a);

    // Invert all lanes with a single modular inversion
    FFIntVec<N> prod(b);

    for (int i = 1; i != N; ++i) {
      prod.vec[i] *= prod.vec[i - 1];
    }

    FFInt inv = FFInt(1) / prod.vec[N - 1];

    for (int i = N - 1; i != 0; --i) {
      result.vec[i] *= inv * prod.vec[i - 1];
      inv *= b.vec[i];
    }

    result.vec[0] *= inv;

    return result;
  }
""")],
 "a bunch quotient in which one lane of the divisor is zero (a pole of the black box hit by one point of the bunch)",
 "the zero lane poisons all other lanes of the quotient",
 '''
#include "firefly/FFIntVec.hpp"
#include "firefly/ReconstHelper.hpp"
#include <iostream>
using namespace firefly;
int main() {
  FFInt::set_new_prime(primes()[1]);
  int bad = 0;
  std::array<FFInt, 8> a, b;
  for (int i = 0; i != 8; ++i) { a[i] = FFInt(uint64_t(17 + 5 * i)); b[i] = FFInt(uint64_t(i == 3 ? 0 : 1000 + i)); }
  FFIntVec<8> q = FFIntVec<8>(a) / FFIntVec<8>(b);
  for (int i = 0; i != 8; ++i) if (b[i] != 0 && q[i] != a[i] / b[i]) { ++bad; std::cout << "lane " << i << " is wrong\\n"; }
  return bad != 0;
}
''')

seed("C10-a", "C10", [("source/ShuntingYardParser.cpp", "	      v_2.insert(v_2.end(), v_1.begin(), v_1.end());\n	      v_2.emplace_back(\"/\");\n", "	      v_2.emplace_back(v_1.front());\n	      v_2.emplace_back(\"/\");\n")],
 "an expression with a rational number whose denominator is a rational number itself (3/(5/7)), evaluated with precomputed tokens after a change of the prime field",
 "the refreshed number misses a part of its definition, so the function has another value in the second and all later prime fields",
 '''
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/ReconstHelper.hpp"
#include <iostream>
using namespace firefly;
int main() {
  FFInt::set_new_prime(primes()[0]);
  ShuntingYardParser par(std::vector<std::string> {"x*(3/(5/7))+1", "(2/3)/(4/(9/8))-x/7"}, {"x"});
  int bad = 0;
  for (int k = 0; k != 3; ++k) {
    FFInt::set_new_prime(primes()[k]);
    par.precompute_tokens();
    FFInt x(uint64_t(12345));
    auto r = par.evaluate_pre(std::vector<FFInt> {x});
    FFInt e0 = x * FFInt(uint64_t(21)) / FFInt(uint64_t(5)) + FFInt(uint64_t(1));
    FFInt e1 = FFInt(uint64_t(3)) / FFInt(uint64_t(16)) - x / FFInt(uint64_t(7));
    if (r[0] != e0 || r[1] != e1) { ++bad; std::cout << "prime " << k << ": " << r[0].n << " " << r[1].n << "\\n"; }
  }
  return bad != 0;
}
''')

seed("C12-a", "C12", [("source/HornerGenerator.cpp", """	        horner_coef += monomials.at({max_deg}).numerator != 1 || monomials.at({max_deg}).denominator != 1 ? monomials.at({tmp_deg}).string() + "*" + var : var;
""", """	        horner_coef += monomials.at({max_deg}).numerator != 1 ? monomials.at({tmp_deg}).string() + "*" + var : var;
""")],
 "a Horner form in which the innermost (univariate) polynomial has a single power of the variable with a coefficient 1/k",
 "the Horner text drops the coefficient 1/k",
 '''
#include "firefly/Polynomial.hpp"
#include "firefly/RationalFunction.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/ReconstHelper.hpp"
#include <iostream>
using namespace firefly;
int main() {
  FFInt::set_new_prime(primes()[0]);
  rn_map m;
  m[{2, 1}] = RationalNumber(mpz_class(1), mpz_class(7));
  m[{2, 0}] = RationalNumber(mpz_class(3), mpz_class(1));
  m[{0, 3}] = RationalNumber(mpz_class(1), mpz_class(3));
  Polynomial p(m);
  std::string h = p.generate_horner({"x", "y"});
  ShuntingYardParser par(std::vector<std::string> {h}, {"x", "y"});
  par.precompute_tokens();
  FFInt x(uint64_t(12345)), y(uint64_t(777));
  FFInt e = x.pow(FFInt(uint64_t(2))) * y / FFInt(uint64_t(7)) + FFInt(uint64_t(3)) * x * x + y * y * y / FFInt(uint64_t(3));
  auto r = par.evaluate_pre(std::vector<FFInt> {x, y});
  std::cout << h << "\\n";
  return r[0] != e;
}
''')

seed("C14-a", "C14", [("source/RationalNumber.cpp", """      numerator = numerator * rn.denominator + rn.numerator * denominator;
      denominator = denominator * rn.denominator;
    } else numerator += rn.numerator;

    mpz_class gcd_(gcd(numerator, denominator));
    numerator = numerator / gcd_;
    denominator = denominator / gcd_;
    return *this;
""", """      numerator = numerator * rn.denominator + rn.numerator * denominator;
      denominator = denominator * rn.denominator;

      mpz_class gcd_(gcd(numerator, denominator));
      numerator = numerator / gcd_;
      denominator = denominator / gcd_;
    } else numerator += rn.numerator; // the common denominator is kept

    return *this;
""")],
 "a sum of two fractions with the same denominator whose sum can be reduced (1/4 + 1/4)",
 "the sum is not in lowest terms, so it is not equal to the same number obtained otherwise",
 '''
#include "firefly/RationalNumber.hpp"
#include <iostream>
using namespace firefly;
int main() {
  int bad = 0;
  for (int d = 1; d != 40; ++d) for (int a = -20; a != 20; ++a) for (int b = -20; b != 20; ++b) {
    if (gcd(mpz_class(a), mpz_class(d)) != 1 || gcd(mpz_class(b), mpz_class(d)) != 1) continue;
    RationalNumber x {mpz_class(a), mpz_class(d)}, y {mpz_class(b), mpz_class(d)};
    x += y;
    RationalNumber e {mpz_class(a + b), mpz_class(d)};
    if (!(x == e)) ++bad;
  }
  std::cout << bad << " wrong sums\\n";
  return bad != 0;
}
''')

seed("C14-b", "C14", [("source/PolynomialFF.cpp", """  PolynomialFF& PolynomialFF::operator*=(const FFInt& ffint) {
    for (auto & el : coefs) {
      el.second *= ffint;
    }

    if(coefs.size() > 50)
      generate_new_horner = true;

    eval_horner = false;

    return *this;
""", """  PolynomialFF& PolynomialFF::operator*=(const FFInt& ffint) {
    for (auto & el : coefs) {
      el.second *= ffint;
    }

    return *this;
""")],
 "a polynomial with more than 50 terms that has been evaluated with calc_n_m_1 before it is scaled, and is evaluated with calc_n_m_1 again afterwards",
 "the second evaluation uses the Horner form of the polynomial before the scaling",
 '''
#include "firefly/PolynomialFF.hpp"
#include "firefly/ReconstHelper.hpp"
#include <iostream>
using namespace firefly;
int main() {
  FFInt::set_new_prime(primes()[0]);
  ff_map m;
  for (uint32_t i = 0; i != 10; ++i) for (uint32_t j = 0; j != 10; ++j) m[{i, j, 20 - i - j}] = FFInt(uint64_t(3 + 7 * i + 11 * j * j));
  PolynomialFF p(3, m);
  std::vector<FFInt> x {FFInt(uint64_t(123)), FFInt(uint64_t(456))};
  FFInt a = p.calc_n_m_1(x);
  p *= FFInt(uint64_t(9));
  FFInt b = p.calc_n_m_1(x);
  return b != a * FFInt(uint64_t(9));
}
''')

seed("C15-a", "C15", [("source/include/firefly/DenseSolver.hpp", """      // make all rows below this one 0 in current column
      for (int k = i + 1; k < n; ++k) {
        FFIntTemp c = -a[k][i] / a[i][i];

        for (int j = i; j < 2 * n; ++j) {
""", """      // make all rows below this one 0 in current column
      for (int k = i + 1; k < n; ++k) {
        // nothing left to eliminate
        if (a[k][i] == FFIntTemp(0))
          break;

        FFIntTemp c = -a[k][i] / a[i][i];

        for (int j = i; j < 2 * n; ++j) {
""")],
 "a regular matrix with a zero in a column below the pivot, above a non-zero entry of the same column",
 "calc_inverse skips the elimination of the remaining rows and returns a matrix which is not the inverse",
 '''
#include "firefly/FFInt.hpp"
#include "firefly/DenseSolver.hpp"
#include "firefly/ReconstHelper.hpp"
#include <iostream>
using namespace firefly;
int main() {
  FFInt::set_new_prime(primes()[0]);
  int v[4][4] = {{9, 1, 2, 3}, {0, 5, 1, 4}, {2, 7, 8, 1}, {1, 0, 3, 6}};
  mat_ff<FFInt> a(4, std::vector<FFInt>(4)), b;
  for (int i = 0; i != 4; ++i) for (int j = 0; j != 4; ++j) a[i][j] = FFInt(uint64_t(v[i][j]));
  b = a;
  calc_inverse(a, 4);
  int bad = 0;
  for (int i = 0; i != 4; ++i) for (int j = 0; j != 4; ++j) {
    FFInt s = 0;
    for (int k = 0; k != 4; ++k) s += b[i][k] * a[k][j];
    if (s.n != (i == j ? 1u : 0u)) ++bad;
  }
  return bad != 0;
}
''')

seed("C19-a", "C19", [("source/PolyReconst.cpp", """                for (const auto & el : combined_ci) {
                  if (ci_tmp.find(el.first) == ci_tmp.end() && gi.find(el.first) == gi.end()) {
                    ci_tmp.emplace(std::make_pair(el.first, 0));
                  }
                }

""", "")],
 "a polynomial with a coefficient divisible by the second prime which needs at least two primes for its reconstruction (the term is missing in the interpolation over the second field)",
 "the coefficient is not combined with its zero residue of the second field and comes out wrong, or the reconstruction never ends",
 '''
#include "firefly/PolyReconst.hpp"
#include "firefly/ReconstHelper.hpp"
#include <iostream>
using namespace firefly;
int main() {
  FFInt::set_new_prime(primes()[0]);
  PolyReconst rec(2, 2);
  rec.set_seed(7);
  rec.generate_anchor_points();
  mpz_class big(std::to_string(primes()[1]));
  big *= 12345;
  mpz_class other("123456789012345678901234567890");
  uint32_t prime = 0, fed = 0;
  while (!rec.is_done()) {
    if (rec.get_prime() != prime) {
      prime = rec.get_prime();
      if (prime > 10) return 1;
      FFInt::set_new_prime(primes()[prime]);
      rec.generate_anchor_points();
    }
    if (++fed > 5000) return 1;
    auto zi = rec.get_zi_order();
    auto v = rec.get_rand_zi_vec(zi);
    FFInt x = v[0], y = v[1];
    rec.feed(FFInt(other) * x * x + FFInt(big) * x * y + FFInt(uint64_t(7)) * y, zi, rec.get_prime());
    rec.interpolate();
  }
  Polynomial p = rec.get_result();
  bool ok = p.coefs.size() == 3;
  for (const auto& m : p.coefs) {
    mpz_class e = m.powers[0] == 2 ? other : m.powers[0] == 1 ? big : mpz_class(7);
    if (m.coef.numerator != e || m.coef.denominator != 1) ok = false;
  }
  std::cout << p.to_string({"x", "y"}) << "\\n";
  return !ok;
}
''')
