// Line-oriented driver for the arithmetic layers: every input line is one operation, every
// output line its result.  What is right is decided by the python side.
#include "firefly/DenseSolver.hpp"
#include "firefly/FFInt.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/FFThieleInterpolator.hpp"
#include "firefly/HornerGenerator.hpp"
#include "firefly/Monomial.hpp"
#include "firefly/Poly.hpp"
#include "firefly/Polynomial.hpp"
#include "firefly/PolynomialFF.hpp"
#include "firefly/RationalFunction.hpp"
#include "firefly/RationalFunctionFF.hpp"
#include "firefly/RationalNumber.hpp"
#include "firefly/ReconstHelper.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/utils.hpp"

#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>

using namespace firefly;
typedef std::istringstream In;
typedef std::ostringstream Out;

static void bad(const std::string& w) { std::cerr << "bad op: " << w << "\n"; _exit(99); }
static uint64_t u64(In& s) { uint64_t v; if (!(s >> v)) bad("u64"); return v; }
static int64_t i64(In& s) { int64_t v; if (!(s >> v)) bad("i64"); return v; }
static std::string word(In& s) { std::string v; if (!(s >> v)) bad("word"); return v; }
static mpz_class big(In& s) { return mpz_class(word(s)); }
// a residue is stored directly, so that operations do not depend on the constructor under test
static FFInt res(In& s) { FFInt f; f.n = u64(s); return f; }
static std::vector<FFInt> resv(In& s, size_t n) { std::vector<FFInt> v; for (size_t i = 0; i < n; ++i) v.push_back(res(s)); return v; }

// ---- field elements -----------------------------------------------------------------------
static void ff_ctor(In& s, Out& o) {
  std::string t = word(s);
  if (t == "i16") o << FFInt((int16_t)i64(s)).n;
  else if (t == "i32") o << FFInt((int32_t)i64(s)).n;
  else if (t == "u32") o << FFInt((uint32_t)u64(s)).n;
  else if (t == "i64") o << FFInt((int64_t)i64(s)).n;
  else if (t == "u64") o << FFInt((uint64_t)u64(s)).n;
  else if (t == "z") o << FFInt(big(s)).n;
  else if (t == "s") { std::string w = word(s); o << FFInt(w, std::vector<std::pair<std::string, uint64_t>>()).n; }
  else if (t == "sr") { std::string w = word(s); uint64_t v = u64(s); o << FFInt(w, std::vector<std::pair<std::string, uint64_t>>({{"other", 5}, {w, v}, {w + "x", 7}})).n; }
  else if (t == "as") { FFInt f; f = FFInt((int64_t)i64(s)); FFInt g(f); o << g.n; }
  else bad(t);
}
static void ff_bin(In& s, Out& o) {
  std::string op = word(s);
  FFInt a = res(s), b = res(s);
  if (op == "+") o << (a + b).n;
  else if (op == "-") o << (a - b).n;
  else if (op == "*") o << (a * b).n;
  else if (op == "/") o << (a / b).n;
  else if (op == "+=") { FFInt& r = (a += b); o << a.n << " " << r.n; }
  else if (op == "-=") { FFInt& r = (a -= b); o << a.n << " " << r.n; }
  else if (op == "*=") { FFInt& r = (a *= b); o << a.n << " " << r.n; }
  else if (op == "/=") { FFInt& r = (a /= b); o << a.n << " " << r.n; }
  else if (op == "<") o << (a < b);
  else if (op == "<=") o << (a <= b);
  else if (op == ">") o << (a > b);
  else if (op == ">=") o << (a >= b);
  else if (op == "==") o << (a == b);
  else if (op == "!=") o << (a != b);
  else bad(op);
  o << " | " << b.n;
}
static void ff_self(In& s, Out& o) {   // both operands are the same object
  std::string op = word(s);
  FFInt a = res(s);
  if (op == "+=") a += a; else if (op == "-=") a -= a; else if (op == "*=") a *= a; else if (op == "/=") a /= a; else bad(op);
  o << a.n;
}
static void ff_un(In& s, Out& o) {
  std::string op = word(s);
  FFInt a = res(s);
  if (op == "neg") o << (-a).n;
  else if (op == "pos") o << (+a).n;
  else if (op == "not") o << (!a);
  else if (op == "out") o << a;
  else if (op == "++x") { FFInt r = ++a; o << r.n << " " << a.n; }
  else if (op == "--x") { FFInt r = --a; o << r.n << " " << a.n; }
  else if (op == "x++") { FFInt r = a++; o << r.n << " " << a.n; }
  else if (op == "x--") { FFInt r = a--; o << r.n << " " << a.n; }
  else bad(op);
}
static void ff_pow(In& s, Out& o) {
  std::string t = word(s);
  bool fr = word(s) == "free";
  FFInt a = res(s);
#define PW(T, read) { T e = (T)read(s); FFInt r = fr ? firefly::pow(a, e) : a.pow(e); o << r.n; }
  if (t == "i32") PW(int, i64)
  else if (t == "u32") PW(uint32_t, u64)
  else if (t == "i64") PW(int64_t, i64)
  else if (t == "u64") PW(uint64_t, u64)
  else if (t == "ff") { FFInt e = res(s); FFInt r = fr ? firefly::pow(a, e) : a.pow(e); o << r.n; }
  else bad(t);
  o << " | " << a.n;
}

// ---- bunches -------------------------------------------------------------------------------
template<int N> static FFIntVec<N> vec(In& s) { FFIntVec<N> v; for (int i = 0; i < N; ++i) v.vec[i] = res(s); return v; }
template<int N> static void pv(Out& o, const FFIntVec<N>& v) { for (int i = 0; i < N; ++i) o << v.vec[i].n << (i + 1 < N ? " " : ""); }
template<int N> static void v_op(In& s, Out& o) {
  std::string k = word(s), op = word(s);
  typedef FFIntVec<N> V;
  if (k == "vv" || k == "vs" || k == "sv") {
    if (k == "vv") {
      V a = vec<N>(s), b = vec<N>(s);
      if (op == "+") pv(o, a + b); else if (op == "-") pv(o, a - b); else if (op == "*") pv(o, a * b); else if (op == "/") pv(o, a / b);
      else if (op == "+=") { V& r = (a += b); pv(o, r); } else if (op == "-=") { V& r = (a -= b); pv(o, r); }
      else if (op == "*=") { V& r = (a *= b); pv(o, r); } else if (op == "/=") { V& r = (a /= b); pv(o, r); }
      else if (op == "==") o << (a == b); else if (op == "!=") o << (a != b);
      else if (op == "pow") pv(o, a.pow(b)); else if (op == "fpow") pv(o, firefly::pow(a, b));
      else bad(op);
      o << " | "; pv(o, a); o << " | "; pv(o, b);
    } else if (k == "vs") {
      V a = vec<N>(s); FFInt b = res(s);
      if (op == "+") pv(o, a + b); else if (op == "-") pv(o, a - b); else if (op == "*") pv(o, a * b); else if (op == "/") pv(o, a / b);
      else if (op == "+=") pv(o, a += b); else if (op == "-=") pv(o, a -= b); else if (op == "*=") pv(o, a *= b); else if (op == "/=") pv(o, a /= b);
      else if (op == "pow") pv(o, a.pow(b));
      else bad(op);
      o << " | "; pv(o, a); o << " | " << b.n;
    } else {
      FFInt b = res(s); V a = vec<N>(s);
      if (op == "+") pv(o, b + a); else if (op == "-") pv(o, b - a); else if (op == "*") pv(o, b * a); else if (op == "/") pv(o, b / a);
      else bad(op);
      o << " | "; pv(o, a); o << " | " << b.n;
    }
  } else if (k == "self") {
    V a = vec<N>(s);
    if (op == "+=") a += a; else if (op == "-=") a -= a; else if (op == "*=") a *= a; else if (op == "/=") a /= a;
    else if (op == "+") a = a + a; else if (op == "-") a = a - a; else if (op == "*") a = a * a; else if (op == "/") a = a / a;
    else if (op == "powv") a = a.pow(a); else if (op == "=") { V& b = a; a = b; }
    else bad(op);
    pv(o, a);
  } else if (k == "lane") {              // the scalar operand is one of the bunch's own lanes
    V a = vec<N>(s); int l = (int)u64(s);
    if (op == "+") pv(o, a + a.vec[l]); else if (op == "-") pv(o, a - a.vec[l]); else if (op == "*") pv(o, a * a.vec[l]); else if (op == "/") pv(o, a / a.vec[l]);
    else if (op == "*=") { a *= a.vec[l]; pv(o, a); } else if (op == "+=") { a += a.vec[l]; pv(o, a); } else if (op == "-=") { a -= a.vec[l]; pv(o, a); } else if (op == "/=") { a /= a.vec[l]; pv(o, a); }
    else bad(op);
  } else if (k == "un") {
    V a = vec<N>(s);
    if (op == "neg") pv(o, -a); else if (op == "pos") pv(o, +a); else if (op == "not") o << !a;
    else if (op == "out") o << a; else if (op == "size") o << a.size();
    else if (op == "copy") { V b(a); V c; c = b; V d(std::move(b)); V e; e = std::move(c); pv(o, d); o << " ; "; pv(o, e); }
    else if (op == "iter") { for (auto& x : a) x += FFInt(1); const V& ca = a; bool f = true; for (const auto& x : ca) { o << (f ? "" : " ") << x.n; f = false; } }
    else if (op == "index") { const V& ca = a; for (int i = 0; i < N; ++i) o << (i ? " " : "") << ca[i].n; a[N - 1] = FFInt(7); o << " ; "; pv(o, a); }
    else if (op == "at") {
      for (int i = 0; i < N; ++i) { uint64_t v; try { v = a.at(i).n; } catch (std::out_of_range&) { o << " out_of_range"; continue; } o << (i ? " " : "") << v; }
      bool thrown = false; try { a.at(N); } catch (std::out_of_range&) { thrown = true; }
      o << " ; " << thrown;
    }
    else if (op == "arr") { std::array<FFInt, N> r; for (int i = 0; i < N; ++i) r[i] = a.vec[N - 1 - i]; pv(o, V(r)); }
    else bad(op);
  } else if (k == "fill") { FFInt b = res(s); V a(b); V z; pv(o, a); o << " ; "; pv(o, z); }
  else if (k == "powi") {
    V a = vec<N>(s);
    if (op == "i32") pv(o, a.pow((int)i64(s))); else if (op == "u64") pv(o, a.pow((uint64_t)u64(s))); else if (op == "i64") pv(o, a.pow((int64_t)i64(s))); else if (op == "u32") pv(o, a.pow((uint32_t)u64(s)));
    else if (op == "vec") { size_t m = u64(s); std::vector<int> e; for (size_t i = 0; i < m; ++i) e.push_back((int)i64(s)); try { pv(o, a.pow(e)); } catch (std::out_of_range&) { o << "out_of_range"; } }
    else bad(op);
    o << " | "; pv(o, a);
  }
  else bad(k);
}
static void v_disp(In& s, Out& o) {
  switch (u64(s)) {
    case 2: v_op<2>(s, o); break; case 4: v_op<4>(s, o); break; case 8: v_op<8>(s, o); break; case 16: v_op<16>(s, o); break;
    case 32: v_op<32>(s, o); break; case 64: v_op<64>(s, o); break; case 128: v_op<128>(s, o); break; default: bad("lanes");
  }
}

// ---- rational numbers, monomials, polynomials -----------------------------------------------
static RationalNumber rn(In& s) { mpz_class a = big(s), b = big(s); return RationalNumber(a, b); }
static void prn(Out& o, const RationalNumber& r) { o << r.numerator << " " << r.denominator; }
static void rn_op(In& s, Out& o) {
  std::string op = word(s);
  if (op == "new") { RationalNumber a = rn(s); prn(o, a); return; }
  RationalNumber a = rn(s);
  if (op == "neg") { prn(o, -a); o << " | "; prn(o, a); return; }
  if (op == "str") { o << a.string() << " ; " << a; return; }
  if (op == "self*=") { a *= a; prn(o, a); return; }
  if (op == "self+=") { a += a; prn(o, a); return; }
  if (op == "self-=") { a -= a; prn(o, a); return; }
  RationalNumber b = rn(s);
  if (op == "*") prn(o, a * b);
  else if (op == "*=") prn(o, a *= b);
  else if (op == "+=") prn(o, a += b);
  else if (op == "-=") prn(o, a -= b);
  else if (op == "==") o << (a == b);
  else if (op == "gcd") prn(o, gcd(a, b));
  else bad(op);
  o << " | "; prn(o, a); o << " | "; prn(o, b);
}
static Monomial mono(In& s, unsigned n) { std::vector<uint32_t> e; for (unsigned i = 0; i < n; ++i) e.push_back((uint32_t)u64(s)); return Monomial(e, rn(s)); }
static void pmon(Out& o, const Monomial& m) { for (auto e : m.powers) o << e << " "; prn(o, m.coef); }
static void mon_op(In& s, Out& o) {
  std::string op = word(s); unsigned n = (unsigned)u64(s);
  Monomial a = mono(s, n);
  if (op == "neg") { pmon(o, -a); o << " | "; pmon(o, a); return; }
  Monomial b = mono(s, n);
  if (op == "*") pmon(o, a * b); else if (op == "<") o << (a < b); else if (op == ">") o << (a > b); else bad(op);
  o << " | "; pmon(o, a); o << " | "; pmon(o, b);
}
static std::vector<uint32_t> exps(In& s, unsigned n) { std::vector<uint32_t> e; for (unsigned i = 0; i < n; ++i) e.push_back((uint32_t)u64(s)); return e; }
static ff_map ffmap(In& s, unsigned n) { ff_map m; size_t k = u64(s); for (size_t i = 0; i < k; ++i) { auto e = exps(s, n); m.emplace(e, res(s)); } return m; }
static PolynomialFF pff(In& s, unsigned n) { return PolynomialFF(n, ffmap(s, n)); }
static void pmap(Out& o, const ff_map& m) { o << m.size(); for (auto& t : m) { o << " ;"; for (auto e : t.first) o << " " << e; o << " " << t.second.n; } }
static rn_map rnmap(In& s, unsigned n) { rn_map m; size_t k = u64(s); for (size_t i = 0; i < k; ++i) { auto e = exps(s, n); m.emplace(e, rn(s)); } return m; }
static void ppol(Out& o, const Polynomial& p) { o << p.coefs.size(); for (auto& t : p.coefs) { o << " ; "; pmon(o, t); } }
static void pff_op(In& s, Out& o) {
  std::string op = word(s); unsigned n = (unsigned)u64(s);
  PolynomialFF a = pff(s, n);
  if (op == "+" || op == "-" || op == "*" || op == "+=" || op == "-=") {
    PolynomialFF b = pff(s, n);
    PolynomialFF r;
    if (op == "+") r = a + b; else if (op == "-") r = a - b; else if (op == "*") r = a * b;
    else if (op == "+=") { a += b; r = a; } else { a -= b; r = a; }
    pmap(o, r.coefs); o << " / " << r.n << " | "; pmap(o, a.coefs); o << " | "; pmap(o, b.coefs);
  } else if (op == "self+=") { a += a; pmap(o, a.coefs); }
  else if (op == "scale*" || op == "scale/" || op == "scale*=" || op == "scale/=") {
    FFInt c = res(s); PolynomialFF r;
    if (op == "scale*") r = a * c; else if (op == "scale/") r = a / c; else if (op == "scale*=") { a *= c; r = a; } else { a /= c; r = a; }
    pmap(o, r.coefs); o << " / " << r.n << " | "; pmap(o, a.coefs);
  }
  else if (op == "calc") { auto x = resv(s, n); o << a.calc(x).n << " | "; pmap(o, a.coefs); }
  else if (op == "calc1") {        // a history of evaluations in n-1 variables and changes of the polynomial
    size_t k = u64(s); bool first = true;
    for (size_t i = 0; i < k; ++i) {
      std::string w = word(s);
      if (w == "e") { auto x = resv(s, n - 1); o << (first ? "" : " ") << a.calc_n_m_1(x).n; first = false; }
      else if (w == "+=") a += pff(s, n);
      else if (w == "-=") a -= pff(s, n);
      else if (w == "*=") a *= res(s);
      else if (w == "/=") a /= res(s);
      else if (w == "cp") { PolynomialFF b(a); a = b; }
      else bad(w);
    }
  }
  else if (op == "hom") { uint32_t d = (uint32_t)u64(s); PolynomialFF r = a.homogenize(d); pmap(o, r.coefs); o << " | "; pmap(o, a.coefs); }
  else if (op == "mul") { uint32_t z = (uint32_t)u64(s); PolynomialFF r = a.mul(z); pmap(o, r.coefs); o << " / " << r.n << " | "; pmap(o, a.coefs); }
  else if (op == "shift") { auto x = resv(s, n); PolynomialFF r = a.add_shift(x); pmap(o, r.coefs); o << " / " << r.n << " | "; pmap(o, a.coefs); }
  else if (op == "zero") { o << a.zero(); }
  else if (op == "rmz") { a.remove_zero_coefs(); pmap(o, a.coefs); }
  else if (op == "deg") { auto M = a.max_deg(), m = a.min_deg(); for (auto e : M) o << e << " "; o << ";"; for (auto e : m) o << " " << e; }
  else if (op == "str") { std::vector<std::string> v; for (unsigned i = 0; i < n; ++i) v.push_back(word(s)); o << a.to_string(v); }
  else if (op == "hor") { std::vector<std::string> v; for (unsigned i = 0; i < n; ++i) v.push_back(word(s)); o << generate_horner_ff(a.coefs, v); }
  else bad(op);
}
static Polynomial poly(In& s, unsigned n) { std::string how = word(s); rn_map m = rnmap(s, n); if (how == "map" || m.empty()) return Polynomial(m); Polynomial p(Monomial(m.begin()->first, m.begin()->second)); for (auto it = std::next(m.begin()); it != m.end(); ++it) p.coefs.emplace_back(Monomial(it->first, it->second)); return p; }
static void pol_op(In& s, Out& o) {
  std::string op = word(s); unsigned n = (unsigned)u64(s);
  Polynomial a = poly(s, n);
  if (op == "conv") { PolynomialFF r = a.convert_to_PolynomialFF(); pmap(o, r.coefs); o << " / " << r.n << " | "; ppol(o, a); }
  else if (op == "*=") { RationalNumber c = rn(s); a *= c; ppol(o, a); }
  else if (op == "sort") { a.sort(); ppol(o, a); }
  else if (op == "zero") { o << a.zero(); }
  else if (op == "mono") { o << a.coefs.size(); for (auto& t : a.coefs) { Polynomial b(t); o << " ; "; ppol(o, b); } }
  else if (op == "clear") { a.clear(); ppol(o, a); o << " " << a.zero(); }
  else if (op == "str" || op == "hor") { std::vector<std::string> v; for (unsigned i = 0; i < n; ++i) v.push_back(word(s)); o << (op == "str" ? a.to_string(v) : a.generate_horner(v)); }
  else if (op == "hrn") { std::vector<std::string> v; for (unsigned i = 0; i < n; ++i) v.push_back(word(s)); rn_map m; for (auto& t : a.coefs) m.emplace(t.powers, t.coef); o << generate_horner_rn(m, v); }
  else bad(op);
}
// univariate, dense
static Poly upoly(In& s) { size_t k = u64(s); std::vector<FFInt> c = resv(s, k); return Poly(c); }
static void pup(Out& o, const Poly& p) { for (size_t i = 0; i < p.coeff.size(); ++i) o << (i ? " " : "") << p.coeff[i].n; }
static void up_op(In& s, Out& o) {
  std::string op = word(s);
  Poly a = upoly(s);
  if (op == "+" || op == "-" || op == "*" || op == "/" || op == "%" || op == "+=" || op == "-=" || op == "*=" || op == "gcd" || op == "divmod") {
    Poly b = upoly(s); Poly r;
    if (op == "+") r = a + b; else if (op == "-") r = a - b; else if (op == "*") r = a * b; else if (op == "/") r = a / b; else if (op == "%") r = a % b;
    else if (op == "gcd") r = gcd(a, b);
    else if (op == "divmod") { auto q = fast_euclidean_division(a, b); pup(o, q.first); o << " | "; pup(o, q.second); return; }
    else if (op == "+=") { Poly c(a); c += b; r = c; } else if (op == "-=") { Poly c(a); c -= b; r = c; } else { Poly c(a); c *= b; r = c; }
    pup(o, r); o << " | "; pup(o, a); o << " | "; pup(o, b);
  } else if (op == "self*=") { a *= a; pup(o, a); } else if (op == "self+=") { a += a; pup(o, a); } else if (op == "self-=") { a -= a; pup(o, a); }
  else if (op == "s*" || op == "s/" || op == "s*=" || op == "s/=") { FFInt c = res(s); Poly r; if (op == "s*") r = a * c; else if (op == "s/") r = a / c; else if (op == "s*=") { Poly d(a); d *= c; r = d; } else { Poly d(a); d /= c; r = d; } pup(o, r); o << " | "; pup(o, a); }
  else if (op == "deg") o << a.get_deg();
  else if (op == "rev") { a.rev(); pup(o, a); }
  else if (op == "shrink") { a.shrink_to_fit(); pup(o, a); }
  else if (op == "roots") { auto r = a.roots(); for (auto& x : r) o << x.n << " "; }
  else if (op == "out") o << a;
  else bad(op);
}

// ---- linear algebra ---------------------------------------------------------------------------
template<typename T> struct Rd;
template<> struct Rd<FFInt> { static FFInt get(In& s) { return res(s); } static void put(Out& o, const FFInt& v) { o << " " << v.n; } };
template<int N> struct Rd<FFIntVec<N>> { static FFIntVec<N> get(In& s) { return vec<N>(s); } static void put(Out& o, const FFIntVec<N>& v) { for (int i = 0; i < N; ++i) o << " " << v.vec[i].n; } };
template<typename T> static void la(In& s, Out& o) {
  std::string op = word(s); uint32_t n = (uint32_t)u64(s);
  auto mat = [&](uint32_t r, uint32_t c) { std::vector<std::vector<T>> m(r); for (uint32_t i = 0; i < r; ++i) for (uint32_t j = 0; j < c; ++j) m[i].push_back(Rd<T>::get(s)); return m; };
  auto putm = [&](const std::vector<std::vector<T>>& m) { for (auto& r : m) for (auto& e : r) Rd<T>::put(o, e); };
  if (op == "gauss" || op == "gaussf") { auto m = mat(n, n + 1); auto x = solve_gauss_system(m, n, op == "gaussf"); o << "x"; for (auto& e : x) Rd<T>::put(o, e); }
  else if (op == "inv") { auto m = mat(n, n); calc_inverse(m, n); o << "x"; putm(m); }
  else if (op == "lu") {              // decomposition used for solving k systems, the inverse and the determinant
    auto m = mat(n, n); std::vector<int> p; size_t k = u64(s); auto b = mat((uint32_t)k, n);
    calc_lu_decomposition(m, p, n);
    o << "d"; Rd<T>::put(o, calc_determinant_lu(m, p, n));
    std::vector<std::vector<T>> ia; calc_inverse_lu(m, ia, p, n);
    o << " i"; putm(ia);
    for (auto& r : b) { auto x = solve_lu(m, p, r, n); o << " x"; for (auto& e : x) Rd<T>::put(o, e); }
    o << " d"; Rd<T>::put(o, calc_determinant_lu(m, p, n));
  }
  else if (op == "det") { auto m = mat(n, n); std::vector<int> p; calc_lu_decomposition(m, p, n); o << "d"; Rd<T>::put(o, calc_determinant_lu(m, p, n)); }
  else bad(op);
}
static void la_disp(In& s, Out& o) {
  switch (u64(s)) {
    case 1: la<FFInt>(s, o); break; case 2: la<FFIntVec<2>>(s, o); break; case 4: la<FFIntVec<4>>(s, o); break; case 8: la<FFIntVec<8>>(s, o); break;
    case 16: la<FFIntVec<16>>(s, o); break; case 32: la<FFIntVec<32>>(s, o); break; case 64: la<FFIntVec<64>>(s, o); break; case 128: la<FFIntVec<128>>(s, o); break;
    default: bad("lanes");
  }
}
static void vdm(In& s, Out& o) {
  unsigned n = (unsigned)u64(s), k = (unsigned)u64(s);          // n variables including the first
  std::vector<std::vector<uint32_t>> degs; for (unsigned i = 0; i < k; ++i) degs.push_back(exps(s, n));
  std::vector<FFInt> nums = resv(s, k), val = resv(s, n - 1);
  PolynomialFF r = solve_vandermonde_system(degs, nums, val);
  pmap(o, r.coefs); o << " / " << r.n;
}
static void thiele(In& s, Out& o) {
  size_t k = u64(s); ThieleInterpolator t; size_t i = 0; bool done = false;
  size_t cp = u64(s);
  for (; i < k && !done; ++i) {
    FFInt y = res(s), f = res(s);
    if (cp && i % cp == cp - 1) { ThieleInterpolator c(t); ThieleInterpolator d; d = c; ThieleInterpolator e(std::move(d)); t = std::move(e); }
    done = t.add_point(f, y);
  }
  o << i << " " << done;
  if (done) { auto r = t.get_result(); o << " / "; pmap(o, r.first); o << " / "; pmap(o, r.second); }
}

// ---- printed functions --------------------------------------------------------------------------
static RationalFunction rfun(In& s, unsigned n) {
  Polynomial a = poly(s, n), b = poly(s, n);
  return RationalFunction(a, b);
}
static void rf_op(In& s, Out& o) {
  std::string op = word(s); unsigned n = (unsigned)u64(s);
  std::vector<std::string> v; for (unsigned i = 0; i < n; ++i) v.push_back(word(s));
  if (op == "ff") { PolynomialFF a = pff(s, n), b = pff(s, n); o << RationalFunctionFF(a, b).to_string(v); return; }
  RationalFunction r = rfun(s, n);
  size_t nf = u64(s);
  for (size_t i = 0; i < nf; ++i) {             // univariate factors, attached to a variable by its position
    int pos = (int)u64(s);
    RationalFunction f = rfun(s, 1);
    f.numerator.set_var_pos(pos); f.denominator.set_var_pos(pos);
    r.add_factor(f);
  }
  if (word(s) == "order") { std::unordered_map<uint32_t, uint32_t> m; for (unsigned i = 0; i < n; ++i) m.emplace(i, (uint32_t)u64(s)); r.set_var_order(m); }
  if (op == "str") o << r.to_string(v);
  else if (op == "hor") o << r.generate_horner(v);
  else if (op == "zero") o << r.zero() << " " << r.get_factors().size() << " " << r.get_order_map().size();
  else bad(op);
}
// the text is read back by the library's own parser
static void back(In& s, Out& o) {
  unsigned n = (unsigned)u64(s);
  std::vector<std::string> v; for (unsigned i = 0; i < n; ++i) v.push_back(word(s));
  auto x = resv(s, n);
  std::string e; std::getline(s, e);
  while (!e.empty() && e[0] == ' ') e.erase(0, 1);
  ShuntingYardParser p(std::vector<std::string>({e}), v);
  o << p.evaluate_pre(x)[0].n;
}

static void dispatch(const std::string& k, In& s, Out& o);
// the text printed by the inner operation is read back by the parser and evaluated:
// rt <n> <vars> <values> <inner operation>
static void roundtrip(In& s, Out& o) {
  unsigned n = (unsigned)u64(s);
  std::vector<std::string> v; for (unsigned i = 0; i < n; ++i) v.push_back(word(s));
  auto x = resv(s, n);
  Out t; std::string k = word(s); dispatch(k, s, t);
  ShuntingYardParser p(std::vector<std::string>({t.str()}), v);
  o << p.evaluate_pre(x)[0].n << " " << t.str();
}

int main(int argc, char** argv) {
  if (argc < 3) return 99;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string l;
  while (std::getline(in, l)) {
    In s(l);
    Out o;
    std::string k = word(s);
    dispatch(k, s, o);
    out << o.str() << "\n"; out.flush();
  }
  return 0;
}

static void dispatch(const std::string& k, In& s, Out& o) {
    if (k == "prime") { FFInt::set_new_prime(u64(s)); o << FFInt::p; }
    else if (k == "primelist") { for (auto q : primes()) o << q << " "; }
    else if (k == "primek") { FFInt::set_new_prime(primes()[u64(s)]); o << FFInt::p; }
    else if (k == "ff") ff_ctor(s, o);
    else if (k == "fb") ff_bin(s, o);
    else if (k == "fs") ff_self(s, o);
    else if (k == "fu") ff_un(s, o);
    else if (k == "fp") ff_pow(s, o);
    else if (k == "v") v_disp(s, o);
    else if (k == "crt") { mpz_class a = big(s), m = big(s), b = big(s), q = big(s); auto r = run_chinese_remainder({a, m}, {b, q}); o << r.first << " " << r.second; }
    else if (k == "rr") { mpz_class a = big(s), p = big(s); auto r = get_rational_coef(a, p); o << r.first << " "; prn(o, r.second); }
    else if (k == "mqrr") { mpz_class a = big(s), p = big(s); auto r = get_rational_coef_mqrr(a, p); o << r.first << " "; prn(o, r.second); }
    else if (k == "rn") rn_op(s, o);
    else if (k == "mon") mon_op(s, o);
    else if (k == "pff") pff_op(s, o);
    else if (k == "pol") pol_op(s, o);
    else if (k == "up") up_op(s, o);
    else if (k == "la") la_disp(s, o);
    else if (k == "vdm") vdm(s, o);
    else if (k == "thiele") thiele(s, o);
    else if (k == "rf") rf_op(s, o);
    else if (k == "back") back(s, o);
    else if (k == "rt") roundtrip(s, o);
    else bad(k);
}
