// Feeds single interpolation objects (argv[1]: spec) value by value and writes what they hold.
#include "firefly/PolyReconst.hpp"
#include "firefly/RatReconst.hpp"
#include "firefly/ReconstHelper.hpp"
#include "inject.hpp"
#include <gmpxx.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>

using namespace firefly;

struct Term { mpz_class num, den; std::vector<unsigned> e; };
struct Fac { int exp; std::vector<Term> t; };
typedef std::vector<Fac> Func;
struct Job {
  std::string kind; unsigned n = 1; uint64_t seed = 1; long limit = 100000; unsigned primes = 100;
  int newton = 1, bt = 1, deg = -1, thr = 0, safe = 0, noshift = 0, multi = 0, noseed = 0;
  int surplus = 0, junk = 0, future = 0, stale = 0;   // per cent
  std::vector<unsigned> bounds;
  std::vector<Func> f;
};

static uint64_t rs;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545f4914f6cdd1dull; }
static bool pc(int p) { return (int)((rnd() >> 33) % 100) < p; }

static FFInt eval(const Func& f, const std::vector<FFInt>& v) {
  uint64_t p = FFInt::p;
  FFInt num(1), den(1);
  for (const auto& fac : f) {
    FFInt s(0);
    for (const auto& t : fac.t) {
      FFInt a(0), b(0); a.n = mpz_fdiv_ui(t.num.get_mpz_t(), p); b.n = mpz_fdiv_ui(t.den.get_mpz_t(), p);
      FFInt m = a / b;
      for (size_t i = 0; i < t.e.size(); ++i) for (unsigned k = 0; k < t.e[i]; ++k) m *= v[i];
      s += m;
    }
    for (int i = 0; i < (fac.exp < 0 ? -fac.exp : fac.exp); ++i) { if (fac.exp > 0) num *= s; else den *= s; }
  }
  return num / den;
}

static std::ofstream out;
template<typename P> static void dump_rn(const char* w, P& p) {
  out << w << " " << p.coefs.size();
  for (const auto& m : p.coefs) { out << " ; " << m.coef.numerator << " " << m.coef.denominator; for (auto e : m.powers) out << " " << e; }
  out << "\n";
}
static void dump_ff(const char* w, const PolynomialFF& p) {
  out << w << " " << p.coefs.size();
  for (const auto& m : p.coefs) { out << " ; " << m.second.n << " 1"; for (auto e : m.first) out << " " << e; }
  out << "\n";
}

static void run_poly(const Job& j) {
  PolyReconst::use_bt = j.bt;
  PolyReconst r(j.n, j.deg);
  r.set_newton(j.newton);
  if (j.thr) r.set_bt_threshold(j.thr);
  if (!j.bounds.empty()) r.set_individual_degree_bounds(j.bounds);
  r.generate_anchor_points();
  unsigned pi = 0; long feeds = 0, feeds_total = 0; bool fresh = true;
  while (!r.is_done()) {
    if (r.get_prime() != pi) {
      ++pi; feeds_total += feeds; feeds = 0;
      if (pi >= j.primes) { out << "stopped " << r.is_new_prime() << "\n"; break; }
      FFInt::set_new_prime(primes()[pi]);
      r.generate_anchor_points();
      fresh = true;
    }
    if (++feeds > j.limit) { out << "limit " << pi << "\n"; return; }
    auto ord = r.get_zi_order();
    unsigned at = r.get_prime();
    if (pc(j.junk)) { r.feed(FFInt(rnd()), ord, at + 1); if (at) r.feed(FFInt(rnd()), ord, at - 1); }
    if (!fresh && pc(j.stale)) { auto o = ord; o[rnd() % o.size()] += 3; r.feed(FFInt(rnd()), o, at); }
    r.feed(eval(j.f[0], r.get_rand_zi_vec(ord)), ord, at);
    r.interpolate();
    fresh = false;
  }
  out << "feeds " << feeds_total + feeds << " primes " << pi + 1 << " done " << r.is_done() << "\n";
  if (r.is_done()) { Polynomial p = r.get_result(); dump_rn("num", p); Polynomial q = r.get_result(); dump_rn("again", q); }
}

static void run_rat(const Job& j) {
  std::vector<std::unique_ptr<RatReconst>> rs_;
  RatReconst tmp(j.n);
  if (j.safe) tmp.set_safe_interpolation();
  for (size_t i = 0; i < j.f.size(); ++i) { rs_.emplace_back(new RatReconst(j.n)); if (j.safe) rs_.back()->set_safe_interpolation(); }
  if (j.noshift) tmp.disable_shift();
  long feeds = 0, feeds_total = 0;
  std::vector<long> asked(j.f.size(), 0);
  unsigned pi = 0;
  for (;;) {
    // the objects which want to be fed in this field
    std::vector<size_t> live;
    for (size_t i = 0; i < rs_.size(); ++i) if (!rs_[i]->is_done() && rs_[i]->get_prime() == pi) live.push_back(i);
    if (live.empty()) {
      bool all = true;
      for (auto& r : rs_) all &= r->is_done();
      if (all) break;
      ++pi; feeds_total += feeds; feeds = 0;
      if (pi >= j.primes) { out << "stopped " << primes()[pi - 1] << "\n"; break; }
      FFInt::set_new_prime(primes()[pi]);
      if (!j.safe && !tmp.need_shift(pi)) { if (tmp.get_zi_shift_vec() != std::vector<FFInt>(j.n, 0)) tmp.disable_shift(); }
      tmp.generate_anchor_points();
      auto an = tmp.get_anchor_points();
      for (auto& r : rs_) r->set_anchor_points(an);
      continue;
    }
    size_t i = live[rnd() % live.size()];
    RatReconst& r = *rs_[i];
    if (++feeds > j.limit) { out << "limit " << pi << "\n"; return; }
    std::vector<uint32_t> ord = j.n > 1 ? r.get_zi_order() : std::vector<uint32_t>();
    auto shift = tmp.get_zi_shift_vec();
    auto value = [&](const std::vector<uint32_t>& o, FFInt& t) {
      t = r.get_rand_64();
      std::vector<FFInt> v(j.n);
      v[0] = t + shift[0];
      std::vector<FFInt> z; if (j.n > 1) z = r.get_rand_zi_vec(o);
      for (size_t k = 1; k < j.n; ++k) v[k] = z[k - 1] * t + shift[k];
      return eval(j.f[i], v);
    };
    std::vector<FFInt> ts, ns; std::vector<std::vector<uint32_t>> os;
    auto add = [&](const std::vector<uint32_t>& o) { FFInt t, v; v = value(o, t); ts.push_back(t); ns.push_back(v); os.push_back(o); };
    if (pc(j.junk)) r.feed(FFInt(rnd()), FFInt(rnd()), ord, pi + 1 + rnd() % 2);
    if (pc(j.junk) && pi) r.feed(FFInt(rnd()), FFInt(rnd()), ord, pi - 1);
    add(ord);
    while (pc(j.surplus)) add(ord);
    if (j.n > 1) while (pc(j.future)) { auto o = ord; for (auto& x : o) x += rnd() % 2; add(o); }
    if (j.n > 1) while (pc(j.stale)) { auto o = ord; for (auto& x : o) if (x > 1 && rnd() % 2) --x; add(o); }
    if (j.multi && pc(50)) r.feed(ts, ns, os, pi);
    else for (size_t k = 0; k < ts.size(); ++k) r.feed(ts[k], ns[k], os[k], pi);
    if (!pc(j.surplus / 2)) r.interpolate();
  }
  out << "feeds " << feeds_total + feeds << " primes " << pi + 1 << "\n";
  for (size_t i = 0; i < rs_.size(); ++i) {
    out << "fn " << i << " done " << rs_[i]->is_done() << " prime " << rs_[i]->get_prime() << "\n";
    if (rs_[i]->is_done()) { RationalFunction f = rs_[i]->get_result(); dump_rn("num", f.numerator); dump_rn("den", f.denominator); }
    else { RationalFunctionFF f = rs_[i]->get_result_ff(); dump_ff("num", f.numerator); dump_ff("den", f.denominator); }
  }
}

int main(int argc, char** argv) {
  if (argc < 2) return 99;
  std::ifstream in(argv[1]);
  out.open("out.txt");
  Job j; std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line); std::string k; s >> k;
    if (k.empty()) continue;
    if (k == "case") { j = Job(); s >> j.kind >> j.n >> j.seed >> j.limit >> j.primes; }
    else if (k == "newton") s >> j.newton; else if (k == "bt") s >> j.bt; else if (k == "deg") s >> j.deg; else if (k == "thr") s >> j.thr;
    else if (k == "safe") s >> j.safe; else if (k == "noshift") s >> j.noshift; else if (k == "multi") s >> j.multi; else if (k == "noseed") s >> j.noseed;
    else if (k == "surplus") s >> j.surplus; else if (k == "junk") s >> j.junk; else if (k == "future") s >> j.future; else if (k == "stale") s >> j.stale;
    else if (k == "bounds") { unsigned b; while (s >> b) j.bounds.push_back(b); }
    else if (k == "f") j.f.emplace_back();
    else if (k == "p") { Fac f; s >> f.exp; j.f.back().push_back(f); }
    else if (k == "t") { Term t; std::string a, b; s >> a >> b; t.num = mpz_class(a); t.den = mpz_class(b); unsigned e; while (s >> e) t.e.push_back(e); j.f.back().back().t.push_back(t); }
    else if (k == "go") {
      out << "case\n"; out.flush();
      g_time_value = (long)j.seed; rs = j.seed * 0x9e3779b97f4a7c15ull | 1;
      FFInt::set_new_prime(primes()[0]);
      RatReconst::reset();
      if (!j.noseed) BaseReconst().set_seed(j.seed);
      if (j.kind == "poly") run_poly(j); else run_rat(j);
      PolyReconst::use_bt = true;
    } else return 98;
  }
  out << "end\n";
  return 0;
}
