// Runs a script of reconstructions described by a spec file (argv[1]) in the current
// directory and writes what the library returned to "out.txt".  All decisions about
// what is right are taken by the python side.
#include "firefly/Reconstructor.hpp"
#include "firefly/ShuntingYardParser.hpp"
#ifdef WITH_MPI
#include "firefly/MPIWorker.hpp"
#endif
#include "inject.hpp"

#include <gmpxx.h>
#ifdef FLINT
#include <flint/nmod_poly.h>
#include <flint/nmod_poly_factor.h>
#endif
#include <atomic>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <thread>

using namespace firefly;

struct Term { mpz_class num, den; std::vector<unsigned> e; };
struct Fac { int exp; std::vector<Term> t; };
typedef std::vector<Fac> Func;

struct Job {
  unsigned n = 1, threads = 1, bunch = 1; int verb = 0;
  bool three_arg = false;
  uint64_t seed = 1;
  std::string bbkind = "terms";
  std::string exprfile;
  std::vector<std::string> vars;
  std::vector<Func> funcs;
  std::vector<std::vector<std::string>> acts;
  // instrumentation
  bool record = false;
  unsigned bbsleep = 0;   // max microseconds slept in an evaluation
};

static uint64_t mulmod(uint64_t a, uint64_t b, uint64_t p) { return (unsigned __int128)a * b % p; }
static uint64_t powmod(uint64_t a, uint64_t e, uint64_t p) { uint64_t r = 1 % p; a %= p; while (e) { if (e & 1) r = mulmod(r, a, p); a = mulmod(a, a, p); e >>= 1; } return r; }

template<typename T> struct Lanes;
template<> struct Lanes<FFInt> { static const unsigned N = 1; static uint64_t get(const FFInt& v, unsigned) { return v.n; } };
template<int M> struct Lanes<FFIntVec<M>> { static const unsigned N = M; static uint64_t get(const FFIntVec<M>& v, unsigned i) { return v.vec[i].n; } };

static std::atomic<long> g_evals{0};        // evaluation calls in this process
static long g_crash_eval = -1;              // _exit before the k-th evaluation (0-based)
static std::mutex g_rec_mutex;
static std::ofstream* g_rec = nullptr;
static std::atomic<long> g_in_eval{0};

class BB : public BlackBoxBase<BB> {
public:
  BB(const Job& j) : job(j) {
    if (job.bbkind == "parser") par.reset(new ShuntingYardParser(job.exprfile, job.vars));
    refresh();
  }
  template<typename T>
  std::vector<T> operator()(const std::vector<T>& v) {
    long k = g_evals.fetch_add(1, std::memory_order_relaxed);   // no order between evaluations: would hide races
    if (g_crash_eval >= 0 && k >= g_crash_eval) { crash_now(); }
    g_in_eval.fetch_add(1, std::memory_order_relaxed);
    if (g_rec) {
      std::lock_guard<std::mutex> l(g_rec_mutex);
      *g_rec << "e " << FFInt::p << " " << announced << " " << Lanes<T>::N << " " << v.size() << " " << g_in_eval.load();
      for (unsigned l2 = 0; l2 < Lanes<T>::N; ++l2) for (const auto& x : v) *g_rec << " " << Lanes<T>::get(x, l2);
      *g_rec << "\n";
    }
    if (job.bbsleep) {
      uint64_t h = (uint64_t)k * 0x9e3779b97f4a7c15ull ^ job.seed * 0xbf58476d1ce4e5b9ull; h ^= h >> 29; h *= 0x94d049bb133111ebull; h ^= h >> 32;
      if (h % 3 == 0) usleep((h >> 8) % (job.bbsleep + 1));
    }
    std::vector<T> res;
    if (par) { res = par->evaluate_pre(v); }
    else {
      res.reserve(funcs.size());
      for (const auto& f : funcs) {
        T num(FFInt(uint64_t(1))), den(FFInt(uint64_t(1)));
        for (const auto& fac : f) {
          T s(FFInt(uint64_t(0)));
          for (const auto& t : fac.second) {
            T m(t.first);
            for (unsigned i = 0; i < t.second.size(); ++i) {
              T b(v[i]); unsigned e = t.second[i];
              while (e) { if (e & 1) m *= b; e >>= 1; if (e) { T c(b); b *= c; } }
            }
            s += m;
          }
          int e = fac.first;
          for (int i = 0; i < (e < 0 ? -e : e); ++i) { if (e > 0) num *= s; else den *= s; }
        }
        num /= den;
        res.push_back(num);
      }
    }
    g_in_eval.fetch_sub(1, std::memory_order_relaxed);
    return res;
  }
  void prime_changed() { refresh(); }
private:
  void refresh() {
    uint64_t p = FFInt::p;
    announced = p;
    if (par) { par->precompute_tokens(); return; }
    funcs.clear();
    for (const auto& f : job.funcs) {
      std::vector<std::pair<int, std::vector<std::pair<FFInt, std::vector<unsigned>>>>> nf;
      for (const auto& fac : f) {
        std::vector<std::pair<FFInt, std::vector<unsigned>>> nt;
        for (const auto& t : fac.t) {
          uint64_t a = mpz_fdiv_ui(t.num.get_mpz_t(), p), b = mpz_fdiv_ui(t.den.get_mpz_t(), p);
          FFInt c; c.n = mulmod(a, powmod(b, p - 2, p), p);
          nt.emplace_back(c, t.e);
        }
        nf.emplace_back(fac.exp, nt);
      }
      funcs.push_back(nf);
    }
  }
  const Job& job;
  uint64_t announced = 0;
  std::unique_ptr<ShuntingYardParser> par;
  std::vector<std::vector<std::pair<int, std::vector<std::pair<FFInt, std::vector<unsigned>>>>>> funcs;
};

static std::vector<Job> read_spec(const char* path) {
  std::ifstream in(path);
  std::vector<Job> jobs;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k; s >> k;
    if (k == "job") jobs.emplace_back();
    else if (k.empty()) continue;
    else {
      Job& j = jobs.back();
      if (k == "n") s >> j.n;
      else if (k == "threads") s >> j.threads;
      else if (k == "bunch") s >> j.bunch;
      else if (k == "nobunch") j.three_arg = true;
      else if (k == "verb") s >> j.verb;
      else if (k == "seed") s >> j.seed;
      else if (k == "bb") s >> j.bbkind >> j.exprfile;
      else if (k == "vars") { std::string v; while (s >> v) j.vars.push_back(v); }
      else if (k == "record") j.record = true;
      else if (k == "sleep") s >> j.bbsleep;
      else if (k == "f") j.funcs.emplace_back();
      else if (k == "p") { Fac f; s >> f.exp; j.funcs.back().push_back(f); }
      else if (k == "t") { Term t; std::string a, b; s >> a >> b; t.num = mpz_class(a); t.den = mpz_class(b); unsigned e; while (s >> e) t.e.push_back(e); j.funcs.back().back().t.push_back(t); }
      else if (k == "act") { std::vector<std::string> a; std::string w; while (s >> w) a.push_back(w); j.acts.push_back(a); }
      else { std::cerr << "bad spec line: " << line << "\n"; _exit(99); }
    }
  }
  return jobs;
}

static std::mutex g_out_mutex;
static std::ofstream g_out;

static void dump_poly(std::ostream& o, const char* w, Polynomial& p) {
  o << w << " " << p.coefs.size();
  for (const auto& m : p.coefs) {
    o << " ; " << m.coef.numerator << " " << m.coef.denominator;
    for (auto e : m.powers) o << " " << e;
  }
  o << "\n";
}
static void dump_rf(const std::string& head, RationalFunction& r, const Job& j) {
  std::ostringstream o;
  o << head << " zero=" << r.zero() << " nfac=" << r.get_factors().size() << " order=" << r.get_order_map().size() << "\n";
  dump_poly(o, "num", r.numerator);
  dump_poly(o, "den", r.denominator);
  o << "str " << r.to_string(j.vars) << "\n";
  o << "hor " << r.generate_horner(j.vars) << "\n";
  std::lock_guard<std::mutex> l(g_out_mutex);
  g_out << o.str(); g_out.flush();
}
static void line(const std::string& s) { std::lock_guard<std::mutex> l(g_out_mutex); g_out << s << "\n"; g_out.flush(); }

static void run_job(const Job& j, int idx) {
  g_time_value = (long)j.seed;
  FFInt::set_new_prime(primes()[0]);
  BB bb(j);
  if (j.record) g_rec = new std::ofstream("calls_" + std::to_string(idx) + ".txt");
  std::unique_ptr<Reconstructor<BB>> rp(j.three_arg ? new Reconstructor<BB>(j.n, j.threads, bb, j.verb) : new Reconstructor<BB>(j.n, j.threads, j.bunch, bb, j.verb));
  Reconstructor<BB>& r = *rp;
  g_time_value = (long)(j.seed * 7919 + 13);
  std::thread bg;
  std::atomic<bool> bg_done{true};
  for (const auto& a : j.acts) {
    const std::string& c = a[0];
    if (c == "shift") r.enable_shift_scan();
    else if (c == "factor") r.enable_factor_scan();
    else if (c == "safe") r.set_safe_interpolation();
    else if (c == "stopfac") r.stop_after_factor_scan();
    else if (c == "tags") { if (a.size() > 1) r.set_tags(std::vector<std::string>(a.begin() + 1, a.end())); else r.set_tags(); }
    else if (c == "resume") r.resume_from_saved_state();
    else if (c == "crash_eval") g_crash_eval = g_evals + std::stol(a[1]);
    else if (c == "crash_fs") { g_fs_partial = a.size() > 2 ? std::stol(a[2]) : 0; g_crash_fs = g_fs_ops + std::stol(a[1]); }
    else if (c == "clock") g_clock = std::stol(a[1]);
    else if (c == "jitter") { g_jitter_seed = std::stoull(a[1]); g_jitter = std::stol(a[2]); }
    else if (c == "bg") {            // reconstruct in a background thread
      unsigned k = a.size() > 1 ? std::stoul(a[1]) : 300;
      bg_done = false;
      bg = std::thread([&r, k, &bg_done]() { r.reconstruct(k); bg_done = true; });
    }
    else if (c == "join") { bg.join(); }
    else if (c == "poll") {          // poll early results <times> (0: until the background run ends) with <us> pauses
      for (long i = 0, m = std::stol(a[1]); m ? i < m : !bg_done; ++i) {
        auto er = r.get_early_results();
        for (auto& x : er) dump_rf("early " + x.first, x.second, j);
        usleep(std::stol(a[2]));
      }
    }
    else if (c == "reconstruct") { if (a.size() > 1) r.reconstruct(std::stoul(a[1])); else r.reconstruct(); }
    else if (c == "result") {
      auto res = r.get_result();
      line("nresult " + std::to_string(res.size()) + " done=" + std::to_string(r.reconstruction_done()));
      for (size_t i = 0; i < res.size(); ++i) dump_rf("result " + std::to_string(i), res[i], j);
    }
    else if (c == "result_ff") {
      auto res = r.get_result_ff();
      line("nresultff " + std::to_string(res.size()) + " p=" + std::to_string(FFInt::p));
      for (size_t i = 0; i < res.size(); ++i) {
        std::ostringstream o;
        o << "ff " << i;
        for (int k = 0; k < 2; ++k) {
          PolynomialFF& p = k ? res[i].denominator : res[i].numerator;
          o << " | " << p.coefs.size();
          for (const auto& el : p.coefs) { o << " ; " << el.second.n; for (auto e : el.first) o << " " << e; }
        }
        line(o.str());
        line("ffstr " + res[i].to_string(j.vars));
      }
    }
    else if (c == "factors") {
      auto fs = r.get_factors_string(j.vars);
      line("nfactors " + std::to_string(fs.size()));
      for (auto& f : fs) line("factor " + f);
    }
    else if (c == "early") {
      auto er = r.get_early_results();
      line("nearly " + std::to_string(er.size()));
      for (auto& x : er) dump_rf("early " + x.first, x.second, j);
    }
    else if (c == "reset") RatReconst::reset();
    else { std::cerr << "bad act " << c << "\n"; _exit(99); }
  }
  if (bg.joinable()) bg.join();
  rp.reset();
  if (g_rec) { delete g_rec; g_rec = nullptr; }
  line("evals " + std::to_string(g_evals.load()) + " fsops " + std::to_string(g_fs_ops.load()) + " prime " + std::to_string(FFInt::p));
}

// FLINT 3.0 fills its method tables on first use without a lock, so that the first factorizations of two
// threads can meet a half-filled table and abort inside FLINT; that race is FLINT's, not FireFly's.
static void warm_up_flint() {
#ifdef FLINT
  for (unsigned long k = 1; k != 4; ++k) {
    nmod_poly_t f; nmod_poly_factor_t fac;
    nmod_poly_init(f, 9223372036854775783UL); nmod_poly_factor_init(fac);
    for (unsigned long i = 0; i != 9; ++i) nmod_poly_set_coeff_ui(f, i, k * k * 7919 + i * i * i * 31 + 5);
    nmod_poly_t g; nmod_poly_init(g, 9223372036854775783UL); nmod_poly_mul(g, f, f); nmod_poly_mul(g, g, f);
    nmod_poly_factor_kaltofen_shoup(fac, g);
    nmod_poly_clear(f); nmod_poly_clear(g); nmod_poly_factor_clear(fac);
  }
#endif
}

int main(int argc, char** argv) {
  warm_up_flint();
  if (argc < 2) return 99;
  std::vector<Job> jobs = read_spec(argv[1]);
#ifdef WITH_MPI
  int provided; MPI_Init_thread(NULL, NULL, MPI_THREAD_SERIALIZED, &provided);
  int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  if (rank != 0) {
    for (const auto& j : jobs) {
      // the worker options are given as "act worker <rank> <threads> <bunch>"
      unsigned th = 1, bu = 1; bool two = false;
      for (const auto& a : j.acts) if (a[0] == "worker" && std::stoi(a[1]) == rank) { th = std::stoul(a[2]); bu = std::stoul(a[3]); two = bu == 0; }
      g_time_value = (long)j.seed;
      FFInt::set_new_prime(primes()[0]);
      BB bb(j);
      for (const auto& a : j.acts) if (a[0] == "jitter") { g_jitter_seed = std::stoull(a[1]) + rank; g_jitter = std::stol(a[2]); }
      for (const auto& a : j.acts) if (a[0] == "reconstruct") {
        if (two) MPIWorker<BB>(j.n, th, bb); else MPIWorker<BB>(j.n, th, bu, bb);
      }
      RatReconst::reset();
    }
    MPI_Finalize();
    std::ofstream("ended_" + std::to_string(rank)) << "1\n";
    return 0;
  }
  for (auto& j : jobs) { std::vector<std::vector<std::string>> acts; for (auto& a : j.acts) if (a[0] != "worker") acts.push_back(a); j.acts = acts; }
#endif
  g_out.open("out.txt");
  for (size_t i = 0; i < jobs.size(); ++i) {
    line("job " + std::to_string(i));
    run_job(jobs[i], (int)i);
  }
  line("end");
#ifdef WITH_MPI
  MPI_Finalize();
  std::ofstream("ended_0") << "1\n";
#endif
  return 0;
}
