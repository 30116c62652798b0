// Drives ShuntingYardParser objects from a script (argv[1], results to argv[2]); with
// "-fuzz LIST OUT" parses every file named in LIST in a child process of its own.
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/ReconstHelper.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/AmplitudeParser.hpp"
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <signal.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace firefly;

static std::string rest(std::istringstream& s) { std::string r; std::getline(s, r); if (!r.empty() && r[0] == ' ') r.erase(0, 1); return r; }

template<int N> static void vec_eval(std::ostream& o, const ShuntingYardParser& p, const std::string& route, const std::vector<uint64_t>& v, size_t nv) {
  std::vector<FFIntVec<N>> in(nv, FFIntVec<N>(FFInt(uint64_t(0))));
  for (int l = 0; l < N; ++l) for (size_t i = 0; i < nv; ++i) in[i].vec[l] = FFInt(v[l * nv + i]);
  std::vector<FFIntVec<N>> r = route == "eval" ? p.evaluate(in) : route == "pre2" ? p.evaluate_pre_2(in) : p.evaluate_pre(in);
  for (int l = 0; l < N; ++l) { o << "v"; for (auto& x : r) o << " " << x.vec[l].n; o << "\n"; }
}

static int script(const char* in, const char* out) {
  std::ifstream f(in); std::ofstream o(out);
  std::string line;
  std::vector<std::string> vars, funs;
  std::map<int, std::unique_ptr<ShuntingYardParser>> ps;
  while (std::getline(f, line)) {
    std::istringstream s(line); std::string k; s >> k;
    if (k == "prime") { size_t i; s >> i; FFInt::set_new_prime(primes()[i]); }
    else if (k == "vars") { vars.clear(); std::string v; while (s >> v) vars.push_back(v); }
    else if (k == "fn") funs.push_back(rest(s));
    else if (k == "clear") funs.clear();
    else if (k == "newfile") { int id, c, kp; std::string file; s >> id >> file >> c >> kp; ps[id].reset(new ShuntingYardParser(file, vars, c, kp)); }
    else if (k == "newvec") { int id, c, kp; s >> id >> c >> kp; ps[id].reset(new ShuntingYardParser(funs, vars, c, kp)); }
    else if (k == "newdef") { int id; s >> id; ps[id].reset(new ShuntingYardParser()); }
    else if (k == "copy") { int a, b; s >> a >> b; ps[a].reset(new ShuntingYardParser(*ps[b])); }
    else if (k == "pf") { int id, val; s >> id >> val; std::string e = rest(s); ps[id]->parse_function(e, vars, val); }
    else if (k == "otf") { int id, nd; s >> id >> nd; std::string e = rest(s); o << "pos " << ps[id]->add_otf(e, nd) << " p " << FFInt::p << "\n"; }
    else if (k == "otfpre") { int id; s >> id; std::string e = rest(s); ShuntingYardParser t(std::vector<std::string>(1, e), vars, false, true); o << "pos " << ps[id]->add_otf_precompute(t.get_rp_function(0)) << "\n"; }
    else if (k == "refresh") { int id, force; s >> id >> force; ps[id]->precompute_tokens(force); }
    else if (k == "trim") {
      int id; s >> id; std::unordered_set<size_t> keep; size_t x; while (s >> x) keep.insert(x);
      auto m = ps[id]->trim(keep);
      std::map<size_t, size_t> mm(m.begin(), m.end());
      o << "map"; for (auto& e : mm) o << " " << e.first << ":" << e.second; o << "\n";
    }
    else if (k == "size") { int id; s >> id; o << "size " << ps[id]->get_size() << " " << ps[id]->empty() << " " << ps[id]->get_rp_functions().size() << "\n"; }
    else if (k == "at") {   // at <id> <route> <lanes> values...
      int id, n; std::string route; s >> id >> route >> n;
      std::vector<uint64_t> v; uint64_t x; while (s >> x) v.push_back(x);
      const ShuntingYardParser& p = *ps[id];
      if (n == 0) {
        std::vector<FFInt> q; for (auto y : v) q.emplace_back(FFInt(y));
        std::vector<FFInt> r = route == "eval" ? p.evaluate(q) : route == "pre2" ? p.evaluate_pre_2(q) : p.evaluate_pre(q);
        o << "v"; for (auto& y : r) o << " " << y.n; o << "\n";
      } else {
        size_t nv = v.size() / n;
        switch (n) {
          case 2: vec_eval<2>(o, p, route, v, nv); break;
          case 4: vec_eval<4>(o, p, route, v, nv); break;
          case 8: vec_eval<8>(o, p, route, v, nv); break;
          case 16: vec_eval<16>(o, p, route, v, nv); break;
          case 32: vec_eval<32>(o, p, route, v, nv); break;
          case 64: vec_eval<64>(o, p, route, v, nv); break;
          default: vec_eval<128>(o, p, route, v, nv); break;
        }
      }
    }
    else { std::cerr << "bad line " << line << "\n"; return 99; }
    o.flush();
  }
  o << "end\n";
  return 0;
}

// one input: "<mode> <number of variables> <file>"
static void one(const std::string& mode, int nv, const std::string& file) {
  static const char* names[] = {"x", "y", "z1", "abcdefghijklmnop", "W", "s12"};
  std::vector<std::string> vars(names, names + nv);
  FFInt::set_new_prime(primes()[0]);
  std::vector<FFInt> at;
  for (int i = 0; i < nv; ++i) at.emplace_back(FFInt(uint64_t(1234567 + 7919 * i)));
  if (mode.compare(0, 3, "amp") == 0 || mode.compare(0, 3, "tab") == 0) {
    AmplitudeParser ap(vars, {"F", "Gg", "H1"});
    std::string t = "{F[1]*(x+1)-Gg[2,-1]*(x)+H1[0]}";
    if (mode == "ampfile") ap.parse_amplitude_file(file);
    else if (mode == "amp") { std::ifstream f(file); std::stringstream b; b << f.rdbuf(); t = b.str(); ap.parse_amplitude_string(t); }
    else ap.parse_amplitude_string(t);
    if (mode == "tabfile") ap.parse_ibp_table_file(file);
    else if (mode == "tab") { std::ifstream f(file); std::stringstream b; b << f.rdbuf(); t = b.str(); ap.parse_ibp_table_string(t); }
    size_t m = ap.check_for_unreplaced_masters();
    for (size_t i = 0; i < m && i < 20; ++i) {
      ap.get_master(i); ap.get_unsimplified_coef(i);
      FFAmplitudeBlackBox bb = ap.build_black_box(i);
      std::vector<FFInt> r = bb(at);
      if (r.size() != 1) _exit(98);
      FFInt::set_new_prime(primes()[1]); bb.prime_changed(); FFInt::set_new_prime(primes()[0]); bb.prime_changed();
      if (bb(at)[0] != r[0]) _exit(98);
    }
    return;
  }
  std::unique_ptr<ShuntingYardParser> p;
  if (mode == "file" || mode == "filecheck") p.reset(new ShuntingYardParser(file, vars, mode == "filecheck", mode == "filecheck"));
  else {
    std::ifstream f(file); std::stringstream b; b << f.rdbuf(); std::string t = b.str();
    if (mode == "vec") p.reset(new ShuntingYardParser(std::vector<std::string>(1, t), vars, false, true));
    else if (mode == "otf") { p.reset(new ShuntingYardParser(std::vector<std::string>(), vars, false, true)); p->add_otf(t); p->precompute_tokens(true); }
    else { p.reset(new ShuntingYardParser()); p->parse_function(t, vars, true); p->precompute_tokens(); }
  }
  auto r = p->evaluate_pre(at);
  auto r2 = p->evaluate_pre_2(at);
  FFInt::set_new_prime(primes()[1]);
  p->precompute_tokens();
  auto r3 = p->evaluate_pre(at);
  std::vector<FFIntVec<4>> q(nv, FFIntVec<4>(FFInt(uint64_t(5))));
  auto r4 = p->evaluate_pre(q);
  if (r.size() != r2.size() || r.size() != r3.size() || r.size() != r4.size()) _exit(98);
  for (size_t i = 0; i < r.size(); ++i) if (r[i] != r2[i]) _exit(98);
}

static int fuzz(const char* list, const char* out) {
  std::ifstream f(list); std::ofstream o(out);
  std::string mode, file; int nv;
  while (f >> mode >> nv >> file) {
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open((file + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(fd, 2); dup2(fd, 1);
      alarm(20);
      one(mode, nv, file);
      std::cout.flush(); _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    o << file << " " << (WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)) << "\n";
  }
  o << "end\n";
  return 0;
}

int main(int argc, char** argv) {
  if (argc == 4 && std::string(argv[1]) == "-fuzz") return fuzz(argv[2], argv[3]);
  return script(argv[1], argv[2]);
}
