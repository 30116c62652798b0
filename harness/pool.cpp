// Runs thread pool histories (argv[1]) and writes the events of every one to "out.txt"; the
// python side decides whether a history is legal.  Also answers questions about bunch sizes.
#include "firefly/ThreadPool.hpp"
#include "firefly/utils.hpp"
#include "inject.hpp"
#include <atomic>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>

using namespace firefly;

struct T { int prio, packaged, us, gate; std::vector<int> subs; };

static std::mutex ev_mutex;
static std::vector<std::string> ev;
static void log(const std::string& s) { std::lock_guard<std::mutex> l(ev_mutex); ev.push_back(s); }

static std::map<int, T> tasks;
static std::map<int, std::future<long>> futs;
static std::mutex fut_mutex;
static std::atomic<bool> gate{false}, gated{false};
static ThreadPool* pool = nullptr;

static void submit(int id);
static long work(int id) {
  const T& t = tasks.at(id);
  log("s " + std::to_string(id));
  if (t.gate) { gated = true; while (!gate) usleep(50); }
  if (t.us) usleep(t.us);
  for (int s : t.subs) submit(s);
  log("e " + std::to_string(id));
  return id * 7L + 1;
}
static void submit(int id) {
  const T& t = tasks.at(id);
  log("q " + std::to_string(id));
  if (t.packaged) {
    std::future<long> f = t.prio ? pool->run_priority_packaged_task([id]() { return work(id); }) : pool->run_packaged_task([id]() { return work(id); });
    std::lock_guard<std::mutex> l(fut_mutex);
    futs[id] = std::move(f);
  } else if (t.prio) pool->run_priority_task([id]() { work(id); });
  else pool->run_task([id]() { work(id); });
}

int main(int argc, char** argv) {
  if (argc < 2) return 99;
  std::ifstream in(argv[1]);
  std::ofstream out("out.txt");
  std::string l;
  std::vector<std::vector<std::string>> ops;
  long size = 0, jit = 0; uint64_t seed = 1;
  while (std::getline(in, l)) {
    std::istringstream s(l);
    std::vector<std::string> w; std::string x; while (s >> x) w.push_back(x);
    if (w.empty()) continue;
    if (w[0] == "bunch") {
      out << "bunch " << compute_bunch_size(std::stoul(w[1]), std::stoul(w[2]), std::stoul(w[3])) << "\n";
    } else if (w[0] == "jobs") {
      out << "jobs " << compute_job_number(std::stoul(w[1]), std::stoul(w[2]), std::stoul(w[3]), std::stoul(w[4])) << "\n";
    } else if (w[0] == "pool") {
      size = std::stol(w[1]); jit = std::stol(w[2]); seed = std::stoull(w[3]);
      tasks.clear(); futs.clear(); ops.clear(); ev.clear(); gate = gated = false;
    } else if (w[0] == "task") {
      T t; t.prio = std::stoi(w[2]); t.packaged = std::stoi(w[3]); t.us = std::stoi(w[4]); t.gate = std::stoi(w[5]);
      for (size_t i = 6; i < w.size(); ++i) t.subs.push_back(std::stoi(w[i]));
      tasks[std::stoi(w[1])] = t;
    } else if (w[0] == "go") {
      out << "history\n"; out.flush();
      g_jitter_seed = seed; g_jitter = jit;
      pool = new ThreadPool(size);
      if ((long)pool->size() != size) log("size " + std::to_string(pool->size()));
      for (auto& o : ops) {
        if (o[0] == "q") { submit(std::stoi(o[1])); if (tasks.at(std::stoi(o[1])).gate) while (!gated) usleep(20); }
        else if (o[0] == "k") { log("kb"); pool->kill_all(); log("ke"); }
        else if (o[0] == "d") { log("db"); while (pool->queue_size() != 0 || pool->wait()) {} log("de"); }
        else if (o[0] == "o") gate = true;
        else if (o[0] == "z") usleep(std::stoul(o[1]));
      }
      gate = true;
      log("xb");
      delete pool; pool = nullptr;
      g_jitter = 0;
      log("xe");
      for (auto& f : futs) {
        std::string r;
        if (f.second.wait_for(std::chrono::seconds(0)) != std::future_status::ready) r = "notready";
        else try { r = std::to_string(f.second.get()); } catch (const std::future_error& e) { r = "broken"; } catch (...) { r = "exception"; }
        log("f " + std::to_string(f.first) + " " + r);
      }
      for (auto& e : ev) out << e << "\n";
    } else ops.push_back(w);
  }
  out << "end\n";
  return 0;
}
