// Interposed C library functions: a pinned clock for the library's random seed, crash
// injection at file-system operations on the saved state, and scheduling noise at lock
// operations.  Only linked into test executables.
#include "inject.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>

long g_time_value = 0;
std::atomic<long> g_fs_ops{0};
long g_crash_fs = -1;
long g_fs_partial = 0;
long g_jitter = 0;
uint64_t g_jitter_seed = 1;

long g_clock = 0;

void crash_now() { _exit(77); }

template<typename F> static F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

static bool ours(const char* p) { return p && (strncmp(p, "ff_save", 7) == 0 || strstr(p, "/ff_save")); }
static bool tracked[4096];

// returns true when the process has to die at this operation
static bool op() {
  long k = g_fs_ops.fetch_add(1);
  return g_crash_fs >= 0 && k >= g_crash_fs;
}

extern "C" {
  // std::chrono's system and high-resolution clock: jumps ahead by more than half an hour now and then
  int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    int r = (int)syscall(SYS_clock_gettime, id, ts);
    if (id == CLOCK_REALTIME && g_clock) {
      static std::atomic<uint64_t> reads{0}, skew{0};
      uint64_t h = (reads.fetch_add(1, std::memory_order_relaxed) + 1 + g_jitter_seed) * 0x9e3779b97f4a7c15ull;
      h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
      if ((long)(h % 1000) < g_clock) skew.fetch_add(2000, std::memory_order_relaxed);
      ts->tv_sec += skew.load(std::memory_order_relaxed);
    }
    return r;
  }
  time_t time(time_t* t) noexcept {
    time_t v;
    if (g_time_value) v = g_time_value;
    else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
  }
#ifndef NO_FS_INJECT
  int rename(const char* a, const char* b) noexcept {
    static auto f = real<int(*)(const char*, const char*)>("rename");
    if ((ours(a) || ours(b)) && op()) crash_now();
    return f(a, b);
  }
  int remove(const char* a) noexcept {
    static auto f = real<int(*)(const char*)>("remove");
    if (ours(a) && op()) crash_now();
    return f(a);
  }
  static int after_open(const char* p, int fl, int fd) { if (fd >= 0 && fd < 4096) tracked[fd] = ours(p) && (fl & O_ACCMODE) != O_RDONLY; return fd; }
  int open(const char* p, int fl, ...) {
    static auto f = real<int(*)(const char*, int, ...)>("open");
    mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (ours(p) && (fl & O_ACCMODE) != O_RDONLY && op()) crash_now();
    return after_open(p, fl, f(p, fl, m));
  }
  int open64(const char* p, int fl, ...) {
    static auto f = real<int(*)(const char*, int, ...)>("open64");
    mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (ours(p) && (fl & O_ACCMODE) != O_RDONLY && op()) crash_now();
    return after_open(p, fl, f(p, fl, m));
  }
  FILE* fopen64(const char* p, const char* mode) {
    static auto f = real<FILE*(*)(const char*, const char*)>("fopen64");
    bool w = strpbrk(mode, "wa+") != nullptr;
    if (ours(p) && w && op()) crash_now();
    FILE* r = f(p, mode);
    if (r) { int fd = fileno(r); if (fd >= 0 && fd < 4096) tracked[fd] = ours(p) && w; }
    return r;
  }
  ssize_t write(int fd, const void* b, size_t n) {
    static auto f = real<ssize_t(*)(int, const void*, size_t)>("write");
    if (fd >= 0 && fd < 4096 && tracked[fd] && op()) { if (g_fs_partial) { ssize_t r = f(fd, b, n * g_fs_partial / 100); (void)r; } crash_now(); }
    return f(fd, b, n);
  }
  ssize_t writev(int fd, const struct iovec* v, int c) {
    static auto f = real<ssize_t(*)(int, const struct iovec*, int)>("writev");
    if (fd >= 0 && fd < 4096 && tracked[fd] && op()) crash_now();
    return f(fd, v, c);
  }
  int close(int fd) {
    static auto f = real<int(*)(int)>("close");
    if (fd >= 0 && fd < 4096) tracked[fd] = false;
    return f(fd);
  }
#endif
#ifndef NO_JITTER
  static inline void jitter() {
    if (!g_jitter) return;
    static thread_local uint64_t s = 0;
    if (!s) { static std::atomic<uint64_t> c{1}; s = (g_jitter_seed + 0x9e3779b97f4a7c15ull * c.fetch_add(1)) | 1; }
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    uint64_t r = s >> 20;
    if ((long)(r % 1000) < g_jitter) { if ((r >> 12) & 1) sched_yield(); else usleep((r >> 14) % 200); }
  }
  int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock");
    jitter();
    return f(m);
  }
  int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    int r = f(m);
    jitter();
    return r;
  }
#endif
}

#ifdef TOOL_INJECT
// settings of the stand-alone tools come from the environment
#include <cstdlib>
__attribute__((constructor)) static void tool_settings() {
  auto get = [](const char* n, long d) { const char* v = getenv(n); return v ? atol(v) : d; };
  g_time_value = get("VF_TIME", 0);
  g_jitter = get("VF_JITTER", 0);
  g_jitter_seed = get("VF_JITTER_SEED", 1);
  g_clock = get("VF_CLOCK", 0);
  g_crash_fs = get("VF_CRASH_FS", -1);
  g_fs_partial = get("VF_FS_PARTIAL", 0);
}
#endif

#ifdef VF_BIGNEW
// Each gzip stream of the library owns a buffer of 1 GB, which ThreadSanitizer needs seconds to free. Such
// blocks are kept and handed out again (the lock orders the users of a block).
#include <cstdlib>
#include <mutex>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
static const size_t BIG = size_t(1) << 28;
static struct { void* p; size_t n; bool used; } big[64];
static std::atomic<int> nbig{0};
static std::mutex& big_mutex() { static std::mutex m; return m; }
void* operator new[](size_t n) {
  if (n < BIG) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
  std::lock_guard<std::mutex> l(big_mutex());
  int k = nbig;
  for (int i = 0; i < k; ++i) if (!big[i].used && big[i].n >= n) { big[i].used = true; return big[i].p; }
  if (k == 64) throw std::bad_alloc();
  void* p = (void*)syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L);
  if (p == MAP_FAILED) throw std::bad_alloc();
  big[k].p = p; big[k].n = n; big[k].used = true;
  nbig = k + 1;
  return p;
}
void operator delete[](void* p) noexcept {
  int k = nbig.load(std::memory_order_acquire);
  for (int i = 0; i < k; ++i) if (big[i].p == p) { std::lock_guard<std::mutex> l(big_mutex()); big[i].used = false; return; }
  free(p);
}
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }
#endif
