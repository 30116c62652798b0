// Controls of the injection layer (inject.cpp).
#pragma once
#include <atomic>
#include <cstdint>
#include <mutex>
#include <unistd.h>
extern long g_time_value;                 // what time() returns (0: real time)
extern std::atomic<long> g_fs_ops;        // operations on paths below ff_save
extern long g_crash_fs;                   // _exit(77) at the k-th such operation (-1: never)
extern long g_fs_partial;                 // a write that crashes first writes this percentage of its data
extern long g_jitter;                     // per mille of lock operations that yield or sleep (0: none)
extern uint64_t g_jitter_seed;
extern long g_clock;                      // per mille of reads of the wall clock at which it jumps ahead by 2000 s (0: real clock)
[[noreturn]] void crash_now();
