// Internal interface between the simulator's parts.
#ifndef SIM_CORE_H_
#define SIM_CORE_H_
#include <stdint.h>
#include <time.h>
namespace sim {
constexpr uint32_t kTapeCap = 1u << 20, kSpanCap = 1u << 17;
constexpr uint64_t kSetCap = 1u << 21;
constexpr int kCounters = 200;
constexpr int kCpuLimit = 20, kWallLimit = 240;
enum { kNone = 0, kOk = 1, kViolation = 2, kHarness = 3, kCrash = 4 };
struct HashSet {
  uint64_t n, overflow;
  uint64_t v[kSetCap];
};
struct Counter {
  char name[56];
  uint64_t v;
};
struct Shm {
  int result;
  int nontrivial;
  char cls[96];
  char msg[4096];
  uint64_t log_hash, log_lines, sim_time_us, sched_hash, switches;
  uint32_t tape_len, nspans;
  int ncounters;
  Counter counters[kCounters];
  uint64_t tape[kTapeCap];
  uint32_t spans[kSpanCap][2];
  HashSet states, hist, inter;
};
extern Shm* g_shm;
void SeedState(uint64_t s[4], uint64_t key);
uint64_t NextState(uint64_t s[4]);
void InitProcess();  // once
void InitRun();      // in the child, before any draw
void StartRun();     // after the scenario is chosen
void InitPreempt();   // decides how preemption points are chosen
void InitRegion();    // memory addresses follow from the run alone
int RealClock(int clk, timespec* ts);
void LibAccess(void* p);  // an uninstrumented library call touches caller-owned state
}  // namespace sim
#endif
