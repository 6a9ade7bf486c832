// Deterministic simulator core.  One seed decides every choice; choices are
// recorded on a tape which can be replayed, edited and minimised.
#ifndef SIM_H_
#define SIM_H_
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>

#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
// Every decision of a run (operation, schedule, fault, size) comes from here.
// Draw(n) is in [0, n).  0 is by convention the simplest / fault-free choice.
uint64_t Draw(uint64_t n);
inline uint64_t Range(uint64_t lo, uint64_t hi) { return lo + Draw(hi - lo + 1); }
// True with probability num/den; the all-zero tape yields false.
bool Chance(unsigned num, unsigned den);
template <class T>
const T& Pick(const std::vector<T>& v) { return v[Draw(v.size())]; }
// Marks a group of draws that belong together (one operation, one message...).
struct Span {
  Span();
  ~Span();
  uint32_t start;
};

// ------------------------------------------------------------ bulk data
// Bulk bytes are not on the tape: they are a function of (run seed, key).
class Stream {
 public:
  explicit Stream(uint64_t key, uint64_t key2 = 0);
  uint64_t Next();
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  std::string Bytes(size_t n);

 private:
  uint64_t s_[4];
};
uint64_t RunSeed();
uint64_t Mix(uint64_t a, uint64_t b);
uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
inline uint64_t HashStr(const std::string& s) { return HashBytes(s.data(), s.size()); }

// ------------------------------------------------------- log and coverage
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void Count(const char* name, uint64_t by = 1);  // probe / fault counters
void State(uint64_t h);                         // distinct abstract states reached
void NonTrivial();                              // this run did something that matters
bool Verbose();
std::string Hex(const std::string& s, size_t max = 24);

// ------------------------------------------------------------- violations
// Ends the run.  `cls` is a stable class name (used for minimisation and
// matching), the rest is free text.
[[noreturn]] void Violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// The harness cannot interpret this run: ends it as an error of the check.
[[noreturn]] void HarnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define SIM_ASSERT(c) \
  do { if (!(c)) ::sim::HarnessError("%s:%d: %s", __FILE__, __LINE__, #c); } while (0)
// Ends the run now as passed (never as violated).
[[noreturn]] void EndRun();

// ------------------------------------------------------------------ nodes
// A simulated machine: its own entropy source, SIMD level, allocator faults.
struct Node {
  std::string name;
  uint64_t rng[4];           // entropy behind RAND_bytes / getrandom on this node
  uint64_t rand_bytes = 0;   // bytes handed out
  int simd = 0;              // rank into the CPU's supported SIMD targets
  // Aligned-allocation fault policy.
  uint64_t allocs = 0;
  uint64_t alloc_fail_at = 0;   // fail the k-th aligned allocation (1-based); 0 = never
  unsigned alloc_fail_ppm = 0;  // fail each with this probability (from the node's own stream)
  uint64_t alloc_failures = 0;
  // AES provider fault: fail the k-th provider call from now (1-based); 0 = never.
  uint64_t cipher_fail_at = 0, cipher_calls = 0, cipher_failures = 0;
  uint64_t aes_blocks = 0;  // AES blocks computed for tree nodes and values
  // RNG fault: number of successful calls left before RAND_bytes fails; -1 = never.
  int64_t rng_fail_after = -1;
  bool rng_fail_forever = false;
  int64_t rng_flip_after = -1;  // the draw whose bits come out inverted
  uint64_t rng_failures = 0, rng_calls = 0;
  bool record_rand = false;
  std::vector<std::string> rand_log;
  std::vector<int> rand_task;  // task that made each logged draw
  bool rng_yields = false;     // drawing entropy is a scheduling point
  bool odd_entropy = false;    // words are often all ones, all zeros or close to it
};
Node* NewNode(const std::string& name);
Node* CurNode();
struct NodeScope {
  explicit NodeScope(Node* n);
  ~NodeScope();
  Node* prev;
};
int SimdTargets();  // how many SIMD targets this CPU supports (incl. scalar fallback)
void ApplySimd();   // (re)applies CurNode()'s SIMD target

// ------------------------------------------------------------- scheduler
// Tasks are OS threads of which exactly one runs at a time; who runs next is
// drawn from the tape.  Time is simulated (microseconds).
uint64_t Now();
int Spawn(const std::string& name, Node* node, std::function<void()> fn);
void Sleep(uint64_t us);  // from a task
void Yield();             // from a task
void After(uint64_t us, std::function<void()> fn);
// Blocks the calling task until Wake(cond) or the timeout; true if woken.
struct Cond {
  std::vector<int> waiters;
};
bool Wait(Cond* c, uint64_t timeout_us);
void Wake(Cond* c);
// Kills all tasks of a node (they are never resumed: a crash).
void KillTasks(Node* node);
bool TaskDone(int id);
// Runs until every live task finished.  Deadlock => violation "deadlock".
void RunAll(uint64_t max_steps = 2000000);
int CurTask();
// Preemption inside instrumented code (sched variant only).
struct Preempt {
  bool on = false;
  int style = 0;  // how the countdowns are drawn
  uint64_t max_preemptions = 0;
};
void SetPreempt(Preempt p);
// No preemption while alive (simulator's own bookkeeping).
struct NoPreempt {
  NoPreempt();
  ~NoPreempt();
  bool prev;
};
// Draws a preemption style (always off outside the sched variant).
void DrawPreempt(uint64_t max_preemptions = 400);
uint64_t Preemptions();

// -------------------------------------------------------------- scenarios
typedef void (*ScenarioFn)();
struct RegisterScenario {
  RegisterScenario(const char* prop, const char* name, ScenarioFn fn, int weight = 1,
                   bool wants_preempt = false);
};
#define SCENARIO(prop, name, ...)                                              \
  static void Scn_##prop##_##name();                                           \
  static ::sim::RegisterScenario reg_##prop##_##name(#prop, #name,             \
                                                     &Scn_##prop##_##name,     \
                                                     ##__VA_ARGS__);           \
  static void Scn_##prop##_##name()
}  // namespace sim
#endif
