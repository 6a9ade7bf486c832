// Task scheduler: OS threads passed a baton; discrete-event simulated time.
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <new>
#include <queue>
#include <unordered_map>

#include "absl/synchronization/internal/create_thread_identity.h"
#include "absl/synchronization/internal/kernel_timeout.h"
#include "core.h"
#include "sim.h"

namespace sim {
void SetTaskNode(Node* n);

struct Task {
  int id;
  std::string name;
  Node* node;    // owner: dies with it
  Node* scope;   // node scope saved at switch-out
  std::function<void()> fn;
  pthread_t th;
  sem_t sem;
  enum { kRunnable, kBlocked, kDone, kKilled } state = kRunnable;
  Cond* cond = nullptr;
  bool woken = false;
  uint64_t wait_seq = 0;
};
struct Event {
  uint64_t at, seq;
  std::function<void()> fn;
};
struct EventLater {
  bool operator()(const Event* a, const Event* b) const {
    return a->at != b->at ? a->at > b->at : a->seq > b->seq;
  }
};
static std::vector<Task*> g_tasks;
static std::priority_queue<Event*, std::vector<Event*>, EventLater> g_events;
static uint64_t g_now = 0, g_seq = 0, g_sched_hash = 0x77, g_switches = 0;
static uint64_t g_last_task = ~0ull;
static sem_t g_main_sem;
static bool g_main_sem_init = false;
static thread_local Task* t_task = nullptr;
static Preempt g_pre;
static uint64_t g_preemptions = 0;
static uint64_t g_countdown = ~0ull;  // instrumented steps until the next preemption
static uint64_t g_steps_since = 0;
static thread_local bool t_in_sim = false;

uint64_t SchedHash() { return g_sched_hash; }
uint64_t SchedSwitches() { return g_switches; }
uint64_t Now() { return g_now; }
int CurTask() { return t_task ? t_task->id : -1; }
uint64_t Preemptions() { return g_preemptions; }
void SetPreempt(Preempt p) { g_pre = p; }
NoPreempt::NoPreempt() : prev(t_in_sim) { t_in_sim = true; }
NoPreempt::~NoPreempt() { t_in_sim = prev; }
void DrawPreempt(uint64_t max_preemptions) {
  Preempt p;
  p.style = Draw(4);
#ifdef SIM_SCHED
  p.on = true;
#endif
  p.max_preemptions = max_preemptions;
  SetPreempt(p);
}

static void SemWait(sem_t* s) {
  while (sem_wait(s) < 0 && errno == EINTR) {
  }
}

// Conflict-directed preemption: countdowns count accesses to memory that several
// tasks share and at least one writes, instead of all instrumented steps.  Kept per
// 8-byte granule in a fixed table; decisions depend on address equality only.
struct Granule {
  uintptr_t key;
  uint16_t toucher, writer;  // task id + 1; 0xffff: outside tasks; 0: nobody
  uint16_t hot;              // 0, or how often it counted as a candidate, + 1
};
static constexpr size_t kGranules = 1u << 20;
static Granule g_granules[kGranules];
static size_t g_ngranules = 0;
static bool g_conflict = false;
static thread_local uintptr_t t_stack_lo = 0, t_stack_hi = 0;
extern "C" char __data_start, _end;

static Granule* FindGranule(uintptr_t key, bool insert) {
  size_t i = (key * 0x9e3779b97f4a7c15ull) >> 44;
  for (;; i = (i + 1) & (kGranules - 1)) {
    Granule* g = &g_granules[i];
    if (g->key == key) return g;
    if (!g->key) {
      if (!insert || g_ngranules > kGranules / 4 * 3) return nullptr;
      g_ngranules++;
      g->key = key;
      return g;
    }
  }
}
// Is this access a place where another task could get in between?
static inline bool ConflictAccess(uintptr_t a, bool write) {
  if (a >= t_stack_lo && a < t_stack_hi) return false;
  Granule* g = FindGranule(a >> 3, true);
  if (!g) return false;
  uint16_t me = t_task ? t_task->id + 1 : 0xffff;
  bool hot = false;
  if (t_task) {
    bool global = a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end;
    bool foreign = g->toucher && g->toucher != me;
    if (write ? foreign || global : g->writer && g->writer != me && g->writer != 0xffff) {
      if (!g->hot) g->hot = 1;
    }
    if (g->hot && g->hot < 400) {
      g->hot++;
      hot = true;
    }
  }
  g->toucher = me;
  if (write) g->writer = me;
  return hot;
}
static void ForgetRange(void* p, size_t n) {  // fresh memory has no history
  if (!g_ngranules) return;
  for (uintptr_t k = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3; k < e; k++)
    if (Granule* g = FindGranule(k, false)) g->toucher = g->writer = g->hot = 0;
}
void InitPreempt() {
#ifdef SIM_SCHED
  g_conflict = Draw(2);
  uintptr_t here = (uintptr_t)__builtin_frame_address(0);
  t_stack_lo = here - (8u << 20);
  t_stack_hi = here + (1u << 20);
#endif
}

static void DrawCountdown() {
  g_steps_since = 0;
  if (!g_pre.on || g_preemptions >= g_pre.max_preemptions) {
    g_countdown = ~0ull;
    return;
  }
  // 0 on the tape: run to completion.
  static const uint64_t kScale[][4] = {
      {20, 200, 3000, 40000}, {4, 12, 40, 120}, {100, 1000, 10000, 100000}, {1, 3, 8, 30}};
  static const uint64_t kConflict[4] = {1, 3, 10, 60};
  const uint64_t* sc = g_conflict ? kConflict : kScale[g_pre.style % 4];
  uint64_t k = Draw(6);
  if (k == 0) {
    g_countdown = ~0ull;
  } else {
    uint64_t m = sc[k <= 4 ? k - 1 : Draw(4)];
    g_countdown = 1 + Draw(m * 2);
  }
}

// Gives the baton back to the scheduler and waits to be resumed.
static void SwitchOut() {
  Task* t = t_task;
  t->scope = CurNode();
  sem_post(&g_main_sem);
  SemWait(&t->sem);
  SetTaskNode(t->scope);
  ApplySimd();
}

static void* Trampoline(void* p) {
  Task* t = (Task*)p;
  t_task = t;
  t_stack_lo = (uintptr_t)__builtin_frame_address(0) - (1u << 20);
  t_stack_hi = (uintptr_t)pthread_self() + 4096;
  SemWait(&t->sem);
  SetTaskNode(t->node);
  ApplySimd();
  t->fn();
  t->fn = nullptr;
  t->state = Task::kDone;
  t_in_sim = true;
  sem_post(&g_main_sem);
  // Leaving would run destructors beside the next task.
  for (;;) pause();
  return nullptr;
}

int Spawn(const std::string& name, Node* node, std::function<void()> fn) {
  bool s = t_in_sim;
  t_in_sim = true;
  if (!g_main_sem_init) {
    sem_init(&g_main_sem, 0, 0);
    g_main_sem_init = true;
  }
  Task* t = new Task;
  t->id = g_tasks.size();
  t->name = name;
  t->node = node;
  t->fn = std::move(fn);
  sem_init(&t->sem, 0, 0);
  g_tasks.push_back(t);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 1 << 20);
  if (pthread_create(&t->th, &a, Trampoline, t) != 0) HarnessError("pthread_create");
  t_in_sim = s;
  return t->id;
}
void After(uint64_t us, std::function<void()> fn) {
  g_events.push(new Event{g_now + us, g_seq++, std::move(fn)});
}
void Yield() {
  if (!t_task) return;
  bool s = t_in_sim;
  t_in_sim = true;
  SwitchOut();
  t_in_sim = s;
}
bool Wait(Cond* c, uint64_t timeout_us) {
  Task* t = t_task;
  if (!t) HarnessError("Wait outside a task");
  bool s = t_in_sim;
  t_in_sim = true;
  t->state = Task::kBlocked;
  t->woken = false;
  t->cond = c;
  uint64_t ws = ++t->wait_seq;
  if (c) c->waiters.push_back(t->id);
  if (timeout_us != ~0ull)
    After(timeout_us, [t, ws] {
      if (t->state == Task::kBlocked && t->wait_seq == ws) {
        t->state = Task::kRunnable;
        if (t->cond) {
          auto& w = t->cond->waiters;
          w.erase(std::remove(w.begin(), w.end(), t->id), w.end());
        }
      }
    });
  SwitchOut();
  t_in_sim = s;
  return t->woken;
}
void Sleep(uint64_t us) { Wait(nullptr, us); }
void Wake(Cond* c) {
  for (int id : c->waiters) {
    Task* t = g_tasks[id];
    if (t->state == Task::kBlocked) {
      t->state = Task::kRunnable;
      t->woken = true;
    }
  }
  c->waiters.clear();
}
void KillTasks(Node* node) {
  for (Task* t : g_tasks)
    if (t->node == node && t->state != Task::kDone && t != t_task) t->state = Task::kKilled;
}
bool TaskDone(int id) { return g_tasks[id]->state == Task::kDone || g_tasks[id]->state == Task::kKilled; }

static void FireNext() {
  Event* e = g_events.top();
  g_events.pop();
  g_now = std::max(g_now, e->at);
  t_in_sim = true;
  e->fn();
  t_in_sim = false;
  delete e;
}
void RunAll(uint64_t max_steps) {
  if (t_task) HarnessError("RunAll inside a task");
  std::vector<Task*> run;
  for (uint64_t step = 0;; step++) {
    if (step >= max_steps) Violate("no-progress", "still busy after %llu scheduler steps", (unsigned long long)max_steps);
    while (!g_events.empty() && g_events.top()->at <= g_now) FireNext();
    run.clear();
    bool live = false;
    for (Task* t : g_tasks) {
      if (t->state == Task::kRunnable) run.push_back(t);
      if (t->state == Task::kBlocked) live = true;
    }
    if (run.empty()) {
      if (!live) return;  // everything finished; pending events are stale timers
      if (g_events.empty()) Violate("deadlock", "blocked tasks and nothing that could wake them");
      FireNext();
      continue;
    }
    g_now++;  // running takes time, so timers also fire next to busy tasks
    // Prefer continuing the previous task on a zero draw only if it is first; the
    // order is by id, so the all-zero tape is a fixed, sequential schedule.
    Task* t = run[run.size() == 1 ? 0 : Draw(run.size())];
    DrawCountdown();
    if (g_last_task != (uint64_t)t->id) {
      g_switches++;
      g_last_task = t->id;
    }
    g_sched_hash = Mix(g_sched_hash, Mix(t->id + 1, g_now));
    sem_post(&t->sem);
    SemWait(&g_main_sem);
    g_sched_hash = Mix(g_sched_hash, g_steps_since);
  }
}

// Called by instrumented code at every edge, load and store.
static inline void Step(bool counts) {
  g_steps_since++;
  if (!counts || --g_countdown != 0) {
    if (g_steps_since < 30000000) return;
    // Spinning on something another task must do.
  }
  t_in_sim = true;
  g_preemptions++;
  Count("sched:preemption");
  if (counts && g_conflict) Count("sched:preemption-at-shared-access");
  SwitchOut();
  t_in_sim = false;
}
static inline void Tick() {
  if (!t_task || t_in_sim) return;
  Step(!g_conflict);
}
static inline void Access(void* p, bool write) {
  if (!g_conflict) return Tick();
  if (t_in_sim) return;
  bool hot = ConflictAccess((uintptr_t)p, write);
  if (t_task) Step(hot);
}
static void BlockedYield() {  // a real primitive would block here
  t_in_sim = true;
  Count("sched:lock-contention");
  SwitchOut();
  t_in_sim = false;
}
void LibAccess(void* p) {
#ifdef SIM_SCHED
  Access(p, true);
#endif
}
bool InTask() { return t_task && !t_in_sim; }
}  // namespace sim

#ifdef SIM_SCHED
extern "C" {
void __sanitizer_cov_trace_pc_guard(uint32_t*) { sim::Tick(); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
#define H(n)                                                \
  void __sanitizer_cov_load##n(void* p) { sim::Access(p, false); } \
  void __sanitizer_cov_store##n(void* p) { sim::Access(p, true); }
H(1) H(2) H(4) H(8) H(16)
#undef H
}
// Uninstrumented library calls that take caller-owned state: scheduling points
// before and after.
#define LIBCALL(ret, name, params, args, state)                   \
  extern "C" ret name params {                                    \
    static auto real = (ret(*) params)dlsym(RTLD_NEXT, #name);    \
    sim::Access((void*)(state), true);                            \
    ret r = real args;                                            \
    sim::Access((void*)(state), true);                            \
    return r;                                                     \
  }
LIBCALL(int, SHA256_Update, (void* c, const void* d, size_t n), (c, d, n), c)
LIBCALL(int, SHA256_Final, (unsigned char* o, void* c), (o, c), c)
LIBCALL(int, EVP_EncryptUpdate, (void* c, uint8_t* o, int* ol, const uint8_t* i, int n), (c, o, ol, i, n), c)
extern "C" void AES_ctr128_encrypt(const uint8_t* in, uint8_t* out, size_t len, const void* key, uint8_t* iv, uint8_t* ec, unsigned* num) {
  static auto real = (void (*)(const uint8_t*, uint8_t*, size_t, const void*, uint8_t*, uint8_t*, unsigned*))dlsym(RTLD_NEXT, "AES_ctr128_encrypt");
  sim::Access(iv, true);
  real(in, out, len, key, iv, ec, num);
  sim::Access(iv, true);
}
// The addresses of objects feed hash tables, so they too must follow from the seed
// alone: once a run has begun, memory comes from a region that always begins empty.
static char* const kRegion = (char*)0x200000000000;
static const size_t kRegionSize = size_t(64) << 30;
static char* g_region_at = nullptr;  // null: no run yet
static void* g_free[64][4];
static volatile char g_region_lock = 0;
struct RegionLock {
  RegionLock() {
    while (__atomic_test_and_set(&g_region_lock, __ATOMIC_ACQUIRE)) sched_yield();
  }
  ~RegionLock() { __atomic_clear(&g_region_lock, __ATOMIC_RELEASE); }
};
struct alignas(16) BlockHead {
  void* next;
  uint8_t order, quarter;
};
// Sizes are 4 steps per power of two.
static size_t BlockSize(int order, int quarter) { return (size_t(1) << order) + ((size_t(1) << order) / 4) * quarter; }
static size_t PayloadOf(void* p) {
  BlockHead* h = (BlockHead*)p - 1;
  return h->order ? BlockSize(h->order, h->quarter) - sizeof(BlockHead) : (size_t)h->next;
}
static bool InRegion(void* p) { return (char*)p >= kRegion && (char*)p < kRegion + kRegionSize; }
static void* RegionNew(size_t n, size_t align) {
  if (n > kRegionSize / 2) return nullptr;
  if (align > 16) {  // rare: never given back
    RegionLock l;
    char* p = (char*)(((uintptr_t)g_region_at + sizeof(BlockHead) + align - 1) / align * align);
    if (n + align > size_t(kRegion + kRegionSize - p)) return nullptr;
    g_region_at = p + (n + 15) / 16 * 16;
    ((BlockHead*)p)[-1].order = 0;
    ((BlockHead*)p)[-1].next = (void*)n;
    return p;
  }
  n += sizeof(BlockHead);
  int order = 63 - __builtin_clzll(n < 64 ? 64 : n), quarter = 0;
  while (BlockSize(order, quarter) < n)
    if (++quarter == 4) order++, quarter = 0;
  RegionLock l;
  BlockHead* h = (BlockHead*)g_free[order][quarter];
  if (h) {
    g_free[order][quarter] = h->next;
  } else {
    h = (BlockHead*)g_region_at;
    size_t size = BlockSize(order, quarter);
    if (size > size_t(kRegion + kRegionSize - g_region_at)) return nullptr;
    g_region_at += size;
    h->order = order;
    h->quarter = quarter;
  }
  return h + 1;
}
static void RegionDelete(void* p) {
  BlockHead* h = (BlockHead*)p - 1;
  if (h->order == 0) return;
  RegionLock l;
  h->next = g_free[h->order][h->quarter];
  g_free[h->order][h->quarter] = h;
}
namespace sim {
void InitRegion() {
  void* p = mmap(kRegion, kRegionSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != kRegion) HarnessError("no memory region for the run");
  g_region_at = kRegion;
}
}  // namespace sim
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n) {
  if (!g_region_at) return __libc_malloc(n);
  void* p = RegionNew(n, 0);
  if (p) sim::ForgetRange(p, n);
  else errno = ENOMEM;
  return p;
}
void free(void* p) {
  if (!p) return;
  if (InRegion(p)) RegionDelete(p);
  else __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (!g_region_at) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) n = ~size_t(0);
  void* p = malloc(n);
  return p ? memset(p, 0, n) : p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!InRegion(p)) return __libc_realloc(p, n);
  void* q = malloc(n);
  if (!q) return q;
  size_t have = PayloadOf(p);
  memcpy(q, p, have < n ? have : n);
  free(p);
  return q;
}
void* memalign(size_t align, size_t n) {
  if (!g_region_at) return __libc_memalign(align, n);
  void* p = RegionNew(n, align);
  if (p) sim::ForgetRange(p, n);
  else errno = ENOMEM;
  return p;
}
void* aligned_alloc(size_t align, size_t n) { return memalign(align, n); }
int posix_memalign(void** p, size_t align, size_t n) {
  *p = memalign(align, n);
  return *p ? 0 : ENOMEM;
}
}
static void* New(size_t n, size_t align) {
  void* p = align ? memalign(align, n) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return New(n, 0); }
void* operator new[](size_t n) { return New(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return New(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return New(n, (size_t)a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
#else
namespace sim {
void InitRegion() {}
}  // namespace sim
#endif

// Blocking primitives reached from simulated tasks become scheduling points.
#define REAL(name) \
  static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(pthread_mutex_lock);
  if (!sim::InTask()) return real(m);
  for (;;) {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    sim::BlockedYield();
  }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  REAL(pthread_rwlock_wrlock);
  if (!sim::InTask()) return real(m);
  for (;;) {
    int r = pthread_rwlock_trywrlock(m);
    if (r != EBUSY) return r;
    sim::BlockedYield();
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  REAL(pthread_rwlock_rdlock);
  if (!sim::InTask()) return real(m);
  for (;;) {
    int r = pthread_rwlock_tryrdlock(m);
    if (r != EBUSY) return r;
    sim::BlockedYield();
  }
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(pthread_cond_wait);
  if (!sim::InTask()) return real(c, m);
  pthread_mutex_unlock(m);  // a spurious wake-up is always allowed
  sim::BlockedYield();
  return pthread_mutex_lock(m);
}
int pthread_once(pthread_once_t* once, void (*fn)(void)) {
  REAL(pthread_once);
  if (!sim::InTask()) return real(once, fn);
  // Not done: run it without preemption.  (glibc marks done with value 2.)
  if (*(volatile int*)once == 2) return 0;
  sim::t_in_sim = true;
  int r = real(once, fn);
  sim::t_in_sim = false;
  return r;
}
// absl::Mutex / spin locks.
void AbslInternalMutexYield_debian3() {
  if (sim::InTask()) sim::BlockedYield(); else sched_yield();
}
void AbslInternalSpinLockDelay_debian3(void*, uint32_t, int, int) {
  if (sim::InTask()) sim::BlockedYield(); else sched_yield();
}
void AbslInternalSpinLockWake_debian3(void*, bool) {}
static std::unordered_map<void*, int>& Sems() {
  static auto* m = new std::unordered_map<void*, int>;
  return *m;
}
void AbslInternalPerThreadSemPost_debian3(void* id) {
  bool s = sim::t_in_sim;
  sim::t_in_sim = true;
  Sems()[id]++;
  sim::t_in_sim = s;
}
bool AbslInternalPerThreadSemWait_debian3(absl::synchronization_internal::KernelTimeout) {
  void* id = absl::synchronization_internal::GetOrCreateCurrentThreadIdentity();
  int& n = Sems()[id];
  while (n == 0) {
    if (sim::InTask()) sim::BlockedYield(); else sched_yield();
  }
  n--;
  return true;
}
// Static local initialisation.
int __cxa_guard_acquire(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (sim::InTask()) sim::BlockedYield(); else sched_yield();
  }
}
void __cxa_guard_release(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  b[1] = 0;
  __sync_synchronize();
  b[0] = 1;
}
void __cxa_guard_abort(uint64_t* g) { ((volatile char*)g)[1] = 0; }
}
