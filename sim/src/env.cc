// Seams: entropy, clock, aligned allocation, SIMD dispatch.  All are real
// interposition of the symbols the code under test calls.
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <random>

#include "absl/status/status.h"
#include "core.h"
#include "dpf/aes_128_fixed_key_hash.h"
#include "hwy/aligned_allocator.h"
#include "hwy/highway.h"
#include "openssl/aes.h"
#include "openssl/evp.h"
#include "sim.h"

namespace sim {
static bool g_active = false;  // inside a run
static thread_local Node* t_node = nullptr;
static Node* g_default_node = nullptr;
static int g_node_count = 0;
static int64_t g_all_targets = 0;
static std::vector<int64_t>* g_targets;

int RealClock(int clk, timespec* ts) { return syscall(SYS_clock_gettime, clk, ts); }

Node* NewNode(const std::string& name) {
  Node* n = new Node;
  n->name = name;
  SeedState(n->rng, Mix(Mix(RunSeed(), 0xe47), Mix(HashStr(name), g_node_count++)));
  return n;
}
Node* CurNode() { return t_node ? t_node : g_default_node; }

int SimdTargets() { return g_targets->size(); }
void ApplySimd() {
  static int64_t cur = 0;
  Node* n = CurNode();
  int64_t want = (*g_targets)[n ? n->simd % g_targets->size() : 0];
  // Only this target and everything below it is visible: a lesser machine.
  int64_t mask = 0;
  for (int64_t t : *g_targets)
    if (t >= want) mask |= t;
  if (mask == cur) return;
  cur = mask;
  hwy::SetSupportedTargetsForTest(mask);
  hwy::GetChosenTarget().Update(hwy::SupportedTargets());
}
NodeScope::NodeScope(Node* n) : prev(t_node) {
  t_node = n;
  ApplySimd();
}
NodeScope::~NodeScope() {
  t_node = prev;
  ApplySimd();
}
void SetTaskNode(Node* n) { t_node = n; }

void InitProcess() {
  g_all_targets = hwy::SupportedTargets();
  g_targets = new std::vector<int64_t>;
  // Best target first: in hwy a smaller bit is a better target.
  for (int b = 0; b < 62; b++)
    if (g_all_targets & (1ll << b)) g_targets->push_back(1ll << b);
}
void InitRun() { g_default_node = NewNode("main"); }
void StartRun() {
  g_active = true;
  ApplySimd();
}

static void Fill(Node* n, void* buf, size_t len) {
  NoPreempt np;
  unsigned char* p = (unsigned char*)buf;
  n->rand_bytes += len;
  for (size_t i = 0; i < len; i += 8) {
    uint64_t v = NextState(n->rng);
    if (n->odd_entropy) {
      unsigned how = v >> 32 & 3;
      if (how == 1) v = ~uint64_t(0);
      if (how == 2) v = 0;
      if (how == 3) v = ~uint64_t(0) - (v & 3);
    }
    memcpy(p + i, &v, std::min<size_t>(8, len - i));
  }
  if (n->record_rand) {
    n->rand_log.emplace_back((char*)buf, len);
    n->rand_task.push_back(CurTask());
  }
}
static void FallbackEntropy(void* buf, size_t len) {
  unsigned char* p = (unsigned char*)buf;
  while (len) {
    long r = syscall(SYS_getrandom, p, len, 0);
    if (r <= 0) abort();
    p += r;
    len -= r;
  }
}
}  // namespace sim

using sim::CurNode;
using sim::g_active;

extern "C" {
int RAND_bytes(uint8_t* buf, size_t len) {
  sim::Node* n = g_active ? CurNode() : nullptr;
  if (!n) {
    sim::FallbackEntropy(buf, len);
    return 1;
  }
  n->rng_calls++;
  if (n->rng_yields) sim::Yield();
  if (n->rng_fail_after >= 0) {
    if (n->rng_fail_after == 0) {
      if (!n->rng_fail_forever) n->rng_fail_after = -1;
      n->rng_failures++;
      sim::Count("fault:rng-failure");
      return 0;
    }
    n->rng_fail_after--;
  }
  sim::Fill(n, buf, len);
  if (n->rng_flip_after >= 0 && n->rng_flip_after-- == 0)
    for (size_t i = 0; i < len; i++) buf[i] = ~buf[i];
  return 1;
}
int RAND_priv_bytes(uint8_t* buf, size_t len) { return RAND_bytes(buf, len); }
ssize_t getrandom(void* buf, size_t len, unsigned) {
  sim::Node* n = g_active ? CurNode() : nullptr;
  if (n) sim::Fill(n, buf, len); else sim::FallbackEntropy(buf, len);
  return len;
}
int getentropy(void* buf, size_t len) {
  getrandom(buf, len, 0);
  return 0;
}
int clock_gettime(clockid_t clk, timespec* ts) {
  if (!g_active) return sim::RealClock(clk, ts);
  uint64_t us = sim::Now() + 1700000000ull * 1000000ull;
  ts->tv_sec = us / 1000000;
  ts->tv_nsec = us % 1000000 * 1000;
  return 0;
}
time_t time(time_t* t) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int gettimeofday(struct timeval* tv, void*) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) tv->tv_sec = ts.tv_sec, tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
}

namespace std {
unsigned int random_device::_M_getval() {
  unsigned int v;
  getrandom(&v, sizeof v, 0);
  return v;
}
}  // namespace std

// The AES provider: calls made by the code under test may fail.
namespace sim {
thread_local bool t_walking = false;  // inside the tree evaluator, which is metered as a whole
bool CipherFails() {
  Node* n = g_active ? CurNode() : nullptr;
  if (!n || !n->cipher_fail_at) return false;
  if (++n->cipher_calls != n->cipher_fail_at) return false;
  n->cipher_fail_at = 0;
  n->cipher_failures++;
  Count("fault:cipher-failure");
  return true;
}
template <class F>
F* Next(const char* name) {
  F* f = (F*)dlsym(RTLD_NEXT, name);
  if (!f) abort();
  return f;
}
}  // namespace sim
extern "C" {
EVP_CIPHER_CTX* EVP_CIPHER_CTX_new(void) {
  static auto* real = sim::Next<EVP_CIPHER_CTX*(void)>("EVP_CIPHER_CTX_new");
  return sim::CipherFails() ? nullptr : real();
}
int EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv) {
  using F = int(EVP_CIPHER_CTX*, const EVP_CIPHER*, ENGINE*, const unsigned char*, const unsigned char*);
  static auto* real = sim::Next<F>("EVP_EncryptInit_ex");
  return sim::CipherFails() ? 0 : real(c, t, e, k, iv);
}
int EVP_Cipher(EVP_CIPHER_CTX* c, unsigned char* out, const unsigned char* in, size_t n) {
  if (sim::Node* node = sim::g_active && !sim::t_walking ? sim::CurNode() : nullptr) node->aes_blocks += n / 16;
  static auto* real = sim::Next<int(EVP_CIPHER_CTX*, unsigned char*, const unsigned char*, size_t)>("EVP_Cipher");
  sim::LibAccess(out);
  int r = sim::CipherFails() ? 0 : real(c, out, in, n);
  sim::LibAccess(out);
  return r;
}
int AES_set_encrypt_key(const unsigned char* k, unsigned bits, AES_KEY* out) {
  static auto* real = sim::Next<int(const unsigned char*, unsigned, AES_KEY*)>("AES_set_encrypt_key");
  sim::LibAccess(out);
  int r = sim::CipherFails() ? -1 : real(k, bits, out);
  sim::LibAccess(out);
  return r;
}
}

// The tree evaluator computes its AES rounds in vector registers: one block per
// seed and level.
namespace dpf = ::distributed_point_functions;
absl::Status RealEvaluateSeeds(int64_t, int, int, const absl::uint128*, const bool*, const absl::uint128*, int, const absl::uint128*, const bool*, const bool*,
                               const dpf::Aes128FixedKeyHash&, const dpf::Aes128FixedKeyHash&, absl::uint128*, bool*)
    __asm__("__real__ZN27distributed_point_functions12dpf_internal13EvaluateSeedsEliiPKN4absl7debian37uint128EPKbS5_iS5_S7_S7_RKNS_18Aes128FixedKeyHashESA_PS3_Pb") __attribute__((weak));
absl::Status WrapEvaluateSeeds(int64_t, int, int, const absl::uint128*, const bool*, const absl::uint128*, int, const absl::uint128*, const bool*, const bool*,
                               const dpf::Aes128FixedKeyHash&, const dpf::Aes128FixedKeyHash&, absl::uint128*, bool*)
    __asm__("__wrap__ZN27distributed_point_functions12dpf_internal13EvaluateSeedsEliiPKN4absl7debian37uint128EPKbS5_iS5_S7_S7_RKNS_18Aes128FixedKeyHashESA_PS3_Pb");
absl::Status WrapEvaluateSeeds(int64_t seeds, int levels, int words, const absl::uint128* in, const bool* bits, const absl::uint128* paths, int shift,
                               const absl::uint128* cs, const bool* cl, const bool* cr, const dpf::Aes128FixedKeyHash& left,
                               const dpf::Aes128FixedKeyHash& right, absl::uint128* out, bool* bits_out) {
  if (sim::Node* node = g_active ? sim::CurNode() : nullptr) node->aes_blocks += seeds * levels;
  bool was = sim::t_walking;
  sim::t_walking = true;
  auto r = RealEvaluateSeeds(seeds, levels, words, in, bits, paths, shift, cs, cl, cr, left, right, out, bits_out);
  sim::t_walking = was;
  return r;
}

namespace hwy {
#define SIM_ALLOC_NAME AllocateAlignedBytes
void* AllocateAlignedBytes(size_t payload_size, AllocPtr alloc_ptr, void* opaque) {
  using Fn = void* (*)(size_t, AllocPtr, void*);
  static Fn real = nullptr;
  if (!real) {
    real = (Fn)dlsym(RTLD_NEXT, "_ZN3hwy20AllocateAlignedBytesEmPFPvS0_mES0_");
    if (!real) abort();
  }
  sim::Node* n = g_active ? CurNode() : nullptr;
  if (n) {
    n->allocs++;
    bool fail = n->alloc_fail_at && n->allocs == n->alloc_fail_at;
    if (!fail && n->alloc_fail_ppm)
      fail = sim::Mix(n->rng[0] ^ sim::RunSeed(), n->allocs) % 1000000 < n->alloc_fail_ppm;
    if (fail) {
      n->alloc_failures++;
      sim::Count("fault:aligned-alloc-failure");
      return nullptr;
    }
  }
  return real(payload_size, alloc_ptr, opaque);
}
}  // namespace hwy

extern "C" const char* __asan_default_options() {
  return "exitcode=99:detect_leaks=0:abort_on_error=0:symbolize=0:max_malloc_fill_size=268435456:"
         "malloc_fill_byte=190:detect_stack_use_after_return=0:allocator_may_return_null=0:"
         "quarantine_size_mb=16:handle_abort=0:handle_segv=1:print_legend=0:max_allocation_size_mb=4096";
}
