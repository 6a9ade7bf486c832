// Simulator core: tape, log, counters, run isolation (one fork per run).
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <string>
#include <vector>

#include "core.h"
#include "sim.h"

namespace sim {
Shm* g_shm = nullptr;
static bool g_verbose = false;
static FILE* g_log = nullptr;
static bool g_replay = false;
static const uint64_t* g_tape_in = nullptr;
static uint64_t g_tape_in_len = 0;
static uint64_t g_draw_state[4];
static uint64_t g_run_seed = 0;
extern uint64_t SchedHash();
extern uint64_t SchedSwitches();

static inline uint64_t SplitMix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t x = a ^ (b * 0xff51afd7ed558ccdull) ^ (b >> 29);
  SplitMix(x);
  return SplitMix(x);
}
void SeedState(uint64_t s[4], uint64_t key) {
  for (int i = 0; i < 4; i++) s[i] = SplitMix(key);
}
uint64_t NextState(uint64_t s[4]) {  // xoshiro256**
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
uint64_t HashBytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, c, 8);
    h = (h ^ w) * 0x9FB21C651E98DF25ull;
    h ^= h >> 32;
    c += 8;
    n -= 8;
  }
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
  return h ^ (h >> 31);
}
uint64_t RunSeed() { return g_run_seed; }
bool Verbose() { return g_verbose; }

uint64_t Draw(uint64_t n) {
  if (n == 0) HarnessError("Draw(0)");
  uint64_t v;
  uint64_t i = g_shm->tape_len;
  if (g_replay) {
    v = i < g_tape_in_len ? g_tape_in[i] % n : 0;
  } else {
    v = n == 1 ? 0 : NextState(g_draw_state) % n;
  }
  if (i < kTapeCap) {
    g_shm->tape[i] = v;
    g_shm->tape_len = i + 1;
  } else {
    HarnessError("tape overflow");
  }
  return v;
}
bool Chance(unsigned num, unsigned den) { return Draw(den) >= (uint64_t)den - num; }

Span::Span() : start(g_shm->tape_len) {}
Span::~Span() {
  uint32_t e = g_shm->tape_len;
  if (e > start && g_shm->nspans < kSpanCap) {
    g_shm->spans[g_shm->nspans][0] = start;
    g_shm->spans[g_shm->nspans][1] = e;
    g_shm->nspans++;
  }
}

Stream::Stream(uint64_t k, uint64_t k2) { SeedState(s_, Mix(Mix(g_run_seed, 0x5174), Mix(k, k2))); }
uint64_t Stream::Next() { return NextState(s_); }
std::string Stream::Bytes(size_t n) {
  std::string r(n, 0);
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = Next();
    memcpy(&r[i], &v, std::min<size_t>(8, n - i));
  }
  return r;
}

std::string Hex(const std::string& s, size_t max) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < s.size() && i < max; i++) {
    r += d[(unsigned char)s[i] >> 4];
    r += d[s[i] & 15];
  }
  if (s.size() > max) r += "..(" + std::to_string(s.size()) + "B)";
  return r;
}

void Log(const char* fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  g_shm->log_hash = HashBytes(buf, n, g_shm->log_hash ^ Now());
  g_shm->log_lines++;
  if (g_verbose) {
    fprintf(g_log, "[%llu us t%d %s] %s\n", (unsigned long long)Now(), CurTask(),
            CurNode() ? CurNode()->name.c_str() : "-", buf);
    fflush(g_log);
  }
}

void Count(const char* name, uint64_t by) {
  // Names are mostly literals: cache by pointer first, then by content.
  static const char* cached[64];
  static int idx[64];
  unsigned h = ((uintptr_t)name >> 2) % 64;
  if (cached[h] == name && idx[h] < g_shm->ncounters && !strcmp(g_shm->counters[idx[h]].name, name)) {
    g_shm->counters[idx[h]].v += by;
    return;
  }
  int i = 0;
  for (; i < g_shm->ncounters; i++)
    if (!strcmp(g_shm->counters[i].name, name)) break;
  if (i == g_shm->ncounters) {
    if (i == kCounters) HarnessError("too many counters");
    snprintf(g_shm->counters[i].name, sizeof g_shm->counters[i].name, "%s", name);
    g_shm->ncounters++;
  }
  cached[h] = name;
  idx[h] = i;
  g_shm->counters[i].v += by;
}

static void SetInsert(HashSet* s, uint64_t h) {
  if (!h) h = 1;
  if (s->n > kSetCap * 3 / 4) {
    s->overflow++;
    return;
  }
  for (uint64_t i = h % kSetCap;; i = (i + 1) % kSetCap) {
    if (s->v[i] == h) return;
    if (!s->v[i]) {
      s->v[i] = h;
      s->n++;
      return;
    }
  }
}
void State(uint64_t h) { SetInsert(&g_shm->states, h); }
void NonTrivial() { g_shm->nontrivial = 1; }

extern "C" __attribute__((weak)) int __llvm_profile_write_file(void);  // coverage builds only

static void Finish(int kind) {
  if (__llvm_profile_write_file) __llvm_profile_write_file();
  g_shm->sim_time_us = Now();
  g_shm->sched_hash = SchedHash();
  g_shm->switches = SchedSwitches();
  g_shm->result = kind;
  if (g_verbose && g_log) fflush(g_log);
  _exit(kind == kOk ? 0 : 40 + kind);
}
void Violate(const char* cls, const char* fmt, ...) {
  snprintf(g_shm->cls, sizeof g_shm->cls, "%s", cls);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_shm->msg, sizeof g_shm->msg, fmt, ap);
  va_end(ap);
  Log("VIOLATED %s: %s", g_shm->cls, g_shm->msg);
  Finish(kViolation);
  abort();
}
void HarnessError(const char* fmt, ...) {
  snprintf(g_shm->cls, sizeof g_shm->cls, "harness");
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_shm->msg, sizeof g_shm->msg, fmt, ap);
  va_end(ap);
  g_shm->result = kHarness;
  _exit(40 + kHarness);
}
void EndRun() {
  Finish(kOk);
  abort();
}

// ---------------------------------------------------------------- registry
struct Scn {
  std::string prop, name;
  ScenarioFn fn;
  int weight;
  bool wants_preempt;
};
static std::vector<Scn>& Registry() {
  static auto* r = new std::vector<Scn>;
  return *r;
}
RegisterScenario::RegisterScenario(const char* p, const char* n, ScenarioFn f, int w, bool pre) {
  Registry().push_back({p, n, f, w, pre});
}

static double WallNow() {
  timespec t;
  RealClock(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static int g_errfd = -1;

// Runs one simulated execution in a child process; fills *g_shm.
// (one fork per run)
static void RunOne(const std::vector<const Scn*>& scns, uint64_t seed, const std::vector<uint64_t>* tape,
                   FILE* log) {
  Shm* s = g_shm;
  s->result = kNone;
  s->tape_len = 0;
  s->nspans = 0;
  s->log_hash = 0x1234567;
  s->log_lines = 0;
  s->sim_time_us = s->sched_hash = s->switches = 0;
  s->nontrivial = 0;
  s->cls[0] = s->msg[0] = 0;
  if (ftruncate(g_errfd, 0)) {}
  lseek(g_errfd, 0, SEEK_SET);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(3);
  }
  if (pid == 0) {
    dup2(g_errfd, 2);
    if (!log) {
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 1);
    }
    rlimit rl = {kCpuLimit, kCpuLimit + 2};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit nc = {0, 0};
    setrlimit(RLIMIT_CORE, &nc);
    itimerval it = {};
    it.it_value.tv_sec = kWallLimit;
    setitimer(ITIMER_REAL, &it, nullptr);
    g_run_seed = seed;
    g_replay = tape != nullptr;
    if (tape) {
      g_tape_in = tape->data();
      g_tape_in_len = tape->size();
    }
    SeedState(g_draw_state, Mix(seed, 0xd7a3));
    g_verbose = log != nullptr;
    g_log = log;
    InitRun();
    InitRegion();
    int total = 0;
    for (auto* sc : scns) total += sc->weight;
    int w = Draw(total);
    const Scn* pick = nullptr;
    for (auto* sc : scns)
      if (w < sc->weight) {
        pick = sc;
        break;
      } else {
        w -= sc->weight;
      }
    Log("scenario %s/%s", pick->prop.c_str(), pick->name.c_str());
    Count(("scenario:" + pick->name).c_str());
    if (pick->wants_preempt) InitPreempt();
    StartRun();
    pick->fn();
    Finish(kOk);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (s->result == kNone) {
    char err[16384];
    ssize_t n = pread(g_errfd, err, sizeof err - 1, 0);
    err[n > 0 ? n : 0] = 0;
    s->result = kCrash;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
      s->result = kHarness;
      snprintf(s->cls, sizeof s->cls, "wall-timeout");
      snprintf(s->msg, sizeof s->msg, "run exceeded %d s of real time", kWallLimit);
    } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
      if (WTERMSIG(st) == SIGKILL) s->result = kHarness;
      snprintf(s->cls, sizeof s->cls, "hang");
      snprintf(s->msg, sizeof s->msg, "run used more than %d s of CPU time", kCpuLimit);
    } else {
      const char* a = strstr(err, "AddressSanitizer: ");
      if (a) {
        char what[64];
        sscanf(a + 18, "%63[A-Za-z0-9-]", what);
        snprintf(s->cls, sizeof s->cls, "crash-asan-%s", what);
      } else if (WIFSIGNALED(st)) {
        snprintf(s->cls, sizeof s->cls, "crash-signal-%d", WTERMSIG(st));
      } else {
        snprintf(s->cls, sizeof s->cls, "crash-exit-%d", WEXITSTATUS(st));
      }
      snprintf(s->msg, sizeof s->msg, "%.*s", (int)sizeof(s->msg) - 1, a ? a : err);
    }
  }
}

static std::string JsonEsc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}
static void PrintRun(FILE* f, uint64_t seed, bool with_tape) {
  Shm* s = g_shm;
  const char* k[] = {"none", "ok", "violation", "harness", "crash"};
  fprintf(f, "{\"t\":\"run\",\"seed\":%llu,\"result\":\"%s\",\"cls\":\"%s\",\"msg\":\"%s\",\"log_hash\":\"%016llx\",\"log_lines\":%llu,\"sched_hash\":\"%016llx\",\"switches\":%llu,\"sim_us\":%llu,\"tape_len\":%u",
          (unsigned long long)seed, k[s->result], JsonEsc(s->cls).c_str(), JsonEsc(s->msg).c_str(),
          (unsigned long long)s->log_hash, (unsigned long long)s->log_lines,
          (unsigned long long)s->sched_hash, (unsigned long long)s->switches,
          (unsigned long long)s->sim_time_us, s->tape_len);
  if (with_tape) {
    fprintf(f, ",\"tape\":[");
    for (uint32_t i = 0; i < s->tape_len; i++)
      fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)s->tape[i]);
    fprintf(f, "],\"spans\":[");
    for (uint32_t i = 0; i < s->nspans; i++)
      fprintf(f, "%s[%u,%u]", i ? "," : "", s->spans[i][0], s->spans[i][1]);
    fprintf(f, "]");
  }
  fprintf(f, "}\n");
  fflush(f);
}
static void DumpSet(const std::string& path, HashSet* hs) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) return;
  for (uint64_t i = 0; i < kSetCap; i++)
    if (hs->v[i]) fwrite(&hs->v[i], 8, 1, f);
  fclose(f);
}
}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  if (!getenv("SIM_NOASLR_DONE")) {  // same addresses in every execution
    setenv("SIM_NOASLR_DONE", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  std::string mode = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> o;
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  auto num = [&](const char* k, uint64_t d) {
    return o.count(k) ? strtoull(o[k].c_str(), nullptr, 0) : d;
  };
  if (mode == "list") {
    for (auto& s : Registry())
      printf("%s %s %d %d\n", s.prop.c_str(), s.name.c_str(), s.weight, s.wants_preempt);
    return 0;
  }
  if (mode == "seedof") {
    printf("%llu\n", (unsigned long long)(Mix(Mix(num("--seed", 1), HashStr(o["--prop"])), num("--start", 0)) >> 1));
    return 0;
  }
  if (mode != "batch" && mode != "one" && mode != "tapes") {
    fprintf(stderr, "usage: %s batch|one|list --prop P ...\n", argv[0]);
    return 3;
  }
  std::vector<const Scn*> scns;
  for (auto& s : Registry())
    if (s.prop == o["--prop"] && (!o.count("--scn") || o["--scn"] == s.name)) scns.push_back(&s);
  std::sort(scns.begin(), scns.end(), [](const Scn* a, const Scn* b) { return a->name < b->name; });
  if (scns.empty()) {
    fprintf(stderr, "no scenario for %s\n", o["--prop"].c_str());
    return 3;
  }
  g_shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_shm == MAP_FAILED) {
    perror("mmap");
    return 3;
  }
  g_errfd = memfd_create("simerr", 0);
  InitProcess();

  if (mode == "one") {
    // one --prop P --seed RUNSEED [--tape FILE(text numbers)] [--log 1] [--full 1]
    std::vector<uint64_t> tape;
    bool have = o.count("--tape");
    if (have) {
      FILE* f = fopen(o["--tape"].c_str(), "r");
      if (!f) return 3;
      unsigned long long v;
      while (fscanf(f, "%llu", &v) == 1) tape.push_back(v);
      fclose(f);
    }
    RunOne(scns, num("--seed", 1), have ? &tape : nullptr, num("--log", 0) ? stdout : nullptr);
    PrintRun(stdout, num("--seed", 1), num("--full", 1));
    return 0;
  }
  if (mode == "tapes") {
    // Reads candidate tapes (one per line) from stdin; prints a run line for each.
    std::string line;
    int c;
    std::vector<uint64_t> tape;
    bool any = false, innum = false;
    uint64_t cur = 0;
    while (true) {
      c = getchar();
      if (c == EOF) break;
      if (c >= '0' && c <= '9') {
        cur = cur * 10 + (c - '0');
        innum = true;
        continue;
      }
      if (innum) {
        tape.push_back(cur);
        cur = 0;
        innum = false;
      }
      if (c == '\n') {
        RunOne(scns, num("--seed", 1), &tape, nullptr);
        PrintRun(stdout, num("--seed", 1), true);
        tape.clear();
      }
    }
    return 0;
  }
  // batch --prop P --seed S --worker i --stride n --time SECONDS --max N --out FILE
  uint64_t base = num("--seed", 1), i = num("--worker", 0), stride = num("--stride", 1);
  uint64_t maxruns = num("--max", ~0ull), viol_cap = num("--maxviol", 3);
  double limit = atof(o.count("--time") ? o["--time"].c_str() : "1e18");
  FILE* out = fopen(o["--out"].c_str(), "w");
  if (!out) {
    perror("out");
    return 3;
  }
  bool all = num("--all", 0);
  double t0 = WallNow();
  uint64_t runs = 0, nontriv = 0, viol = 0, simus = 0, draws = 0, lines = 0, switches = 0, harness = 0;
  uint64_t ph = HashStr(o["--prop"]);
  while (runs < maxruns && WallNow() - t0 < limit && viol < viol_cap && harness < 3) {
    uint64_t seed = Mix(Mix(base, ph), i) >> 1;
    RunOne(scns, seed, nullptr, nullptr);
    runs++;
    i += stride;
    simus += g_shm->sim_time_us;
    draws += g_shm->tape_len;
    lines += g_shm->log_lines;
    switches += g_shm->switches;
    nontriv += g_shm->nontrivial;
    if (g_shm->nontrivial) SetInsert(&g_shm->hist, g_shm->log_hash);
    if (g_shm->switches) SetInsert(&g_shm->inter, g_shm->sched_hash);
    if (g_shm->result != kOk) {
      if (g_shm->result == kHarness) harness++; else viol++;
      PrintRun(out, seed, true);
    } else if (all) {
      PrintRun(out, seed, false);
    }
  }
  fprintf(out, "{\"t\":\"sum\",\"runs\":%llu,\"nontrivial\":%llu,\"viol\":%llu,\"sim_us\":%llu,\"draws\":%llu,\"log_lines\":%llu,\"switches\":%llu,\"wall\":%.3f,\"counters\":{",
          (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)viol,
          (unsigned long long)simus, (unsigned long long)draws, (unsigned long long)lines,
          (unsigned long long)switches, WallNow() - t0);
  for (int c = 0; c < g_shm->ncounters; c++)
    fprintf(out, "%s\"%s\":%llu", c ? "," : "", JsonEsc(g_shm->counters[c].name).c_str(),
            (unsigned long long)g_shm->counters[c].v);
  fprintf(out, "}}\n");
  fclose(out);
  DumpSet(o["--out"] + ".hist", &g_shm->hist);
  DumpSet(o["--out"] + ".states", &g_shm->states);
  DumpSet(o["--out"] + ".inter", &g_shm->inter);
  return 0;
}
