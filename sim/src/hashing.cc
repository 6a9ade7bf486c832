// P10 cuckoo table, P11 bucketed tables, P23 hash families.
//
// "Nodes" are several tables owned by different tasks.  The hash functions are
// handed in by the caller, so they are the seam: inside them the simulator may
// switch to another table's task, and chooses where elements collide.  Faults:
// full stash / full bucket in the middle of an insertion, and crash + rebuild
// of a table from the durable insertion log at an arbitrary point.
#include <algorithm>
#include <map>
#include <set>

#include "openssl/sha.h"
#include "pir/hashing/cuckoo_hash_table.h"
#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/hash_family.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/multiple_choice_hash_table.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/hashing/simple_hash_table.h"
#include "sim.h"
#include "util.h"

using namespace distributed_point_functions;
using namespace sim;

namespace {
// A caller-supplied hash function: pure, but slow (may be preempted inside).
struct HashSpec {
  int kind;  // 0 sha256 family, 1 farm family, 2 synthetic uniform, 3 synthetic few-buckets, 4 constant
  uint64_t key;
  int index;
  bool yields;
};
int Eval(const HashSpec& h, absl::string_view in, int bound) {
  uint64_t v = Mix(h.key + h.index * 77, HashBytes(in.data(), in.size()));
  switch (h.kind) {
    case 3: return (v % 3) * 7 % bound;
    case 4: return (h.key + h.index) % bound;
    default: return v % bound;
  }
}
std::vector<HashFunction> Build(const HashSpec& base, int n) {
  std::vector<HashFunction> r;
  if (base.kind <= 1) {
    HashFamily f = base.kind == 0 ? HashFamily(SHA256HashFamily()) : HashFamily(FarmHashFamily());
    std::string seed = "k" + std::to_string(base.key % 1000);
    auto s = CreateHashFunctions(WrapWithSeed(std::move(f), seed), n);
    if (!s.ok()) Violate("create-hash-functions", "%s", s.status().ToString().c_str());
    for (auto& fn : *s) {
      bool y = base.yields;
      auto sp = std::make_shared<HashFunction>(std::move(fn));
      r.push_back([sp, y](absl::string_view in, int b) {
        if (y) Yield();
        int v = (*sp)(in, b);
        if (v < 0 || v >= b) Violate("hash-range", "hash value %d outside [0,%d)", v, b);
        if (y) Yield();
        return v;
      });
    }
    return r;
  }
  for (int i = 0; i < n; i++) {
    HashSpec h = base;
    h.index = i;
    r.push_back([h](absl::string_view in, int b) {
      if (h.yields) Yield();
      return Eval(h, in, b);
    });
  }
  return r;
}
HashFamily Family(const HashSpec& h) {
  HashFamily f = h.kind == 0 ? HashFamily(SHA256HashFamily()) : HashFamily(FarmHashFamily());
  return WrapWithSeed(std::move(f), "k" + std::to_string(h.key % 1000));
}
// The table's own functions are the ones it was given.
template <class T>
void CheckFunctions(T& t, const std::vector<HashFunction>& ref, int buckets) {
  auto fs = t.GetHashFunctions();
  if (fs.size() != ref.size()) Violate("table-functions", "%zu hash functions given, the table has %zu", ref.size(), fs.size());
  for (size_t i = 0; i < fs.size(); i++)
    for (const char* in : {"", "a", "some longer element"})
      if (fs[i](in, buckets) != ref[i](in, buckets)) Violate("table-functions", "hash function %zu is not the one the table was created with", i);
}
HashSpec DrawSpec(bool yields) {
  HashSpec h;
  h.kind = Draw(5);
  h.key = Draw(1000);
  h.index = 0;
  h.yields = yields;
  return h;
}
std::string Elem(Stream& st, int universe) {
  uint64_t v = st.Below(universe);
  std::string s = "e" + std::to_string(v);
  if (v % 5 == 1) s += std::string(v % 70, 'x');
  if (v % 7 == 2) s = std::string("\0", 1) + s + std::string("\0\xff", 2);
  if (v == 3) s = "";
  return s;
}
std::map<std::string, int> Multiset(const std::vector<std::string>& v) {
  std::map<std::string, int> m;
  for (auto& s : v) m[s]++;
  return m;
}

struct CuckooWorld {
  HashSpec spec;
  int buckets, nhash, reloc, stash;  // stash -1 = unlimited
  std::vector<std::string> acked;    // durable log of acknowledged insertions
  std::vector<std::string> attempts; // everything attempted, in order
  std::unique_ptr<CuckooHashTable> t;
  std::vector<HashFunction> ref;
  int id;

  void Open() {
    // The family overload makes the same functions.
    bool fam = spec.kind <= 1 && !spec.yields && Chance(1, 2);
    auto r = fam ? (stash < 0 ? CuckooHashTable::Create(Family(spec), buckets, nhash, reloc) : CuckooHashTable::Create(Family(spec), buckets, nhash, reloc, stash))
             : stash < 0 ? CuckooHashTable::Create(Build(spec, nhash), buckets, reloc)
                         : CuckooHashTable::Create(Build(spec, nhash), buckets, reloc, stash);
    if (!r.ok()) Violate("cuckoo-create", "valid parameters rejected: %s", r.status().ToString().c_str());
    t = std::move(*r);
    HashSpec q = spec;
    q.yields = false;
    ref = Build(q, nhash);
    CheckFunctions(*t, ref, buckets);
    if (Chance(1, 6)) {  // and impossible tables are refused
      Count("fault:bad-argument");
      NonTrivial();
      auto fs = Build(q, nhash);
      int nb = buckets, rl = reloc, sz = stash < 0 ? Draw(3) : stash;
      switch (Draw(5)) {
        case 0: nb = 0; break;
        case 1: nb = -1 - (int)Draw(3); break;
        case 2: rl = -1 - (int)Draw(3); break;
        case 3: sz = -1 - (int)Draw(3); break;
        case 4: fs.resize(Draw(2)); break;
      }
      int have = fs.size();
      auto bad = CuckooHashTable::Create(std::move(fs), nb, rl, sz);
      if (bad.status().code() != absl::StatusCode::kInvalidArgument)
        Violate("cuckoo-bad-argument", "table with %d buckets, %d hash functions, %d relocations, stash %d: %s", nb, have, rl, sz, bad.ok() ? "accepted" : bad.status().ToString().c_str());
    }
  }
  std::vector<std::string> Contents() {
    std::vector<std::string> all;
    for (auto& e : t->GetTable())
      if (e) all.push_back(*e);
    for (auto& e : t->GetStash()) all.push_back(e);
    return all;
  }
  void Check(const char* when) {
    const auto& tab = t->GetTable();
    if ((int)tab.size() != buckets)
      Violate("cuckoo-shape", "table has %zu buckets, created with %d", tab.size(), buckets);
    for (int i = 0; i < buckets; i++) {
      if (!tab[i]) continue;
      bool ok = false;
      for (auto& h : ref) ok |= h(*tab[i], buckets) == i;
      if (!ok) Violate("cuckoo-placement", "%s: element %s sits in bucket %d, none of its candidates", when, Hex(*tab[i]).c_str(), i);
    }
    if (stash >= 0 && (int)t->GetStash().size() > stash)
      Violate("cuckoo-stash-limit", "%s: stash holds %zu > %d", when, t->GetStash().size(), stash);
    auto have = Multiset(Contents()), want = Multiset(acked);
    for (auto& w : want)
      if (have[w.first] < w.second)
        Violate("cuckoo-lost", "%s: acknowledged element %s present %d times, inserted %d times (buckets=%d hashes=%d relocations=%d stash=%d)",
                when, Hex(w.first).c_str(), have[w.first], w.second, buckets, nhash, reloc, stash);
    for (auto& h : have)
      if (h.second > want[h.first])
        Violate("cuckoo-phantom", "%s: element %s present %d times, acknowledged %d times", when, Hex(h.first).c_str(), h.second, want[h.first]);
  }
  void Insert(const std::string& e) {
    size_t stash_before = t->GetStash().size();
    int before = acked.size();
    absl::Status s = t->Insert(e);
    attempts.push_back(e);
    if (s.ok()) {
      acked.push_back(e);
    } else {
      Count("fault:stash-full");
      NonTrivial();
      if (s.code() != absl::StatusCode::kInternal)
        Violate("cuckoo-error-code", "failed insertion reports %s", s.ToString().c_str());
      if (stash < 0 || (int)stash_before < stash)
        Violate("cuckoo-spurious-failure", "insertion failed with stash %zu of %d used", stash_before, stash);
      // Fails only if relocation could not place it: with a free candidate for
      // every choice it cannot fail.
    }
    if (t->GetStash().size() > stash_before) Count("probe:stashed");
    if ((int)acked.size() > before + 1) HarnessError("acked");
    Log("T%d insert %s -> %s stash=%zu", id, Hex(e).c_str(), s.ToString().c_str(), t->GetStash().size());
  }
};

void RunCuckoo() {
  bool yields = Chance(1, 2);
  int ntables = 1 + Draw(3);
  std::vector<std::unique_ptr<CuckooWorld>> ws;
  for (int i = 0; i < ntables; i++) {
    auto w = std::make_unique<CuckooWorld>();
    w->id = i;
    w->spec = DrawSpec(yields);
    w->nhash = 2 + Draw(4);
    w->buckets = Chance(1, 3) ? 1 + Draw(6) : 1 + Draw(60);
    w->reloc = Chance(1, 4) ? Draw(3) : 1 + Draw(80);
    w->stash = (int)Draw(6) - 1;
    Log("table %d: kind=%d hashes=%d buckets=%d reloc=%d stash=%d", i, w->spec.kind, w->nhash, w->buckets, w->reloc, w->stash);
    ws.push_back(std::move(w));
  }
  int universe = 1 + Draw(200);
  for (auto& wp : ws) {
    CuckooWorld* w = wp.get();
    Node* node = NewNode("table" + std::to_string(w->id));
    int nops = Range(1, 70);
    Spawn("t", node, [w, nops, universe] {
      Stream st(w->id + 10, 0);
      w->Open();
      for (int op = 0; op < nops; op++) {
        Span sp;
        switch (Draw(16)) {
          case 15: {  // crash: volatile table lost, rebuilt from the durable log
            Count("fault:crash-restart");
            NonTrivial();
            auto old_acked = w->acked;
            auto old_table = w->t->GetTable();
            auto old_stash = w->t->GetStash();
            w->Open();
            // Replaying the full history of attempts rebuilds the same replica.
            std::vector<std::string> hist;
            hist.swap(w->attempts);
            w->acked.clear();
            for (auto& e : hist) w->Insert(e);
            if (w->acked != old_acked) Violate("cuckoo-replay", "replaying the same insertions acknowledged a different set");
            if (w->t->GetTable() != old_table || w->t->GetStash() != old_stash)
              Violate("cuckoo-replay", "replaying the same insertions built a different table");
            break;
          }
          default: {
            std::string e = Elem(st, universe);
            w->Insert(e);
          }
        }
        w->Check("after operation");
        State(Mix(w->acked.size(), Mix(w->t->GetStash().size(), w->buckets)));
      }
    });
  }
  if (ntables > 1 && yields) NonTrivial();
  RunAll();
}

// ---- bucketed tables
template <class Table>
struct BucketWorld {
  HashSpec spec;
  int buckets, nhash, limit;  // limit 0 = none
  int id;
  bool choice;  // multiple choice: least loaded, else: every bucket
  std::unique_ptr<Table> t;
  std::vector<HashFunction> ref;
  std::vector<std::vector<std::string>> model;
  void Open() {
    // The family overload makes the same functions.
    bool fam = spec.kind <= 1 && !spec.yields && Chance(1, 2);
    auto r = fam ? (limit ? Table::Create(Family(spec), buckets, nhash, limit) : Table::Create(Family(spec), buckets, nhash))
             : limit ? Table::Create(Build(spec, nhash), buckets, limit) : Table::Create(Build(spec, nhash), buckets);
    if (!r.ok()) Violate("table-create", "valid parameters rejected: %s", r.status().ToString().c_str());
    t = std::move(*r);
    HashSpec q = spec;
    q.yields = false;
    ref = Build(q, nhash);
    model.assign(buckets, {});
    if constexpr (std::is_same_v<Table, SimpleHashTable>) CheckFunctions(*t, ref, buckets);
    if (Chance(1, 6)) {  // and impossible tables are refused
      Count("fault:bad-argument");
      NonTrivial();
      auto fs = Build(q, nhash);
      int nb = buckets, lim = 1 + Draw(3);
      switch (Draw(4)) {
        case 0: nb = 0; break;
        case 1: nb = -1 - (int)Draw(3); break;
        case 2: lim = -1 - (int)Draw(3); break;
        case 3: fs.resize(choice ? Draw(2) : 0); break;
      }
      auto bad = Table::Create(std::move(fs), nb, lim);
      if (bad.status().code() != absl::StatusCode::kInvalidArgument)
        Violate("table-bad-argument", "table with %d buckets, limit %d: %s", nb, lim, bad.status().ToString().c_str());
    }
  }
  void Insert(const std::string& e) {
    absl::Status s = t->Insert(e);
    std::vector<int> hs;
    for (auto& h : ref) hs.push_back(h(e, buckets));
    if (!s.ok()) {
      Count("fault:bucket-full");
      NonTrivial();
      if (s.code() != absl::StatusCode::kInternal) Violate("table-error-code", "failed insertion reports %s", s.ToString().c_str());
    }
    if (choice) {
      size_t best = ~0ull;
      for (int h : hs) best = std::min(best, model[h].size());
      bool must_fail = limit && (int)best >= limit;
      if (s.ok() == must_fail)
        Violate("choice-limit", "insert returned %s with least-loaded candidate holding %zu, limit %d", s.ToString().c_str(), best, limit);
      if (s.ok()) {
        // Exactly one candidate bucket of minimal load grows by this element at its end.
        int grown = -1;
        for (int b = 0; b < buckets; b++)
          if (t->GetTable()[b].size() != model[b].size()) {
            if (grown >= 0) Violate("choice-grown", "more than one bucket changed");
            grown = b;
          }
        if (grown < 0 || std::find(hs.begin(), hs.end(), grown) == hs.end())
          Violate("choice-placement", "element %s not stored in one of its candidate buckets", Hex(e).c_str());
        if (model[grown].size() != best)
          Violate("choice-least-loaded", "stored in a bucket of load %zu, a candidate had %zu", model[grown].size(), best);
        model[grown].push_back(e);
      }
    } else {
      bool full = false;
      for (int h : hs)
        full |= limit && (int)(model[h].size() + std::count(hs.begin(), hs.end(), h)) > limit;
      if (s.ok() == full)
        Violate("simple-limit", "insert returned %s although the element %s within the bucket limit %d", s.ToString().c_str(), full ? "does not fit" : "fits", limit);
      if (s.ok())
        for (int h : hs) model[h].push_back(e);
    }
    Log("T%d insert %s -> %s", id, Hex(e).c_str(), s.ToString().c_str());
    if (t->GetTable() != model)
      Violate("table-contents", "table differs from the acknowledged insertions in order (buckets=%d hashes=%d limit=%d)", buckets, nhash, limit);
  }
};
template <class Table>
void RunBuckets(bool choice) {
  bool yields = Chance(1, 2);
  int ntables = 1 + Draw(3);
  std::vector<std::unique_ptr<BucketWorld<Table>>> ws;
  for (int i = 0; i < ntables; i++) {
    auto w = std::make_unique<BucketWorld<Table>>();
    w->id = i;
    w->choice = choice;
    w->spec = DrawSpec(yields);
    w->nhash = (choice ? 2 : 1) + Draw(4);
    w->buckets = Chance(1, 3) ? 1 + Draw(5) : 1 + Draw(40);
    w->limit = Draw(6);
    Log("table %d: kind=%d hashes=%d buckets=%d limit=%d", i, w->spec.kind, w->nhash, w->buckets, w->limit);
    ws.push_back(std::move(w));
  }
  int universe = 1 + Draw(200);
  for (auto& wp : ws) {
    auto* w = wp.get();
    Node* node = NewNode("table" + std::to_string(w->id));
    int nops = Range(1, 60);
    Spawn("t", node, [w, nops, universe] {
      Stream st(w->id + 10, 1);
      std::vector<std::string> hist;
      w->Open();
      for (int op = 0; op < nops; op++) {
        Span sp;
        if (Draw(16) == 15) {
          Count("fault:crash-restart");
          NonTrivial();
          auto old = w->t->GetTable();
          w->Open();
          for (auto& e : hist) w->Insert(e);
          if (w->t->GetTable() != old) Violate("table-replay", "replaying the same insertions built a different table");
        } else {
          hist.push_back(Elem(st, universe));
          w->Insert(hist.back());
        }
        State(Mix(op, HashStr(std::to_string(w->buckets))));
      }
    });
  }
  if (ntables > 1 && yields) NonTrivial();
  RunAll();
}

// ---- hash families: all parties agree
int RefSha(const std::string& seed, absl::string_view in, int bound) {
  std::string m = seed + std::string(in);
  unsigned char d[32];
  SHA256((const unsigned char*)m.data(), m.size(), d);
  // The digest read as one little-endian integer, reduced modulo `bound`.
  unsigned __int128 r = 0;
  for (int i = 31; i >= 0; i--) r = ((r << 8) | d[i]) % (unsigned)bound;
  return (int)r;
}
void RunFamilies() {
  // Several parties (processes) derive hash functions from one shared
  // configuration at different times, use them concurrently and must agree.
  HashFamilyConfig cfg;
  Stream st(5, Draw(1000));
  cfg.set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  cfg.set_seed(st.Bytes(1 + Draw(40)));
  bool farm = Chance(1, 4);
  // Another application in the same process, configured differently.
  HashFamilyConfig neighbour = cfg;
  if (Chance(1, 2)) {
    // Unrelated, or differing little, as a counter, a suffix or a typo would make it.
    std::string seed = cfg.seed();
    switch (Draw(6)) {
      case 0: seed[0] ^= 1 + Draw(255); break;
      case 1: seed.back() ^= 1 + Draw(255); break;
      case 2: seed[Draw(seed.size())] ^= 1 << Draw(8); break;
      case 3: seed += st.Bytes(1 + Draw(3)); break;
      case 4: seed.resize((seed.size() + 1) / 2); break;
      default: seed = st.Bytes(1 + Draw(40));
    }
    neighbour.set_seed(seed);
  }
  bool neighbour_first = Chance(1, 3);
  auto others = [neighbour](const char* when) {
    auto f = CreateHashFamilyFromConfig(neighbour);
    if (!f.ok()) Violate("family-config", "%s", f.status().ToString().c_str());
    auto r = CreateHashFunctions(std::move(*f), 2);
    if (!r.ok()) Violate("create-hash-functions", "%s", r.status().ToString().c_str());
    for (int i = 0; i < 2; i++) {
      int v = (*r)[i](when, 12347), want = RefSha(neighbour.seed() + std::to_string(i), when, 12347);
      if (v != want) Violate("hash-reference", "second configuration, created %s: function %d gives %d, reference %d", when, i, v, want);
    }
    Count("probe:second-configuration");
  };
  if (neighbour_first) others("before");
  int n = Chance(1, 10) ? 13 + Draw(300) : 1 + Draw(12);
  int parties = 2 + Draw(3);
  int ops = 1 + Draw(25);
  std::vector<std::string> inputs;
  for (int i = 0; i < ops; i++) {
    size_t len = Chance(1, 8) ? 50 + Draw(30) : Chance(1, 8) ? (Chance(1, 6) ? 2000 + Draw(70000) : 1000 + Draw(200)) : Draw(40);
    inputs.push_back(st.Bytes(len));
  }
  std::vector<int> bounds;
  for (int i = 0; i < 5; i++)
    bounds.push_back(Chance(1, 4) ? 1 + Draw(3) : Chance(1, 4) ? 0x7fffffff - Draw(3) : 1 + Draw(1u << 20));
  std::map<std::tuple<int, int, int>, int> agreed;
  DrawPreempt();
  // The parties are machines of their own, or threads of one process sharing the functions.
  bool shared = Chance(1, 2);
  if (shared) Count("probe:functions-shared-by-threads");
  std::vector<HashFunction> common;
  std::vector<Node*> nodes;
  for (int p = 0; p < parties; p++) {
    Node* node = NewNode("party" + std::to_string(p));
    node->simd = Draw(SimdTargets());
    nodes.push_back(node);
    uint64_t start = Chance(1, 3) ? Draw(1000) : 0;
    Spawn("party", node, [&, p, start] {
      Sleep(start);
      std::vector<HashFunction> own;
      std::vector<HashFunction>& fs = shared ? common : own;
      auto open = [&] {
        if (shared && !fs.empty()) return;
        NoPreempt np;
        HashFamily fam;
        if (farm) {
          fam = WrapWithSeed(FarmHashFamily(), cfg.seed());
        } else {
          auto f = CreateHashFamilyFromConfig(cfg);
          if (!f.ok()) Violate("family-config", "%s", f.status().ToString().c_str());
          fam = std::move(*f);
        }
        auto r = CreateHashFunctions(std::move(fam), n);
        if (!r.ok()) Violate("create-hash-functions", "%s", r.status().ToString().c_str());
        if ((int)r->size() != n) Violate("create-hash-functions", "asked for %d functions, got %zu", n, r->size());
        fs = std::move(*r);
      };
      open();
      for (int i = 0; i < ops * 2; i++) {
        Span sp;
        if (Chance(1, 10)) Sleep(Draw(200)); else Yield();
        if (!shared && Chance(1, 12)) {
          Count("fault:crash-restart");
          NonTrivial();
          open();
        }
        int f = Draw(n), in = Draw(inputs.size()), b = bounds[Draw(bounds.size())];
        // The caller's buffer only lives during the call.
        std::string tmp = inputs[in];
        int v = fs[f](tmp, b);
        NoPreempt np;
        if (v < 0 || v >= b) Violate("hash-range", "value %d outside [0,%d)", v, b);
        if (!farm) {
          int want = RefSha(cfg.seed() + std::to_string(f), inputs[in], b);
          if (v != want) Violate("hash-reference", "SHA-256 family: function %d, %zu-byte input, bound %d: got %d, reference %d", f, tmp.size(), b, v, want);
        }
        if (farm) {
          // The 128-bit hash under the fingerprint of seed and index, modulo the bound.
          auto h = ::util::Hash128WithSeed(inputs[in].data(), inputs[in].size(), ::util::Hash128(cfg.seed() + std::to_string(f)));
          int want = (int)(absl::MakeUint128(h.second, h.first) % absl::uint128(b));
          if (v != want) Violate("hash-reference", "Farm family: function %d, %zu-byte input, bound %d: got %d, reference %d", f, tmp.size(), b, v, want);
        }
        auto key = std::make_tuple(f, in, b);
        auto it = agreed.find(key);
        if (it == agreed.end()) {
          agreed[key] = v;
        } else {
          Count("probe:agreement-checked");
          NonTrivial();
          if (it->second != v) Violate("hash-disagreement", "party %d: function %d gives %d, another party or time gave %d", p, f, v, it->second);
        }
        Log("party %d h%d(input %d, %d)=%d", p, f, in, b, v);
      }
    });
  }
  RunAll();
  others("afterwards");
  if (Chance(1, 4)) {
    int neg = Chance(1, 3) ? INT32_MIN : -1 - (int)Draw(5);
    auto bad = CreateHashFunctions(WrapWithSeed(FarmHashFamily(), cfg.seed()), neg);
    if (bad.status().code() != absl::StatusCode::kInvalidArgument) Violate("create-hash-functions", "asked for %d functions: %s", neg, bad.ok() ? "accepted" : bad.status().ToString().c_str());
    auto none = CreateHashFunctions(WrapWithSeed(FarmHashFamily(), cfg.seed()), 0);
    if (!none.ok() || !none->empty()) Violate("create-hash-functions", "asked for no functions: %s", none.status().ToString().c_str());
    Count("fault:bad-argument");
  }
  // Functions of one family must behave as different functions.
  if (n >= 2) {
    Stream q(9, 9);
    auto fam = farm ? HashFamily(WrapWithSeed(FarmHashFamily(), cfg.seed())) : std::move(*CreateHashFamilyFromConfig(cfg));
    auto r = CreateHashFunctions(std::move(fam), n);
    for (int a = 0; a < n; a++)
      for (int b = 0; b < a; b++) {
        bool same = true;
        for (int i = 0; i < 4 && same; i++) {
          std::string in = q.Bytes(9);
          same = (*r)[a](in, 0x7fffffff) == (*r)[b](in, 0x7fffffff);
        }
        if (same) Violate("hash-independence", "hash functions %d and %d of the family agree on 4 random inputs", a, b);
      }
  }
}
}  // namespace

SCENARIO(P10, cuckoo) { RunCuckoo(); }
SCENARIO(P11, simple) { RunBuckets<SimpleHashTable>(false); }
SCENARIO(P11, choice) { RunBuckets<MultipleChoiceHashTable>(true); }
SCENARIO(P23, families, 1, true) { RunFamilies(); }
