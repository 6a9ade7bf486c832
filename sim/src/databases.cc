// P08: hashed database builders and replicas.  P09: dense databases.
#include <string.h>

#include <algorithm>
#include <deque>

#include "google/protobuf/io/coded_stream.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/canonical_status_payload_uris.h"
#include "pir_world.h"

namespace sim {
namespace {
using d::XorWrapper;
typedef XorWrapper<absl::uint128> Block;
typedef d::PirDatabaseInterface<Block, std::string> DenseIf;
typedef d::PirDatabaseInterface<Block, std::pair<std::string, std::string>> CuckooIf;
typedef d::PirDatabaseInterface<Block, std::pair<std::string, std::string>, std::string> SimpleIf;

std::vector<Block> Selection(const std::vector<bool>& bits, size_t extra_blocks = 0) {
  std::vector<Block> r((bits.size() + 127) / 128 + extra_blocks);
  for (size_t i = 0; i < bits.size(); i++)
    if (bits[i]) r[i / 128] += Block(absl::uint128(1) << (i % 128));
  return r;
}
std::string XorPadded(std::string acc, const std::string& v) {
  if (acc.size() < v.size()) acc.resize(v.size(), 0);
  for (size_t i = 0; i < v.size(); i++) acc[i] ^= v[i];
  return acc;
}

// -------------------------------------------------------------- P09: dense
struct DenseBuilderM {
  std::unique_ptr<DenseIf::Builder> b;
  std::vector<std::string> values;
  bool built = false;
};
struct DenseDbM {
  std::unique_ptr<DenseIf> db;
  std::vector<std::string> values;
  size_t max = 0;
};
struct DenseWorld {
  std::vector<std::unique_ptr<DenseBuilderM>> builders;
  std::vector<std::unique_ptr<DenseDbM>> dbs;
  std::vector<std::string> junk;  // perturbs heap alignment
};

void DenseQuery(DenseDbM* m, Stream& st) {
  int nsel = Draw(6) == 5 ? 0 : 1 + Draw(5);
  std::vector<std::vector<bool>> bits;
  std::vector<std::vector<Block>> sel;
  size_t extra = Draw(6) == 5 ? 1 + Draw(2) : 0;
  bool bad_size = false, uneven = false;
  size_t n = m->values.size();
  for (int k = 0; k < nsel; k++) {
    std::vector<bool> b(n);
    int style = Draw(5);
    for (size_t i = 0; i < n; i++) b[i] = style == 0 ? false : style == 1 ? true : style == 2 ? i == n - 1 : style == 3 ? st.Below(2) : st.Below(8) == 0;
    auto s = Selection(b, extra);
    // Bits past the last record mean nothing.
    if (!s.empty() && Draw(4) == 3)
      for (size_t i = n; i < s.size() * 128; i++)
        if (st.Below(2)) s[i / 128] += Block(absl::uint128(1) << (i % 128));
    bits.push_back(b);
    sel.push_back(s);
  }
  if (nsel && Draw(12) == 11) {
    size_t k = Draw(nsel);
    if (Draw(2)) sel[k].push_back(Block(0)), uneven = nsel > 1;
    else if (!sel[k].empty()) sel[k].pop_back();
    Count("fault:bad-selection-shape");
    NonTrivial();
  }
  for (auto& s : sel) {
    bad_size |= s.size() * 128 < n;
    uneven |= s.size() != sel[0].size();
  }
  Node* node = CurNode();
  bool fault = nsel && Draw(4) == 3;
  if (fault) node->alloc_fail_at = node->allocs + 1 + Draw(nsel);
  uint64_t before = node->alloc_failures;
  auto r = m->db->InnerProductWith(sel);
  bool failed = node->alloc_failures != before;
  node->alloc_fail_at = 0;
  if (failed) NonTrivial();
  for (int attempt = 0;; attempt++) {
    Log("inner product: %zu records max %zu, %d selections, alloc failure %d -> %s", n, m->max, nsel, failed, StatusStr(r.status()).c_str());
    if (bad_size || uneven || (nsel && m->max == 0)) {
      if (r.ok()) Violate("bad-selection-accepted", "selections of the wrong shape were answered");
      return;
    }
    if (r.ok()) break;
    if (!failed) Violate("inner-product-error", "valid selections on %zu records rejected: %s", n, r.status().ToString().c_str());
    // Out of memory once; the same call must succeed when memory is back.
    failed = false;
    Count("probe:retry-after-alloc-failure");
    r = m->db->InnerProductWith(sel);
  }
  if ((int)r->size() != nsel) Violate("inner-product-count", "%zu results for %d selections", r->size(), nsel);
  for (int k = 0; k < nsel; k++) {
    std::string want(m->max, 0);
    for (size_t i = 0; i < n; i++)
      if (bits[k][i]) want = XorPadded(want, m->values[i]);
    if ((*r)[k] != want)
      Violate("inner-product-wrong", "%zu records, longest %zu bytes, selection %d of %d: got %s, expected %s", n, m->max, k, nsel, Hex((*r)[k], 40).c_str(), Hex(want, 40).c_str());
  }
  Count("probe:inner-product-checked");
}

// The flat view of the records.
void CheckContent(DenseDbM* m, const char* when) {
  auto* db = dynamic_cast<d::DenseDpfPirDatabase*>(m->db.get());
  if (!db) Violate("dense-type", "the dense builder built something else");
  auto c = db->content();
  if (c.size() != m->values.size()) Violate("dense-content", "%s: %zu records listed instead of %zu", when, c.size(), m->values.size());
  for (size_t i = 0; i < c.size(); i++)
    if (c[i] != m->values[i])
      Violate("dense-content", "%s: record %zu of %zu is listed as %s, inserted %s", when, i, c.size(), Hex(std::string(c[i]), 40).c_str(), Hex(m->values[i], 40).c_str());
  if (db->max_value_size_in_bytes() != m->max) Violate("dense-content", "%s: longest record reported as %zu bytes instead of %zu", when, db->max_value_size_in_bytes(), m->max);
}

void RunDense() {
  DenseWorld w;
  auto add = [&](std::unique_ptr<DenseIf::Builder> b) {
    auto m = std::make_unique<DenseBuilderM>();
    m->b = std::move(b);
    w.builders.push_back(std::move(m));
    return w.builders.back().get();
  };
  add(std::make_unique<d::DenseDpfPirDatabase::Builder>());
  int actors = 1 + Draw(3);
  if (actors > 1) NonTrivial();
  int vmax = Draw(3) == 0 ? 4 : Draw(2) ? 40 : 300;
  for (int a = 0; a < actors; a++) {
    Node* node = NewNode("machine" + std::to_string(a));
    node->simd = Draw(SimdTargets());
    Spawn("actor" + std::to_string(a), node, [&, a, vmax0 = vmax] {
      Stream st(a, 21);
      for (int op = 0, n = 5 + Draw(40); op < n; op++) {
        Span sp;
        if (actors > 1) Yield();
        int vmax = vmax0;
        DenseBuilderM* b = w.builders[Draw(w.builders.size())].get();
        switch (Draw(10)) {
          default:
          case 0:
          case 1:
          case 2: {
            int cnt = Draw(5) == 4 ? 100 + Draw(200) : 1 + Draw(6);
            // All-zero records, and pages of several thousand bytes.
            bool zeros = Draw(4) == 3, pages = Draw(12) == 11;
            if (pages) cnt = 1 + Draw(6), vmax = 9000;
            else if (Draw(60) == 59 && b->values.size() < 5000) cnt = 1000 + Draw(9000), vmax = std::min(vmax, 12), Count("probe:many-records");
            for (int i = 0; i < cnt; i++) {
              std::string v = st.Bytes(st.Below(4) ? st.Below(vmax + 1) : st.Below(3));
              if (zeros && st.Below(4) == 0) v.assign(st.Below(40), 0);
              b->b->Insert(v);
              if (!b->built) b->values.push_back(v);
            }
            Log("insert %d", cnt);
            break;
          }
          case 3: {
            if (w.builders.size() > 6) break;
            auto c = b->b->Clone();
            auto vals = b->values;
            bool built = b->built;
            auto* m = add(std::move(c));
            m->values = vals;
            m->built = built;
            Log("clone (%zu records, built=%d)", vals.size(), built);
            break;
          }
          case 4:
            b->b->Clear();
            b->values.clear();
            b->built = false;
            Log("clear");
            break;
          case 5:
          case 6: {
            if (Draw(2)) w.junk.push_back(std::string(24 + 16 * Draw(8), 'j'));
            auto r = b->b->Build();
            Log("build %zu records -> %s", b->values.size(), StatusStr(r.status()).c_str());
            if (b->built) {
              if (r.ok()) Violate("rebuilt-consumed-builder", "a consumed builder built a second database");
              if (!IsFailedPrecondition(r.status())) Violate("rebuild-error-code", "second Build reports %s", r.status().ToString().c_str());
              Count("probe:second-build-refused");
              break;
            }
            if (!r.ok()) Violate("build-failed", "building %zu records failed: %s", b->values.size(), r.status().ToString().c_str());
            auto m = std::make_unique<DenseDbM>();
            m->db = std::move(*r);
            m->values = std::move(b->values);
            b->values.clear();
            b->built = true;
            for (auto& v : m->values) m->max = std::max(m->max, v.size());
            if (m->db->size() != m->values.size() || m->db->num_selection_bits() != m->values.size())
              Violate("dense-size", "size %zu, selection bits %zu for %zu records", m->db->size(), m->db->num_selection_bits(), m->values.size());
            CheckContent(m.get(), "after building");
            w.dbs.push_back(std::move(m));
            break;
          }
          case 7:
            // The machine holding a builder or database crashes.
            if (w.dbs.size() > 1 && Draw(3) == 2) {
              w.dbs.erase(w.dbs.begin() + Draw(w.dbs.size()));
              Count("fault:crash-database");
              NonTrivial();
            } else if (w.builders.size() > 1 && Draw(3) == 2) {
              w.builders.erase(w.builders.begin() + Draw(w.builders.size()));
              Count("fault:crash-builder");
              NonTrivial();
            }
            break;
          case 8:
          case 9:
            if (!w.dbs.empty()) DenseQuery(w.dbs[Draw(w.dbs.size())].get(), st);
            break;
        }
        State(Mix(w.builders.size() * 64 + w.dbs.size(), w.builders[0]->values.size()));
      }
    });
  }
  RunAll();
  // Whatever happened, every surviving database still holds its records.
  Stream st(9, 21);
  for (auto& m : w.dbs) CheckContent(m.get(), "at the end");
  for (auto& m : w.dbs)
    if (m->max) {
      std::vector<std::vector<Block>> sel;
      size_t n = std::min<size_t>(m->values.size(), 40);
      for (size_t i = 0; i < n; i++) {
        std::vector<bool> b(m->values.size());
        b[m->values.size() - 1 - i] = true;
        sel.push_back(Selection(b));
      }
      auto r = m->db->InnerProductWith(sel);
      if (!r.ok()) Violate("inner-product-error", "final read: %s", r.status().ToString().c_str());
      for (size_t i = 0; i < n; i++) {
        std::string want = m->values[m->values.size() - 1 - i];
        want.resize(m->max, 0);
        if ((*r)[i] != want) Violate("dense-contents-changed", "record %zu of %zu reads differently at the end", m->values.size() - 1 - i, m->values.size());
      }
    }
}

// ----------------------------------------------------- P08: hashed builders
// A dense builder on unreliable storage.
struct FlakyBuilder : DenseIf::Builder {
  std::unique_ptr<DenseIf::Builder> in = std::make_unique<d::DenseDpfPirDatabase::Builder>();
  std::shared_ptr<int> fail;  // remaining builds that fail
  DenseIf::Builder& Insert(std::string s) override {
    in->Insert(std::move(s));
    return *this;
  }
  DenseIf::Builder& Clear() override {
    in->Clear();
    return *this;
  }
  std::unique_ptr<DenseIf::Builder> Clone() const override {
    auto r = std::make_unique<FlakyBuilder>();
    r->in = in->Clone();
    r->fail = fail;
    return r;
  }
  absl::StatusOr<std::unique_ptr<DenseIf>> Build() override {
    if (*fail > 0) {
      --*fail;
      Count("fault:storage-build-error");
      NonTrivial();
      // The failing storage may or may not have consumed the data.
      if (*fail % 2) in->Build().IgnoreError();
      return absl::UnavailableError("sim: storage");
    }
    return in->Build();
  }
};

struct HashedWorld {
  Kind kind;
  Params params;
  Dataset ds;
  std::vector<d::HashFunction> fns;
  int64_t buckets = 0;
};
typedef std::vector<std::pair<std::string, std::string>> Records;

// Uniform interface over the two hashed schemes.
struct HBuilder {
  std::unique_ptr<CuckooIf::Builder> c;
  std::unique_ptr<SimpleIf::Builder> s;
  Records recs;
  bool built = false;
  bool flaky = false;
  bool poisoned = false;    // holds a record that cannot be stored
  bool bad_params = false;
  std::shared_ptr<int> fail = std::make_shared<int>(0);
};
struct HDb {
  std::unique_ptr<CuckooIf> c;
  std::unique_ptr<SimpleIf> s;
  Records recs;
  std::vector<std::string> raw;  // per bucket
  size_t bits() const { return c ? c->num_selection_bits() : s->num_selection_bits(); }
  size_t size() const { return c ? c->size() : s->size(); }
  // One string per selection: for cuckoo, key and value with lengths framed.
  absl::StatusOr<std::vector<std::string>> Query(const std::vector<std::vector<Block>>& sel) const {
    if (s) return s->InnerProductWith(sel);
    SIM_ASSIGN(auto r, c->InnerProductWith(sel));
    std::vector<std::string> out;
    for (auto& kv : r) out.push_back(kv.first + kv.second);
    return out;
  }
};

void CheckHashedDb(HashedWorld& w, HDb* db) {
  if ((int64_t)db->bits() != w.buckets) Violate("hashed-bits", "%zu selection bits for %d buckets", db->bits(), (int)w.buckets);
  if (db->size() != db->recs.size()) Violate("hashed-size", "size() is %zu for %zu records", db->size(), db->recs.size());
  std::map<std::string, std::string> want(db->recs.begin(), db->recs.end());
  size_t kmax = 0, vmax = 0;
  for (auto& r : db->recs) kmax = std::max(kmax, r.first.size()), vmax = std::max(vmax, r.second.size());
  if (db->recs.empty()) return;
  std::vector<std::vector<Block>> sel;
  for (int64_t b = 0; b < w.buckets; b++) {
    std::vector<bool> bits(w.buckets);
    bits[b] = true;
    sel.push_back(Selection(bits));
  }
  std::set<std::string> seen;
  auto found = [&](const std::string& k, const std::string& v, int64_t b, size_t nfn) {
    auto it = want.find(k);
    if (it == want.end()) Violate("hashed-phantom", "bucket %d holds key %s that was never inserted", (int)b, Hex(k).c_str());
    if (!seen.insert(k).second) Violate("hashed-duplicate", "key %s is stored twice", Hex(k).c_str());
    if (it->second != v) Violate("hashed-value", "key %s stored with value %s, inserted %s", Hex(k).c_str(), Hex(v).c_str(), Hex(it->second).c_str());
    bool ok = false;
    for (size_t f = 0; f < nfn; f++) ok |= w.fns[f](k, w.buckets) == b;
    if (!ok) Violate("hashed-misplaced", "key %s is in bucket %d, which no client will query for it", Hex(k).c_str(), (int)b);
  };
  if (db->c) {
    auto r = db->c->InnerProductWith(sel);
    if (!r.ok()) {
      if (vmax == 0) return;  // all values empty: nothing to retrieve
      Violate("hashed-query", "%s", r.status().ToString().c_str());
    }
    for (int64_t b = 0; b < w.buckets; b++) {
      std::string k = (*r)[b].first, v = (*r)[b].second;
      if (k.size() != kmax || v.size() != vmax) Violate("hashed-padding", "bucket %d padded to %zu/%zu instead of %zu/%zu", (int)b, k.size(), v.size(), kmax, vmax);
      db->raw.push_back(k + v);
      while (!k.empty() && k.back() == 0) k.pop_back();
      if (k.empty()) {
        if (v != std::string(vmax, 0)) Violate("hashed-phantom", "empty bucket %d has a value", (int)b);
        continue;
      }
      auto it = want.find(k);
      if (it != want.end()) {
        std::string pad = it->second;
        pad.resize(vmax, 0);
        if (pad == v) v = it->second;
      }
      found(k, v, b, w.fns.size());
    }
  } else {
    auto r = db->s->InnerProductWith(sel);
    if (!r.ok()) Violate("hashed-query", "%s", r.status().ToString().c_str());
    for (int64_t b = 0; b < w.buckets; b++) {
      db->raw.push_back((*r)[b]);
      d::HashedPirDatabaseBucket bucket;
      google::protobuf::io::CodedInputStream cs((const uint8_t*)(*r)[b].data(), (*r)[b].size());
      bucket.ParseFromCodedStream(&cs);
      if (bucket.keys_size() != bucket.values_size()) Violate("hashed-bucket", "bucket %d has %d keys and %d values", (int)b, bucket.keys_size(), bucket.values_size());
      for (int i = 0; i < bucket.keys_size(); i++) found(bucket.keys(i), bucket.values(i), b, 1);
    }
  }
  if (seen.size() != want.size()) Violate("hashed-lost", "%zu of %zu records are stored", seen.size(), want.size());
  Count("probe:database-audited");
}

void RunHashed() {
  HashedWorld w;
  w.kind = Draw(2) ? Kind::kSimple : Kind::kCuckoo;
  DataShape sh;
  sh.max_records = 90;
  sh.allow_all_empty = true;
  w.ds = MakeDataset(w.kind, Draw(1 << 20), sh);
  int n = w.ds.records.size();
  Stream seeds(8, Draw(1 << 20));
  d::HashFamilyConfig cfg;
  cfg.set_hash_family(d::HashFamilyConfig::HASH_FAMILY_SHA256);
  cfg.set_seed(seeds.Bytes(16));
  int nh = 1;
  if (w.kind == Kind::kCuckoo) {
    nh = 2 + Draw(3);
    // From saturated to roomy tables.
    w.buckets = std::max<int64_t>(1, Draw(3) ? n * (90 + Draw(100)) / 100 : n + Draw(3));
    w.params.cuckoo.set_num_buckets(w.buckets);
    w.params.cuckoo.set_num_hash_functions(nh);
    *w.params.cuckoo.mutable_hash_family_config() = cfg;
  } else {
    w.buckets = Draw(3) ? 1 + Draw(2 * n) : 1 + Draw(5);
    w.params.simple.set_num_buckets(w.buckets);
    *w.params.simple.mutable_hash_family_config() = cfg;
  }
  auto fam = d::CreateHashFamilyFromConfig(cfg);
  SIM_ASSERT(fam.ok());
  auto fns = d::CreateHashFunctions(std::move(*fam), nh);
  SIM_ASSERT(fns.ok());
  w.fns = std::move(*fns);

  std::vector<std::unique_ptr<HBuilder>> bs;
  std::vector<std::unique_ptr<HDb>> dbs;
  auto fresh = [&] {
    auto b = std::make_unique<HBuilder>();
    b->flaky = Draw(3) == 2;
    auto flaky = [&](bool dirty) {
      auto f = std::make_unique<FlakyBuilder>();
      f->fail = b->fail;
      if (dirty) f->Insert("left over").Insert("from before");  // Set*Builder discards it
      return f;
    };
    if (w.kind == Kind::kCuckoo) {
      auto c = std::make_unique<d::CuckooHashedDpfPirDatabase::Builder>();
      c->SetParams(w.params.cuckoo);
      if (b->flaky) c->SetKeyDatabaseBuilder(flaky(Draw(2))), c->SetValueDatabaseBuilder(flaky(Draw(2)));
      b->c = std::move(c);
    } else {
      auto s = std::make_unique<d::SimpleHashedDpfPirDatabase::Builder>();
      s->SetParams(w.params.simple);
      if (b->flaky) s->SetDenseDatabaseBuilder(flaky(Draw(2)));
      b->s = std::move(s);
    }
    bs.push_back(std::move(b));
  };
  fresh();
  auto insert = [&](HBuilder* b, size_t i) {
    // Records a builder holds are distinct.
    for (auto& r : b->recs)
      if (r.first == w.ds.records[i].first) return;
    if (b->built) return;
    if (b->c) b->c->Insert(w.ds.records[i]); else b->s->Insert(w.ds.records[i]);
    b->recs.push_back(w.ds.records[i]);
  };
  Node* node = NewNode("builder");
  node->simd = Draw(SimdTargets());
  int actors = 1 + Draw(2);
  if (actors > 1) NonTrivial();
  for (int a = 0; a < actors; a++)
    Spawn("actor", node, [&, a] {
      Stream st(a, 22);
      for (int op = 0, ops = 4 + Draw(24); op < ops; op++) {
        Span sp;
        if (actors > 1) Yield();
        HBuilder* b = bs[Draw(bs.size())].get();
        switch (Draw(11)) {
          case 9:
            if (Draw(3) != 2 || b->built) break;
            if (b->c) b->c->Insert({"", "no key"}); else b->s->Insert({"", "no key"});
            b->poisoned = true;
            Count("fault:record-without-key");
            Log("insert a record without a key");
            break;
          case 10: {  // misconfigured, or configured again
            Params p = w.params;
            b->bad_params = !b->bad_params && Draw(2);
            if (b->bad_params) p.cuckoo.set_num_buckets(0), p.simple.set_num_buckets(-(int)Draw(2));
            if (b->c) static_cast<d::CuckooHashedDpfPirDatabase::Builder*>(b->c.get())->SetParams(p.cuckoo);
            else static_cast<d::SimpleHashedDpfPirDatabase::Builder*>(b->s.get())->SetParams(p.simple);
            if (b->bad_params) Count("fault:bad-parameters");
            Log("set %s parameters", b->bad_params ? "bad" : "good");
            break;
          }
          case 0: {  // everything, in some order
            std::vector<size_t> order(n);
            for (int i = 0; i < n; i++) order[i] = i;
            if (Draw(2))
              for (size_t i = n; i > 1; i--) std::swap(order[i - 1], order[st.Below(i)]);
            for (size_t i : order) insert(b, i);
            Log("insert all (%zu now)", b->recs.size());
            break;
          }
          case 1:
            for (int i = 0, k = 1 + Draw(12); i < k; i++) insert(b, st.Below(n));
            Log("insert some (%zu now)", b->recs.size());
            break;
          case 2: {
            if (bs.size() > 5) break;
            auto c = std::make_unique<HBuilder>();
            if (b->c) c->c = b->c->Clone(); else c->s = b->s->Clone();
            c->recs = b->recs;
            c->built = b->built;
            c->flaky = b->flaky;
            c->fail = b->fail;
            c->poisoned = b->poisoned;
            c->bad_params = b->bad_params;
            bs.push_back(std::move(c));
            Log("clone");
            break;
          }
          case 3:
            if (b->c) b->c->Clear(); else b->s->Clear();
            b->recs.clear();
            b->built = false;
            b->poisoned = false;
            Log("clear");
            break;
          case 4:
            if (bs.size() < 5) fresh();
            break;
          case 5:
            if (b->flaky && Draw(2)) *b->fail = 1 + Draw(3);
            break;
          case 6:
            if (bs.size() > 1) {
              bs.erase(bs.begin() + Draw(bs.size()));
              Count("fault:crash-builder");
              NonTrivial();
            } else if (!dbs.empty()) {
              dbs.erase(dbs.begin() + Draw(dbs.size()));
              Count("fault:crash-database");
              NonTrivial();
            }
            break;
          default: {
            int failing = *b->fail;
            auto db = std::make_unique<HDb>();
            absl::Status s;
            if (b->c) {
              auto r = b->c->Build();
              s = r.status();
              if (r.ok()) db->c = std::move(*r);
            } else {
              auto r = b->s->Build();
              s = r.status();
              if (r.ok()) db->s = std::move(*r);
            }
            Log("build %zu records into %d buckets (storage failures %d) -> %s", b->recs.size(), (int)w.buckets, failing, StatusStr(s).c_str());
            if (b->built) {
              if (s.ok()) Violate("rebuilt-consumed-builder", "a consumed builder built a second database");
              if (!IsFailedPrecondition(s)) Violate("rebuild-error-code", "second Build reports %s", s.ToString().c_str());
              Count("probe:second-build-refused");
              break;
            }
            b->built = true;
            if (b->poisoned || b->bad_params) {
              if (s.ok()) Violate("built-invalid", "Build succeeded %s", b->poisoned ? "with a record without a key" : "with invalid parameters");
              NonTrivial();
              break;
            }
            if (!s.ok()) {
              bool storage = b->flaky && failing > 0 && s.code() == absl::StatusCode::kUnavailable;
              bool no_fit = w.kind == Kind::kCuckoo && s.code() == absl::StatusCode::kInternal && !b->recs.empty();
              bool empty = b->recs.empty() && w.kind == Kind::kCuckoo;  // no relocation limit for nothing
              if (!storage && !no_fit && !empty) Violate("build-failed", "building %zu records failed: %s", b->recs.size(), s.ToString().c_str());
              if (no_fit) Count("probe:table-saturated"), NonTrivial();
              break;
            }
            if (b->flaky && failing > 0 && *b->fail == failing) Violate("build-skips-storage", "Build succeeded without using the configured storage");
            db->recs = b->recs;
            CheckHashedDb(w, db.get());
            // Any replica over the same records must hold the same buckets.
            for (auto& o : dbs) {
              Records x = o->recs, y = db->recs;
              if (w.kind == Kind::kCuckoo) std::sort(x.begin(), x.end()), std::sort(y.begin(), y.end());
              if (x != y) continue;
              Count("probe:replica-compared");
              if (o->raw != db->raw) Violate("replicas-diverge", "two replicas of the same %zu records place them differently", x.size());
            }
            dbs.push_back(std::move(db));
            break;
          }
        }
        State(Mix(bs.size() * 100 + dbs.size(), Mix(bs[0]->recs.size(), w.buckets)));
      }
    });
  RunAll();
  // Later operations disturbed no database: random selections still combine.
  Stream st(3, 23);
  for (auto& db : dbs) {
    if (db->raw.empty()) continue;
    std::vector<std::vector<Block>> sel;
    std::vector<std::string> want;
    for (int k = 0; k < 3; k++) {
      std::vector<bool> bits(w.buckets);
      std::string x;
      for (int64_t i = 0; i < w.buckets; i++)
        if ((bits[i] = st.Below(2))) x = XorPadded(x, db->raw[i]);
      x.resize(db->raw[0].size(), 0);
      sel.push_back(Selection(bits));
      want.push_back(x);
    }
    auto r = db->Query(sel);
    if (!r.ok()) Violate("hashed-query", "%s", r.status().ToString().c_str());
    if (*r != want) Violate("hashed-selection", "a selection is not the XOR of the selected buckets");
  }
}
// A deployment whose records hold nothing: there is no answer to give, and the
// error says so in a form that callers can tell from a wrong request.
void RunNothing() {
  Stream st(99);
  NonTrivial();
  Kind kind = Draw(2) ? Kind::kDense : Kind::kCuckoo;
  DataShape sh;
  sh.max_records = 60;
  Dataset ds = MakeDataset(kind, Draw(1 << 16), sh);
  for (auto& r : ds.records) r.second.clear();
  for (auto& r : ds.by_key) r.second.clear();
  ds.max_value = 0;
  Node* n = NewNode("host");
  n->simd = Draw(SimdTargets());
  NodeScope ns(n);
  Params p = MakeParams(ds);
  HybridKey key{1};
  uint64_t nonce = 1;
  ServerDeps hd, ld;
  hd.decrypter = [&](absl::string_view c, absl::string_view ctx) { return HybridDecrypt(key, c, ctx); };
  auto helper = MakeServer(p, ds.records, Role::kHelper, std::move(hd));
  if (!helper.ok()) Violate("server-start", "%s", helper.status().ToString().c_str());
  ld.sender = [&](const PirRequest& r, absl::AnyInvocable<void()> ww) -> absl::StatusOr<PirResponse> {
    ww();
    return (*helper)->HandleRequest(r);
  };
  auto leader = MakeServer(p, ds.records, Role::kLeader, std::move(ld));
  auto plain = MakeServer(p, ds.records, Role::kPlain, {});
  if (!leader.ok() || !plain.ok()) Violate("server-start", "%s %s", leader.status().ToString().c_str(), plain.status().ToString().c_str());
  auto client = MakeClient(p, [&](absl::string_view s, absl::string_view ctx) -> absl::StatusOr<std::string> { return HybridEncrypt(key, nonce++, s, ctx); });
  if (!client.ok()) Violate("client-create", "%s", client.status().ToString().c_str());
  for (int i = 1 + Draw(3); i > 0; i--) {
    Span sp;
    std::vector<std::string> q;
    for (int k = 1 + Draw(3); k > 0; k--) q.push_back(ds.PresentQuery(st));
    auto r = (*client)->Create(q);
    if (!r.ok()) Violate("request-rejected", "%s", r.status().ToString().c_str());
    int role = Draw(3);
    PirRequest req = r->first;
    if (role == 1) *req.mutable_dpf_pir_request()->mutable_plain_request() = r->first.dpf_pir_request().leader_request().plain_request();
    if (role == 2) *req.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = r->first.dpf_pir_request().leader_request().encrypted_helper_request();
    auto a = (role == 0 ? *leader : role == 1 ? *plain : *helper)->HandleRequest(req);
    Log("%s, %zu empty records, role %d: %s", KindName(kind), ds.records.size(), role, StatusStr(a.status()).c_str());
    if (a.status().code() != absl::StatusCode::kInvalidArgument) Violate("empty-deployment", "%s over records without content: %s", KindName(kind), a.status().ToString().c_str());
    auto payload = a.status().GetPayload(d::kPirInternalErrorUri);
    d::CanonicalPirError e;
    if (!payload || !e.ParseFromString(std::string(*payload)) || e.code() != d::CanonicalPirError::MAX_VALUE_SIZE_IS_ZERO)
      Violate("empty-deployment", "records without content, but the error does not say so: %s", a.status().ToString().c_str());
    Count("probe:empty-deployment");
    State(Mix((int)kind, role));
  }
}
}  // namespace
SCENARIO(P09, dense_databases, 12) { RunDense(); }
SCENARIO(P09, empty_deployment, 1) { RunNothing(); }
SCENARIO(P08, hashed_databases) { RunHashed(); }
}  // namespace sim
