#include "pir_world.h"

#include <math.h>
#include <string.h>

#include <algorithm>

#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"

namespace sim {
using namespace d;

// ------------------------------------------------------------------ crypto
static uint64_t KeyStream(const HybridKey& k, uint64_t nonce, uint64_t i) {
  return Mix(Mix(k.secret, nonce), i);
}
static uint64_t Mac(const HybridKey& k, uint64_t nonce, absl::string_view body, absl::string_view ctx) {
  return Mix(Mix(k.secret ^ 0x3ac, nonce), Mix(HashBytes(body.data(), body.size()), HashBytes(ctx.data(), ctx.size(), body.size())));
}
std::string HybridEncrypt(const HybridKey& k, uint64_t nonce, absl::string_view plain, absl::string_view ctx) {
  std::string r(16 + plain.size(), 0);
  for (size_t i = 0; i < plain.size(); i++)
    r[16 + i] = plain[i] ^ (char)(KeyStream(k, nonce, i / 8) >> (8 * (i % 8)));
  uint64_t m = Mac(k, nonce, absl::string_view(r).substr(16), ctx);
  memcpy(&r[0], &nonce, 8);
  memcpy(&r[8], &m, 8);
  return r;
}
absl::StatusOr<std::string> HybridDecrypt(const HybridKey& k, absl::string_view c, absl::string_view ctx) {
  if (c.size() < 16) return absl::InvalidArgumentError("sim: ciphertext too short");
  uint64_t nonce, m;
  memcpy(&nonce, c.data(), 8);
  memcpy(&m, c.data() + 8, 8);
  absl::string_view body = c.substr(16);
  if (m != Mac(k, nonce, body, ctx)) return absl::InvalidArgumentError("sim: decryption failed");
  std::string r(body.size(), 0);
  for (size_t i = 0; i < r.size(); i++) r[i] = body[i] ^ (char)(KeyStream(k, nonce, i / 8) >> (8 * (i % 8)));
  return r;
}

std::string StatusStr(const absl::Status& s) { return std::string(absl::StatusCodeToString(s.code())); }
std::string Ctx(Kind k) {
  switch (k) {
    case Kind::kDense: return std::string(DenseDpfPirServer::kEncryptionContextInfo);
    case Kind::kCuckoo: return std::string(CuckooHashingSparseDpfPirServer::kEncryptionContextInfo);
    default: return std::string(SimpleHashingSparseDpfPirServer::kEncryptionContextInfo);
  }
}

// ----------------------------------------------------------------- dataset
static std::string Strip(std::string s) {
  while (!s.empty() && s.back() == 0) s.pop_back();
  return s;
}
absl::optional<std::string> Dataset::Expect(const std::string& q) const {
  std::string v;
  if (kind == Kind::kDense) {
    v = records[strtoull(q.c_str(), nullptr, 10)].second;
  } else {
    auto it = by_key.find(q);
    if (it == by_key.end()) return absl::nullopt;
    v = it->second;
  }
  if (kind != Kind::kSimple) v.resize(max_value, 0);
  return v;
}
std::string Dataset::PresentQuery(Stream& st) const {
  uint64_t i = st.Below(records.size());
  return kind == Kind::kDense ? std::to_string(i) : records[i].first;
}
std::string Dataset::AbsentQuery(Stream& st) const {
  for (int tries = 0; tries < 1000; tries++) {
    std::string q;
    // Close to what is stored: extensions, prefixes and mutations of keys.
    std::string base = records[st.Below(records.size())].first;
    switch (st.Below(9)) {
      case 0: q = base + (char)('a' + st.Below(26)); break;
      case 1: q = base.substr(0, st.Below(base.size())); break;
      case 2: q = base; q[st.Below(q.size())] ^= 1 << st.Below(8); break;
      case 3: q = st.Bytes(1 + st.Below(40)); break;
      case 4: q = base + st.Bytes(1 + st.Below(30)); break;
      case 5: q = std::string(1, (char)st.Next()); break;
      case 6: q = base.substr(0, base.find('\0', st.Below(base.size()))); break;
      case 7: q = base + std::string(1 + st.Below(3), 0) + (char)(1 + st.Below(255)); break;
      default: q = "absent" + std::to_string(st.Next() % 10000);
    }
    if (by_key.count(q)) continue;
    if (kind == Kind::kCuckoo) {
      // Responses are NUL-padded, so NUL-ended or empty queries are ambiguous by
      // design: not part of the property.
      if (q.empty() || q.back() == 0) continue;
    }
    if (q.empty()) continue;
    return q;
  }
  return "no-such-key-zz";
}
Dataset MakeDataset(Kind kind, uint64_t key, const DataShape& sh) {
  Dataset ds;
  ds.kind = kind;
  Stream st(0xda7a, key);
  int n;
  switch (Draw(4)) {
    case 0: n = 1 + Draw(4); break;
    case 1: n = 1 + Draw(40); break;
    case 2: n = 120 + Draw(20); break;  // around one 128-bit selection block
    default: n = 1 + Draw(sh.max_records);
  }
  n = std::min(n, sh.max_records);
  int vstyle = Draw(4);  // 0: fixed size, 1: mixed, 2: mostly empty, 3: one large
  int vmax = Draw(3) ? 1 + Draw(sh.max_value) : 1 + Draw(17);
  int kstyle = Draw(4);
  std::set<std::string> used;
  for (int i = 0; i < n; i++) {
    std::string k, v;
    for (int t = 0;; t++) {
      switch (kstyle) {
        case 0: k = "key" + std::to_string(i + t * n); break;
        case 1: k = st.Bytes(1 + st.Below(t > 20 ? 24 : 6)); break;
        case 3: {  // keys continued after NUL bytes
          std::string sep(1 + st.Below(3), 0);
          k = i && st.Below(3) ? ds.records[st.Below(i)].first + sep + (char)(1 + st.Below(255)) : st.Bytes(1 + st.Below(3));
          if (st.Below(8) == 0) k = sep + k;
          break;
        }
        default:  // chains of prefixes
          if (i == 0 && st.Below(2)) {
            k = st.Bytes(12 + st.Below(60));
            break;
          }
          k = i && st.Below(2) ? ds.records[st.Below(i)].first + (char)(1 + st.Below(255)) : st.Bytes(1 + st.Below(10));
      }
      if (kind == Kind::kCuckoo) k = Strip(k);
      if (!k.empty() && used.insert(k).second) break;
    }
    switch (vstyle) {
      case 0: v = st.Bytes(vmax); break;
      case 1: v = st.Bytes(st.Below(vmax + 1)); break;
      case 2: v = st.Below(4) ? "" : st.Bytes(st.Below(vmax + 1)); break;
      default: v = st.Bytes(i == n / 2 ? vmax : st.Below(4));
    }
    if (st.Below(5) == 0 && !v.empty()) v.back() = 0;  // values may end in NUL
    ds.records.push_back({k, v});
    ds.max_value = std::max(ds.max_value, v.size());
  }
  if (ds.max_value == 0 && !sh.allow_all_empty) {
    ds.records[0].second = "v";
    ds.max_value = 1;
  }
  for (auto& r : ds.records) ds.by_key[r.first] = r.second;
  return ds;
}

// ------------------------------------------------------------------ params
bool FitsParams(const Dataset& ds, const Params& p) {
  if (p.kind != Kind::kCuckoo) return true;
  CuckooHashedDpfPirDatabase::Builder b;
  b.SetParams(p.cuckoo);
  for (auto& kv : ds.records) b.Insert(kv);
  return b.Build().ok();
}
Params MakeParams(const Dataset& ds, bool) {
  Params p;
  p.kind = ds.kind;
  if (ds.kind == Kind::kDense) {
    p.dense.mutable_dense_dpf_pir_config()->set_num_elements(ds.records.size());
    return p;
  }
  if (ds.kind == Kind::kSimple) {
    PirConfig c;
    auto* s = c.mutable_simple_hashing_sparse_dpf_pir_config();
    s->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
    int n = ds.records.size();
    s->set_num_buckets(Draw(3) ? 1 + Draw(2 * n) : 1 + Draw(6));
    auto r = SimpleHashingSparseDpfPirServer::GenerateParams(c);
    if (!r.ok()) Violate("generate-params", "%s", r.status().ToString().c_str());
    p.simple = *r;
    return p;
  }
  for (int tries = 0; tries < 200; tries++) {
    PirConfig c;
    auto* s = c.mutable_cuckoo_hashing_sparse_dpf_pir_config();
    s->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
    s->set_num_elements(ds.records.size());
    auto r = CuckooHashingSparseDpfPirServer::GenerateParams(c);
    if (!r.ok()) Violate("generate-params", "%s", r.status().ToString().c_str());
    p.cuckoo = *r;
    if (p.cuckoo.num_buckets() < (int64_t)ds.records.size() || p.cuckoo.num_hash_functions() < 2)
      Violate("generate-params", "parameters with %d buckets and %d hash functions for %zu records", (int)p.cuckoo.num_buckets(),
              p.cuckoo.num_hash_functions(), ds.records.size());
    // An operator builds once and draws a new seed when the data does not fit.
    if (FitsParams(ds, p)) return p;
    Count("probe:cuckoo-reseed");
  }
  Violate("params-unusable", "%zu records do not fit the generated parameters for any of 200 hash seeds", ds.records.size());
}

absl::StatusOr<std::unique_ptr<PirServer>> MakeServer(const Params& p, const std::vector<std::pair<std::string, std::string>>& records,
                                                      Role role, ServerDeps deps) {
  switch (p.kind) {
    case Kind::kDense: {
      DenseDpfPirDatabase::Builder b;
      for (auto& r : records) b.Insert(r.second);
      SIM_ASSIGN(auto db, b.Build());
      if (role == Role::kLeader) return DenseDpfPirServer::CreateLeader(p.dense, std::move(db), std::move(deps.sender));
      if (role == Role::kHelper) return DenseDpfPirServer::CreateHelper(p.dense, std::move(db), std::move(deps.decrypter));
      return DenseDpfPirServer::CreatePlain(p.dense, std::move(db));
    }
    case Kind::kCuckoo: {
      CuckooHashedDpfPirDatabase::Builder b;
      b.SetParams(p.cuckoo);
      for (auto& r : records) b.Insert(r);
      SIM_ASSIGN(auto db, b.Build());
      if (role == Role::kLeader)
        return CuckooHashingSparseDpfPirServer::CreateLeader(p.cuckoo, std::move(db), std::move(deps.sender));
      if (role == Role::kHelper)
        return CuckooHashingSparseDpfPirServer::CreateHelper(p.cuckoo, std::move(db), std::move(deps.decrypter));
      return CuckooHashingSparseDpfPirServer::CreatePlain(p.cuckoo, std::move(db));
    }
    default: {
      SimpleHashedDpfPirDatabase::Builder b;
      b.SetParams(p.simple);
      for (auto& r : records) b.Insert(r);
      SIM_ASSIGN(auto db, b.Build());
      if (role == Role::kLeader)
        return SimpleHashingSparseDpfPirServer::CreateLeader(p.simple, std::move(db), std::move(deps.sender));
      if (role == Role::kHelper)
        return SimpleHashingSparseDpfPirServer::CreateHelper(p.simple, std::move(db), std::move(deps.decrypter));
      return SimpleHashingSparseDpfPirServer::CreatePlain(p.simple, std::move(db));
    }
  }
}

// ----------------------------------------------------------------- clients
namespace {
struct DenseC : AnyClient {
  std::unique_ptr<DenseDpfPirClient> c;
  static std::vector<int> Idx(const std::vector<std::string>& q) {
    std::vector<int> r;
    for (auto& s : q) r.push_back(atoi(s.c_str()));
    return r;
  }
  absl::StatusOr<std::pair<PirRequest, PirRequestClientState>> Create(const std::vector<std::string>& q) const override {
    auto i = Idx(q);
    return c->CreateRequest(i);
  }
  absl::StatusOr<std::tuple<DpfPirRequest::PlainRequest, DpfPirRequest::HelperRequest, PirRequestClientState>> CreatePlain(
      const std::vector<std::string>& q) const override {
    auto i = Idx(q);
    return c->CreatePlainRequests(i);
  }
  absl::StatusOr<std::vector<absl::optional<std::string>>> Handle(const PirResponse& r, const PirRequestClientState& s) const override {
    SIM_ASSIGN(auto v, c->HandleResponse(r, s));
    return std::vector<absl::optional<std::string>>(v.begin(), v.end());
  }
};
template <class C>
struct SparseC : AnyClient {
  std::unique_ptr<C> c;
  absl::StatusOr<std::pair<PirRequest, PirRequestClientState>> Create(const std::vector<std::string>& q) const override {
    return c->CreateRequest(q);
  }
  absl::StatusOr<std::tuple<DpfPirRequest::PlainRequest, DpfPirRequest::HelperRequest, PirRequestClientState>> CreatePlain(
      const std::vector<std::string>& q) const override {
    return c->CreatePlainRequests(q);
  }
  absl::StatusOr<std::vector<absl::optional<std::string>>> Handle(const PirResponse& r, const PirRequestClientState& s) const override {
    return c->HandleResponse(r, s);
  }
};
}  // namespace
absl::StatusOr<std::unique_ptr<AnyClient>> MakeClient(const Params& p, EncryptFn enc, const char* context) {
  std::string ctx = context ? std::string(context) : Ctx(p.kind);
  switch (p.kind) {
    case Kind::kDense: {
      auto r = std::make_unique<DenseC>();
      SIM_ASSIGN(r->c, context ? DenseDpfPirClient::Create(p.dense, std::move(enc), ctx)
                                         : DenseDpfPirClient::Create(p.dense, std::move(enc)));
      return r;
    }
    case Kind::kCuckoo: {
      PirServerPublicParams pp;
      *pp.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = p.cuckoo;
      auto r = std::make_unique<SparseC<CuckooHashingSparseDpfPirClient>>();
      SIM_ASSIGN(r->c, context ? CuckooHashingSparseDpfPirClient::Create(pp, std::move(enc), ctx)
                                         : CuckooHashingSparseDpfPirClient::Create(pp, std::move(enc)));
      return r;
    }
    default: {
      PirServerPublicParams pp;
      *pp.mutable_simple_hashing_sparse_dpf_pir_server_params() = p.simple;
      auto r = std::make_unique<SparseC<SimpleHashingSparseDpfPirClient>>();
      SIM_ASSIGN(r->c, context ? SimpleHashingSparseDpfPirClient::Create(pp, std::move(enc), ctx)
                                         : SimpleHashingSparseDpfPirClient::Create(pp, std::move(enc)));
      return r;
    }
  }
}

// ----------------------------------------------------------------- network
void Net::Send(const std::string& from, const std::string& to, std::function<void()> deliver) {
  sent++;
  Span sp;
  uint64_t delay = cfg.min_us + Draw(cfg.jitter_us + 1);
  if (faults_on) {
    if (cut.count({from, to}) || cut.count({to, from})) {
      Count("fault:partition-drop");
      NonTrivial();
      return;
    }
    if (cfg.drop && Chance(cfg.drop, 1000)) {
      Count("fault:message-loss");
      NonTrivial();
      Log("net: lose %s->%s", from.c_str(), to.c_str());
      return;
    }
    if (cfg.slow && Chance(cfg.slow, 1000)) {
      Count("fault:message-delay");
      NonTrivial();
      delay += Draw(cfg.slow_us);
    }
    if (cfg.dup && Chance(cfg.dup, 1000)) {
      Count("fault:message-duplication");
      NonTrivial();
      After(delay + Draw(cfg.slow_us), deliver);
    }
  }
  After(delay, deliver);
  delivered++;
}
}  // namespace sim
