// P06: freshness and confidentiality of client secrets.
// P07: parameter epochs (hash seeds) never mix.
#include <string.h>

#include <algorithm>

#include "pir_world.h"

namespace sim {
namespace {
// ------------------------------------------------------------------- P06
// Flattens every scalar of a message; `shape` describes everything else.
void Flatten(const google::protobuf::Message& m, std::vector<uint64_t>* leaf, std::string* shape) {
  auto* refl = m.GetReflection();
  auto* desc = m.GetDescriptor();
  for (int i = 0; i < desc->field_count(); i++) {
    auto* f = desc->field(i);
    int n = f->is_repeated() ? refl->FieldSize(m, f) : f->has_presence() ? refl->HasField(m, f) : 1;
    *shape += std::to_string(f->number()) + ":" + std::to_string(n);
    using F = google::protobuf::FieldDescriptor;
    for (int k = 0; k < n; k++) {
      bool rep = f->is_repeated();
      switch (f->cpp_type()) {
        case F::CPPTYPE_MESSAGE:
          *shape += "{";
          Flatten(rep ? refl->GetRepeatedMessage(m, f, k) : refl->GetMessage(m, f), leaf, shape);
          *shape += "}";
          break;
        case F::CPPTYPE_STRING: {
          std::string s = rep ? refl->GetRepeatedString(m, f, k) : refl->GetString(m, f);
          *shape += "s" + std::to_string(s.size());
          s.resize((s.size() + 7) / 8 * 8, 0);
          for (size_t j = 0; j < s.size(); j += 8) {
            uint64_t v;
            memcpy(&v, s.data() + j, 8);
            leaf->push_back(v);
          }
          break;
        }
        case F::CPPTYPE_UINT64: leaf->push_back(rep ? refl->GetRepeatedUInt64(m, f, k) : refl->GetUInt64(m, f)); break;
        case F::CPPTYPE_INT64: leaf->push_back(rep ? refl->GetRepeatedInt64(m, f, k) : refl->GetInt64(m, f)); break;
        case F::CPPTYPE_UINT32: leaf->push_back(rep ? refl->GetRepeatedUInt32(m, f, k) : refl->GetUInt32(m, f)); break;
        case F::CPPTYPE_INT32: leaf->push_back(rep ? refl->GetRepeatedInt32(m, f, k) : refl->GetInt32(m, f)); break;
        case F::CPPTYPE_BOOL: leaf->push_back(rep ? refl->GetRepeatedBool(m, f, k) : refl->GetBool(m, f)); break;
        default: break;
      }
    }
  }
}
std::string BlockStr(const d::Block& b) {
  uint64_t v[2] = {b.high(), b.low()};
  return std::string((char*)v, 16);
}

struct Secrets {
  std::map<std::string, std::string> owner;  // 16-byte secret -> where it was used
  std::vector<std::string> all;
  uint64_t vary_or[2] = {0, 0}, vary_and[2] = {~0ull, ~0ull};
  uint64_t pad_or[2] = {0, 0}, pad_and[2] = {~0ull, ~0ull};
  uint64_t keys = 0, pads = 0;
  void Add(const std::string& s, const std::string& where, bool pad) {
    if (s.size() != 16) Violate("secret-length", "%s is %zu bytes", where.c_str(), s.size());
    auto r = owner.insert({s, where});
    if (!r.second) Violate("secret-reused", "%s equals %s: %s", where.c_str(), r.first->second.c_str(), Hex(s).c_str());
    uint64_t v[2];
    memcpy(v, s.data(), 16);
    // A half of a secret must not recur either.
    for (int h = 0; h < 2; h++) {
      auto q = halves.insert({v[h], where});
      if (!q.second) Violate("secret-half-reused", "%s shares 8 bytes with %s", where.c_str(), q.first->second.c_str());
      (pad ? pad_or : vary_or)[h] |= v[h];
      (pad ? pad_and : vary_and)[h] &= v[h];
    }
    (pad ? pads : keys)++;
  }
  std::map<uint64_t, std::string> halves;
  void Finish() {
    for (int pad = 0; pad < 2; pad++) {
      if ((pad ? pads : keys) < 64) continue;
      Count("probe:bit-variation-checked");
      for (int h = 0; h < 2; h++) {
        uint64_t o = (pad ? pad_or : vary_or)[h], a = (pad ? pad_and : vary_and)[h];
        if (~o || a) Violate("secret-bits-constant", "%s seeds: bits that never vary: %016llx", pad ? "pad" : "key", (unsigned long long)(~o | a));
      }
    }
  }
};

struct P06World {
  Kind kind;
  Dataset ds;
  Params params;
  Secrets secrets;
  std::map<size_t, std::string> shape;  // by batch size
  struct Captured {
    std::string plain;
  };
};

struct P06Client {
  P06World* w;
  std::string name;
  Node* node = nullptr;
  std::shared_ptr<AnyClient> c;
  std::map<int, std::string> captured;  // task -> plaintext of its helper request
  void Open() {
    NodeScope ns(node);
    auto r = MakeClient(w->params, [this](absl::string_view p, absl::string_view) -> absl::StatusOr<std::string> {
      captured[CurTask()] = std::string(p);
      if (CurTask() >= 0 && Draw(2)) Yield();
      return std::string("ciphertext");
    });
    if (!r.ok()) Violate("client-create", "%s", r.status().ToString().c_str());
    c = std::move(*r);
  }
  // Returns the leaves of what the Leader sees in clear.
  std::vector<uint64_t> Request(const std::vector<std::string>& q, int serial, bool single) {
    uint64_t before = node->rand_bytes;
    auto keep = c;
    auto r = keep->Create(q);
    if (!r.ok()) Violate("request-rejected", "%s", r.status().ToString().c_str());
    d::DpfPirRequest::HelperRequest h;
    if (!h.ParseFromString(captured[CurTask()])) Violate("wire-format", "helper request does not parse");
    const auto& lr = r->first.dpf_pir_request().leader_request();
    const auto& lead = lr.plain_request();
    const auto& help = h.plain_request();
    if (lr.encrypted_helper_request().encrypted_request() != "ciphertext") Violate("helper-request-not-encrypted", "the encrypter's output is not what is sent");
    if (lead.dpf_key_size() == 0 || lead.dpf_key_size() != help.dpf_key_size()) Violate("key-count", "%d keys for the Leader, %d for the Helper", lead.dpf_key_size(), help.dpf_key_size());
    std::string where = name + " request " + std::to_string(serial);
    for (int i = 0; i < lead.dpf_key_size(); i++) {
      w->secrets.Add(BlockStr(lead.dpf_key(i).seed()), where + " leader key " + std::to_string(i), false);
      w->secrets.Add(BlockStr(help.dpf_key(i).seed()), where + " helper key " + std::to_string(i), false);
    }
    w->secrets.Add(h.one_time_pad_seed(), where + " pad", true);
    if (single) {
      uint64_t need = 16ull * (2 * lead.dpf_key_size() + 1);
      uint64_t drawn = node->rand_bytes - before;
      if (drawn < need) Violate("entropy-missing", "a request with %d keys drew %llu bytes of system entropy, its secrets are %llu bytes", lead.dpf_key_size(), (unsigned long long)drawn, (unsigned long long)need);
      Count("probe:entropy-accounted");
    }
    // The Leader's clear view.
    std::vector<uint64_t> leaf;
    std::string shape;
    Flatten(lead, &leaf, &shape);
    Log("%s: %zu queries, %zu scalars in clear", where.c_str(), q.size(), leaf.size());
    auto s = w->shape.insert({q.size(), shape});
    if (!s.second && s.first->second != shape) Violate("shape-depends-on-query", "requests for %zu elements have different shapes", q.size());
    std::set<uint64_t> seen(leaf.begin(), leaf.end());
    for (int i = 0; i < help.dpf_key_size(); i++)
      if (seen.count(help.dpf_key(i).seed().high()) || seen.count(help.dpf_key(i).seed().low())) Violate("helper-seed-exposed", "the Leader sees (half of) the Helper's key seed");
    uint64_t pad[2];
    memcpy(pad, h.one_time_pad_seed().data(), 16);
    auto sw = [](uint64_t x) { return __builtin_bswap64(x); };
    for (uint64_t p : pad)
      if (seen.count(p) || seen.count(sw(p))) Violate("pad-exposed", "the Leader sees (half of) the pad seed");
    if (lr.SerializeAsString().find(h.one_time_pad_seed()) != std::string::npos) Violate("pad-exposed", "the Leader's message contains the pad seed");
    // The client's own state holds exactly the pad it sent.
    std::string st = r->second.SerializeAsString();
    if (st.find(h.one_time_pad_seed()) == std::string::npos) Violate("state-without-pad", "the saved client state does not hold the pad seed");
    return leaf;
  }
};
std::vector<std::string> DrawBatch(P06World& w, Stream& st, int n) {
  std::vector<std::string> q;
  for (int i = 0; i < n; i++) q.push_back(w.kind != Kind::kDense && st.Below(2) ? w.ds.AbsentQuery(st) : w.ds.PresentQuery(st));
  return q;
}
void SetupP06(P06World* w) {
  w->kind = (Kind)Draw(3);
  DataShape sh;
  sh.max_records = Draw(3) ? 40 : 2000;
  w->ds = MakeDataset(w->kind, Draw(1 << 20), sh);
  w->params = MakeParams(w->ds);
}
void RunSecrets() {
  P06World w;
  SetupP06(&w);
  int nclients = 1 + Draw(3), threads = 1 + Draw(3);
  if (nclients * threads > 1) NonTrivial();
  std::vector<std::unique_ptr<P06Client>> cs;
  for (int i = 0; i < nclients; i++) {
    auto c = std::make_unique<P06Client>();
    c->w = &w;
    c->name = "client" + std::to_string(i);
    c->node = NewNode(c->name);
    c->Open();
    P06Client* cp = c.get();
    bool restarts = threads == 1;
    for (int t = 0; t < threads; t++)
      Spawn(c->name, c->node, [cp, i, t, threads, restarts, &w] {
        Stream st(i, t);
        for (int k = 0, n = 1 + Draw(6); k < n; k++) {
          Span sp;
          Yield();
          if (restarts && Chance(1, 4)) {
            Count("fault:crash-restart");
            NonTrivial();
            cp->node = NewNode(cp->name);
            cp->Open();
          }
          NodeScope ns(cp->node);
          cp->Request(DrawBatch(w, st, 1 + Draw(4)), k, threads == 1);
          State(Mix(w.secrets.owner.size(), w.shape.size()));
        }
      });
    cs.push_back(std::move(c));
  }
  RunAll();
  w.secrets.Finish();
}
// Two fixed queries, many requests: no bit the Leader sees follows the query.
void RunBits() {
  P06World w;
  SetupP06(&w);
  P06Client c;
  c.w = &w;
  c.name = "client";
  c.node = NewNode("client");
  c.Open();
  Stream st(1, 1);
  std::vector<std::string> q[2] = {DrawBatch(w, st, 1), DrawBatch(w, st, 1)};
  if (w.kind == Kind::kDense && Draw(2)) q[0] = {"0"}, q[1] = {std::to_string(w.ds.records.size() - 1)};
  const int n = 64;
  NonTrivial();
  Spawn("client", c.node, [&] {
    std::vector<uint16_t> ones[2];
    for (int i = 0; i < 2 * n; i++) {
      auto leaf = c.Request(q[i % 2], i, true);
      auto& o = ones[i % 2];
      o.resize(leaf.size() * 64);
      for (size_t k = 0; k < leaf.size(); k++)
        for (uint64_t v = leaf[k]; v; v &= v - 1) o[k * 64 + __builtin_ctzll(v)]++;
    }
    for (size_t k = 0; k < ones[0].size(); k++) {
      // 48 of 64 is 8.5 standard deviations for independent fair bits.
      if (abs(ones[0][k] - ones[1][k]) >= 48)
        Violate("leader-view-follows-query", "bit %zu of the Leader's message is set in %d of %d requests for one element and %d for another", k, ones[0][k], n, ones[1][k]);
    }
    Count("probe:leader-view-bits", ones[0].size());
  });
  RunAll();
  w.secrets.Finish();
}

// ------------------------------------------------------------------- P07
struct EpochServer {
  Node* node;
  std::shared_ptr<d::PirServer> srv;
  int epoch = 0;
  bool up = true;
};
struct P07World {
  Kind kind;
  Dataset ds;
  std::vector<Params> params;
  EpochServer leader, helper;
  std::vector<std::shared_ptr<d::PirServer>> old;
  HybridKey key{3};
  uint64_t nonce = 1;
  std::map<std::string, int> helper_epoch_used;  // ciphertext -> epoch that answered last

  void Start(EpochServer* s, Role role, int epoch) {
    NodeScope ns(s->node);
    ServerDeps deps;
    P07World* w = this;
    deps.sender = [w](const PirRequest& r, absl::AnyInvocable<void()> ww) -> absl::StatusOr<PirResponse> {
      bool early = Draw(2);
      if (early) ww();
      Sleep(100 + Draw(3000));
      if (!w->helper.up) return absl::UnavailableError("sim: helper down");
      auto h = w->helper.srv;
      w->helper_epoch_used[r.dpf_pir_request().encrypted_helper_request().encrypted_request()] = w->helper.epoch;
      absl::StatusOr<PirResponse> resp;
      {
        NodeScope ns(w->helper.node);
        resp = h->HandleRequest(r);
      }
      Sleep(100 + Draw(3000));
      if (!early) ww();
      return resp;
    };
    deps.decrypter = [w](absl::string_view c, absl::string_view ctx) { return HybridDecrypt(w->key, c, ctx); };
    auto r = MakeServer(params[epoch], ds.records, role, std::move(deps));
    if (!r.ok()) Violate("server-start", "%s", r.status().ToString().c_str());
    if (s->srv) old.push_back(s->srv);
    s->srv = std::move(*r);
    s->epoch = epoch;
    s->up = true;
  }
};
std::string SeedOf(const Params& p) {
  return p.kind == Kind::kSimple ? p.simple.hash_family_config().seed() : p.cuckoo.hash_family_config().seed();
}
void RunEpochs() {
  auto wp = std::make_unique<P07World>();
  P07World* w = wp.get();
  w->kind = Draw(2) ? Kind::kSimple : Kind::kCuckoo;
  DataShape sh;
  sh.max_records = 80;
  w->ds = MakeDataset(w->kind, Draw(1 << 20), sh);
  int epochs = 2 + Draw(3);
  bool same_geometry = Draw(3) != 2;
  for (int e = 0; e < epochs; e++) {
    NodeScope ns(NewNode("operator"));
    w->params.push_back(MakeParams(w->ds));
    // Same table geometry, so that only the hash seed differs.
    if (w->kind == Kind::kSimple && same_geometry) w->params[e].simple.set_num_buckets(w->params[0].simple.num_buckets());
    // A seed that differs little from the first epoch's, as a counter or a typo would.
    if (e && Draw(3) != 2) {
      Params p = w->params[0];
      auto* cfg = w->kind == Kind::kSimple ? p.simple.mutable_hash_family_config() : p.cuckoo.mutable_hash_family_config();
      std::string seed = cfg->seed();
      switch (Draw(5)) {
        case 0: seed[0] ^= 1 + Draw(255); break;
        case 1: seed.back() ^= 1 + Draw(255); break;
        case 2: seed[Draw(seed.size())] ^= 1 << Draw(8); break;
        case 3: seed.push_back(Draw(2) ? 0 : Draw(256)); break;
        default: seed.resize(1 + Draw(seed.size() - 1)); break;
      }
      cfg->set_seed(seed);
      bool dup = false;
      for (int k = 0; k < e; k++)
        if (SeedOf(w->params[k]) == seed) dup = true;
      if (!dup && FitsParams(w->ds, p)) w->params[e] = p, Count("probe:near-identical-seed");
    }
  }
  w->leader.node = NewNode("leader");
  w->helper.node = NewNode("helper");
  w->Start(&w->leader, Role::kLeader, 0);
  w->Start(&w->helper, Role::kHelper, 0);
  // The operator rotates parties one after another, in any order, forwards or back.
  Spawn("operator", NewNode("operator"), [w, epochs] {
    for (int i = 0, n = 1 + Draw(6); i < n; i++) {
      Span sp;
      Sleep(Draw(8000));
      EpochServer* s = Draw(2) ? &w->leader : &w->helper;
      int e = Draw(epochs);
      Count("fault:crash-restart");
      NonTrivial();
      s->up = false;
      if (Draw(2)) Sleep(Draw(3000));
      w->Start(s, s == &w->leader ? Role::kLeader : Role::kHelper, e);
      Log("operator: %s now at epoch %d", s == &w->leader ? "leader" : "helper", e);
    }
  });
  int nclients = 1 + Draw(3);
  for (int c = 0; c < nclients; c++) {
    Spawn("client" + std::to_string(c), NewNode("client"), [w, c, epochs] {
      Stream st(c, 31);
      int epoch = 0;
      auto open = [&] {
        auto r = MakeClient(w->params[epoch], [w](absl::string_view p, absl::string_view ctx) -> absl::StatusOr<std::string> {
          return HybridEncrypt(w->key, w->nonce++, p, ctx);
        });
        if (!r.ok()) Violate("client-create", "%s", r.status().ToString().c_str());
        return std::move(*r);
      };
      auto client = open();
      for (int i = 0, n = 2 + Draw(6); i < n; i++) {
        Span sp;
        Sleep(Draw(6000));
        if (Chance(1, 3)) {
          epoch = Draw(3) ? w->leader.epoch : (int)Draw(epochs);
          client = open();
          Log("client%d refreshes to epoch %d", c, epoch);
        }
        std::vector<std::string> q;
        for (int k = 0, m = 1 + Draw(3); k < m; k++) q.push_back(Draw(3) ? w->ds.PresentQuery(st) : w->ds.AbsentQuery(st));
        auto r = client->Create(q);
        if (!r.ok()) Violate("request-rejected", "%s", r.status().ToString().c_str());
        std::string cipher = r->first.dpf_pir_request().leader_request().encrypted_helper_request().encrypted_request();
        int req_epoch = epoch;
        if (Chance(1, 4)) {
          // A deployment whose seed has almost the same fingerprint: no server
          // at any epoch may answer its requests.
          PirRequest near = r->first;
          auto* lr = near.mutable_dpf_pir_request()->mutable_leader_request();
          uint32_t bit = 1u << Draw(31);
          bool at_helper = Draw(2);
          if (at_helper) {
            auto* e = lr->mutable_encrypted_helper_request();
            auto plain = HybridDecrypt(w->key, e->encrypted_request(), Ctx(w->kind));
            d::DpfPirRequest::HelperRequest h;
            if (!plain.ok() || !h.ParseFromString(*plain)) Violate("request-rejected", "the Helper cannot read the request");
            h.mutable_plain_request()->set_seed_fingerprint(h.plain_request().seed_fingerprint() ^ bit);
            auto again = HybridEncrypt(w->key, w->nonce++, h.SerializeAsString(), Ctx(w->kind));
            e->set_encrypted_request(again);
            if (!h.plain_request().seed_fingerprint()) continue;
          } else {
            lr->mutable_plain_request()->set_seed_fingerprint(lr->plain_request().seed_fingerprint() ^ bit);
            if (!lr->plain_request().seed_fingerprint()) continue;
          }
          Count("probe:near-identical-fingerprint");
          NonTrivial();
          auto leader = w->leader.srv;
          NodeScope ns(w->leader.node);
          auto resp = leader->HandleRequest(near);
          Log("client%d: fingerprint off by bit %u at the %s -> %s", c, bit, at_helper ? "Helper" : "Leader", StatusStr(resp.status()).c_str());
          if (resp.ok()) Violate("epochs-mixed", "a request whose seed fingerprint is off by bit %u at the %s was answered", bit, at_helper ? "Helper" : "Leader");
        }
        for (int attempt = 0, m = 1 + Draw(2); attempt < m; attempt++) {
          Sleep(Draw(4000));
          auto leader = w->leader.srv;
          int le = w->leader.epoch;
          if (!w->leader.up) continue;
          absl::StatusOr<PirResponse> resp;
          {
            NodeScope ns(w->leader.node);
            w->helper_epoch_used.erase(cipher);
            resp = leader->HandleRequest(r->first);
          }
          auto it = w->helper_epoch_used.find(cipher);
          int he = it == w->helper_epoch_used.end() ? -1 : it->second;
          Log("client%d request epoch %d, leader %d, helper %d -> %s", c, req_epoch, le, he, StatusStr(resp.status()).c_str());
          State(Mix(req_epoch * 100 + le * 10 + he + 1, resp.ok()));
          if (he < 0) {
            if (resp.ok()) Violate("answer-without-helper", "answered although the Helper was down");
            continue;
          }
          bool agree = req_epoch == le && le == he;
          if (!agree) {
            Count("probe:epoch-mismatch");
            NonTrivial();
            if (resp.ok()) Violate("epochs-mixed", "request of epoch %d was answered by a Leader at epoch %d and a Helper at epoch %d", req_epoch, le, he);
            continue;
          }
          if (!resp.ok()) Violate("epoch-rejected", "all parties at epoch %d, but: %s", le, resp.status().ToString().c_str());
          Count("probe:epoch-match");
          auto got = client->Handle(*resp, r->second);
          if (!got.ok()) Violate("response-rejected", "%s", got.status().ToString().c_str());
          for (size_t k = 0; k < q.size(); k++)
            if ((*got)[k] != w->ds.Expect(q[k])) Violate("wrong-answer", "query %s answered wrongly at epoch %d", Hex(q[k]).c_str(), le);
        }
      }
    });
  }
  RunAll();
}
}  // namespace
SCENARIO(P06, secrets, 6) { RunSecrets(); }
SCENARIO(P06, leader_view, 1) { RunBits(); }
SCENARIO(P07, epochs, 1) { RunEpochs(); }
}  // namespace sim
