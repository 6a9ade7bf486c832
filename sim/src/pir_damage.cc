// P21: whatever reaches a client or server as a message or saved state, nothing
// crashes and valid traffic is unaffected.
#include <algorithm>
#include <memory>

#include "mutate.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
#include "pir_world.h"

namespace sim {
namespace {
struct Site;
struct Donors {
  std::vector<std::string> requests, inner, responses, states, ciphers;
};
// One deployment: both operating modes, and a client.
struct Site {
  Kind kind;
  Dataset ds;
  Params params;
  HybridKey key{99};
  uint64_t nonce = 1;
  Donors* donors;
  std::unique_ptr<d::PirServer> leader, helper, plain[2];
  Node* machine[2];
  std::unique_ptr<AnyClient> client;
  size_t per_key = 0, esize[2] = {0, 0};  // shape of a valid answer
  bool damage_hops = false;               // the Leader-Helper link corrupts messages

  void Start(Donors* dn) {
    donors = dn;
    for (int i = 0; i < 2; i++) {
      machine[i] = NewNode(i ? "helper" : "leader");
      machine[i]->simd = Draw(SimdTargets());
    }
    kind = (Kind)Draw(3);
    DataShape sh;
    sh.max_records = 40;
    sh.max_value = 30;
    ds = MakeDataset(kind, Draw(1 << 20), sh);
    params = MakeParams(ds);
    ServerDeps ld, hd;
    ld.sender = [this](const PirRequest& r, absl::AnyInvocable<void()> ww) -> absl::StatusOr<PirResponse> {
      bool hurt = damage_hops && !NextIsValid();
      if (CurTask() >= 0 && Draw(2)) Sleep(Draw(2000));
      ww();
      PirRequest q = r;
      if (hurt && Draw(2) && !ReloadDamaged(r.SerializeAsString(), donors->requests, &q)) return absl::UnavailableError("sim: lost");
      absl::StatusOr<PirResponse> a;
      {
        NodeScope ns(machine[1]);
        a = helper->HandleRequest(q);
      }
      if (CurTask() >= 0 && Draw(2)) Sleep(Draw(2000));
      if (hurt && a.ok() && Draw(2)) {
        PirResponse b;
        if (!ReloadDamaged(a->SerializeAsString(), donors->responses, &b)) return absl::UnavailableError("sim: lost");
        return b;
      }
      return a;
    };
    hd.decrypter = [this](absl::string_view c, absl::string_view ctx) {
      if (CurTask() >= 0 && Draw(2)) Yield();
      return HybridDecrypt(key, c, ctx);
    };
    auto must = [](auto r) {
      if (!r.ok()) Violate("start", "%s", r.status().ToString().c_str());
      return std::move(*r);
    };
    leader = must(MakeServer(params, ds.records, Role::kLeader, std::move(ld)));
    helper = must(MakeServer(params, ds.records, Role::kHelper, std::move(hd)));
    for (auto& p : plain) p = must(MakeServer(params, ds.records, Role::kPlain, {}));
    client = must(MakeClient(params, [this](absl::string_view p, absl::string_view ctx) -> absl::StatusOr<std::string> {
      return HybridEncrypt(key, nonce++, p, ctx);
    }));
  }
  std::set<int> valid_tasks;
  int valid_main = 0;
  bool NextIsValid() { return CurTask() >= 0 ? valid_tasks.count(CurTask()) > 0 : valid_main > 0; }

  std::vector<std::string> Queries(Stream& st, int max) {
    std::vector<std::string> q;
    for (int i = 0, n = 1 + Draw(max); i < n; i++) q.push_back(Draw(3) == 2 && kind != Kind::kDense ? ds.AbsentQuery(st) : ds.PresentQuery(st));
    return q;
  }
  void CheckAnswer(const char* what, const std::vector<std::string>& q, const absl::StatusOr<std::vector<absl::optional<std::string>>>& got) {
    if (!got.ok()) Violate("valid-refused", "%s: a valid request failed amid damaged ones: %s", what, got.status().ToString().c_str());
    if (got->size() != q.size()) Violate("valid-wrong", "%s: %zu answers for %zu queries", what, got->size(), q.size());
    for (size_t i = 0; i < q.size(); i++)
      if ((*got)[i] != ds.Expect(q[i])) Violate("valid-wrong", "%s: wrong answer to a valid %s query amid damaged ones", what, KindName(kind));
  }
  // A valid round trip through both modes.
  void Valid(Stream& st) {
    int t = CurTask();
    if (t >= 0) valid_tasks.insert(t);
    else valid_main++;
    auto q = Queries(st, 3);
    auto r = client->Create(q);
    if (!r.ok()) Violate("valid-refused", "creating a request: %s", r.status().ToString().c_str());
    absl::StatusOr<PirResponse> a;
    {
      NodeScope ns(machine[0]);
      a = leader->HandleRequest(r->first);
    }
    if (!a.ok()) Violate("valid-refused", "a valid %s request failed amid damaged ones: %s", KindName(kind), a.status().ToString().c_str());
    CheckAnswer("leader", q, client->Handle(*a, r->second));
    auto& lr = r->first.dpf_pir_request().leader_request();
    size_t keys = lr.plain_request().dpf_key_size(), n = a->dpf_pir_response().masked_response_size();
    if (!per_key) {
      SIM_ASSERT(keys && n % keys == 0);
      per_key = n / keys;
      for (size_t i = 0; i < per_key && i < 2; i++) esize[i] = a->dpf_pir_response().masked_response(i).size();
    }
    Shape("valid", *a, keys);
    donors->requests.push_back(r->first.SerializeAsString());
    PirRequest e;
    *e.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = lr.encrypted_helper_request();
    donors->requests.push_back(e.SerializeAsString());
    PirRequest p;
    *p.mutable_dpf_pir_request()->mutable_plain_request() = lr.plain_request();
    donors->requests.push_back(p.SerializeAsString());
    donors->ciphers.push_back(lr.encrypted_helper_request().encrypted_request());
    auto in = HybridDecrypt(key, donors->ciphers.back(), Ctx(kind));
    if (in.ok()) donors->inner.push_back(*in);
    donors->responses.push_back(a->SerializeAsString());
    donors->states.push_back(r->second.SerializeAsString());
    if (t >= 0) valid_tasks.erase(t);
    else valid_main--;
  }
  void Shape(const char* what, const PirResponse& a, size_t keys) {
    auto& m = a.dpf_pir_response().masked_response();
    if ((size_t)m.size() != keys * per_key) Violate("answer-shape", "%s: %d entries for %zu keys", what, m.size(), keys);
    for (int i = 0; i < m.size(); i++)
      if (m[i].size() != esize[i % per_key]) Violate("answer-shape", "%s: entry %d has %zu bytes instead of %zu", what, i, m[i].size(), esize[i % per_key]);
  }
  void Note(const char* what, const absl::Status& s) {
    Log("%s %s: %s", KindName(kind), what, StatusStr(s).c_str());
    Count(s.ok() ? "probe:answered" : "probe:refused");
    State(Mix(HashStr(what), (int)s.code() * 3 + (int)kind));
  }
  // One damaged message at a drawn place.
  void Damaged(Stream& st) {
    Span sp;
    auto pick = [&](const std::vector<std::string>& v) { return v[Draw(v.size())]; };
    int hop = Draw(6);
    if (hop == 0) {  // a request to a drawn server
      PirRequest q;
      if (!ReloadDamaged(pick(donors->requests), donors->requests, &q)) return;
      int who = Draw(3);
      NodeScope ns(machine[who == 1]);
      auto a = (who == 0 ? leader : who == 1 ? helper : plain[0])->HandleRequest(q);
      Note(who == 0 ? "leader" : who == 1 ? "helper" : "plain", a.status());
      if (a.ok()) {
        if (who == 0 && !damage_hops) Shape("leader", *a, q.dpf_pir_request().leader_request().plain_request().dpf_key_size());
        if (who == 2) Shape("plain", *a, q.dpf_pir_request().plain_request().dpf_key_size());
        donors->responses.push_back(a->SerializeAsString());
      }
      return;
    }
    if (hop == 1) {  // the plain servers, both of them
      PirRequest q;
      if (!ReloadDamaged(pick(donors->requests), donors->requests, &q)) return;
      if (q.dpf_pir_request().has_leader_request()) {
        auto p = q.dpf_pir_request().leader_request().plain_request();
        *q.mutable_dpf_pir_request()->mutable_plain_request() = p;
      }
      absl::StatusOr<PirResponse> a[2];
      for (int i = 0; i < 2; i++) {
        NodeScope ns(machine[i]);
        a[i] = plain[i]->HandleRequest(q);
      }
      Note("plain", a[0].status());
      if (a[0].status().code() != a[1].status().code() || (a[0].ok() && a[0]->SerializeAsString() != a[1]->SerializeAsString()))
        Violate("replicas-differ", "two replicas answer one damaged request differently (%s, %s)", StatusStr(a[0].status()).c_str(), StatusStr(a[1].status()).c_str());
      if (a[0].ok()) Shape("plain", *a[0], q.dpf_pir_request().plain_request().dpf_key_size());
      return;
    }
    if (hop == 2) {  // what is inside the ciphertext
      std::string in = pick(donors->inner);
      if (Draw(2)) {
        in = DamageBytes(in, donors->inner);
      } else {
        d::DpfPirRequest::HelperRequest h;
        if (!ReloadDamaged(in, donors->inner, &h)) return;
        in = h.SerializeAsString();
      }
      PirRequest q;
      std::string c = HybridEncrypt(key, nonce++, in, Ctx(kind));
      bool via = Draw(2);
      if (via) {
        q.ParseFromString(donors->requests[0]);
        if (!q.dpf_pir_request().has_leader_request()) via = false;
      }
      if (via) q.mutable_dpf_pir_request()->mutable_leader_request()->mutable_encrypted_helper_request()->set_encrypted_request(c);
      else q.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(c);
      NodeScope ns(machine[!via]);
      auto a = (via ? leader : helper)->HandleRequest(q);
      Note(via ? "inner via leader" : "inner", a.status());
      d::DpfPirRequest::HelperRequest h;
      if (a.ok() && !via) {
        if (!h.ParseFromString(in)) Violate("answers-garbage", "the Helper answered a request that does not parse");
        Shape("helper", *a, h.plain_request().dpf_key_size());
      }
      return;
    }
    if (hop == 3) {  // the ciphertext
      PirRequest q;
      std::string c = DamageBytes(pick(donors->ciphers), donors->ciphers);
      q.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(c);
      NodeScope ns(machine[1]);
      auto a = helper->HandleRequest(q);
      Note("ciphertext", a.status());
      return;
    }
    // Responses and client state.
    PirResponse a;
    d::PirRequestClientState s;
    int which = Draw(3);
    std::string as = pick(donors->responses), ss = pick(donors->states);
    size_t own = Draw(donors->responses.size());
    if (Draw(2) && own < donors->states.size()) as = donors->responses[own], ss = donors->states[own];
    if (which == 1 ? !a.ParseFromString(as) : !ReloadDamaged(as, donors->responses, &a)) return;
    if (which == 0 ? !s.ParseFromString(ss) : !ReloadDamaged(ss, donors->states, &s)) return;
    if (hop == 5 && a.dpf_pir_response().masked_response_size()) {
      // A bucket whose contents were damaged at the server.
      if (kind == Kind::kSimple && s.has_simple_hashing_sparse_dpf_pir_request_client_state()) {
        auto& st2 = s.simple_hashing_sparse_dpf_pir_request_client_state();
        d::HashedPirDatabaseBucket b, bad;
        for (int i = 0, n = 1 + Draw(3); i < n; i++) {
          b.add_keys(st2.query_strings_size() && Draw(2) ? st2.query_strings(Draw(st2.query_strings_size())) : st.Bytes(Draw(5)));
          b.add_values(st.Bytes(Draw(5)));
        }
        if (!ReloadDamaged(b.SerializeAsString(), {}, &bad)) return;
        std::string raw = bad.SerializeAsString();
        // Put it under the client's pad: ask the client for the pad first.
        PirResponse zero;
        for (auto& e : a.dpf_pir_response().masked_response()) {
          (void)e;
          zero.mutable_dpf_pir_response()->add_masked_response(std::string(raw.size(), 0));
        }
        d::PirRequestClientState ds2;
        ds2.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed(st2.one_time_pad_seed());
        d::PirConfig cfg;
        cfg.mutable_dense_dpf_pir_config()->set_num_elements(1);
        auto dc = d::DenseDpfPirClient::Create(cfg, [](absl::string_view, absl::string_view) -> absl::StatusOr<std::string> { return std::string(); });
        SIM_ASSERT(dc.ok());
        auto pad = (*dc)->HandleResponse(zero, ds2);
        if (pad.ok()) {
          for (size_t i = 0; i < pad->size(); i++) {
            for (size_t j = 0; j < raw.size(); j++) (*pad)[i][j] ^= raw[j];
            a.mutable_dpf_pir_response()->set_masked_response(i, (*pad)[i]);
          }
          Count("fault:damaged-bucket");
        }
      }
    }
    auto r = client->Handle(a, s);
    Note("client", r.status());
    if (r.ok()) {
      size_t want = a.dpf_pir_response().masked_response_size();
      if (kind == Kind::kCuckoo) want = s.cuckoo_hashing_sparse_dpf_pir_request_client_state().query_strings_size();
      if (r->size() != want) Violate("answer-shape", "the client decoded %zu answers instead of %zu", r->size(), want);
      auto again = client->Handle(a, s);
      if (!again.ok() || *again != *r) Violate("client-unstable", "decoding the same message twice differs");
    }
  }
};
}  // namespace

SCENARIO(P21, messages, 3) {
  auto dn = std::make_unique<Donors>();
  std::vector<std::unique_ptr<Site>> sites;
  Stream st(1, 21);
  for (int i = 0, n = 1 + Draw(2); i < n; i++) {
    sites.push_back(std::make_unique<Site>());
    sites.back()->Start(dn.get());
    sites.back()->Valid(st);
  }
  NonTrivial();
  Site* s = sites[0].get();
  s->damage_hops = Draw(3) == 2;
  if (Draw(2)) {
    for (int i = 0, n = 1 + Draw(8); i < n; i++) {
      s->Damaged(st);
      if (Draw(3) == 2) s->Valid(st);
    }
  } else {
    // Damaged and valid messages in flight together.
    Node* node = NewNode("clients");
    for (int t = 0, n = 2 + Draw(3); t < n; t++)
      Spawn("task" + std::to_string(t), node, [s, t] {
        Stream st(t, 22);
        for (int i = 0, n = 1 + Draw(3); i < n; i++) {
          if (Draw(2)) Sleep(Draw(3000));
          if (t == 0 || Draw(4) == 3) s->Valid(st);
          else s->Damaged(st);
        }
      });
    RunAll();
  }
  for (auto& x : sites) x->Valid(st);
}

// Clients and servers started from damaged public parameters or configurations.
SCENARIO(P21, parameters, 1) {
  auto dn = std::make_unique<Donors>();
  Site s;
  s.Start(dn.get());
  Stream st(1, 23);
  s.Valid(st);
  NonTrivial();
  d::PirServerPublicParams pp;
  d::PirConfig cfg;
  if (s.kind == Kind::kDense) cfg = s.params.dense;
  if (s.kind == Kind::kCuckoo) {
    *pp.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = s.params.cuckoo;
    cfg.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(d::HashFamilyConfig::HASH_FAMILY_SHA256);
    cfg.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(s.ds.records.size());
  }
  if (s.kind == Kind::kSimple) {
    *pp.mutable_simple_hashing_sparse_dpf_pir_server_params() = s.params.simple;
    cfg.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(d::HashFamilyConfig::HASH_FAMILY_SHA256);
    cfg.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(s.params.simple.num_buckets());
  }
  for (int i = 0, n = 1 + Draw(4); i < n; i++) {
    Span sp;
    Params bad = s.params;
    d::PirServerPublicParams p;
    d::PirConfig c;
    if (Draw(3) == 2) {  // an operator's configuration
      if (!ReloadDamaged(cfg.SerializeAsString(), {}, &c)) continue;
      int k = Draw(3);
      if (k == 0) s.Note("generate", d::CuckooHashingSparseDpfPirServer::GenerateParams(c).status());
      if (k == 1) s.Note("generate", d::SimpleHashingSparseDpfPirServer::GenerateParams(c).status());
      if (k != 2) continue;
      bad.dense = c;
    }
    if (!ReloadDamaged(pp.SerializeAsString(), {}, &p)) continue;
    if (s.kind == Kind::kDense && !ReloadDamaged(cfg.SerializeAsString(), {}, &bad.dense)) continue;
    bad.cuckoo = p.cuckoo_hashing_sparse_dpf_pir_server_params();
    bad.simple = p.simple_hashing_sparse_dpf_pir_server_params();
    // The number of hash functions is a resource bound that callers choose.
    if (bad.cuckoo.num_hash_functions() > 64) bad.cuckoo.set_num_hash_functions(64);
    auto c2 = MakeClient(bad, [&](absl::string_view x, absl::string_view ctx) -> absl::StatusOr<std::string> { return HybridEncrypt(s.key, s.nonce++, x, ctx); });
    s.Note("client create", c2.status());
    if (c2.ok()) {
      auto q = s.Queries(st, 3);
      auto r = (*c2)->Create(q);
      s.Note("client request", r.status());
      if (r.ok()) {
        auto a = s.leader->HandleRequest(r->first);
        s.Note("leader", a.status());
        if (a.ok()) s.Note("client", (*c2)->Handle(*a, r->second).status());
      }
    }
    s.Valid(st);
  }
}
}  // namespace sim
