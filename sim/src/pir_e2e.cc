// P01 dense, P02 cuckoo, P03 simple: end-to-end retrieval through a Leader /
// Helper deployment (or two plain servers) under network and crash faults.
#include <cmath>
#include <deque>
#include <numeric>

#include "dpf/distributed_point_function.h"
#include "dpf/xor_wrapper.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
#include "pir_world.h"

namespace sim {
namespace {
struct Server;
struct World {
  Kind kind;
  Dataset ds;
  Params params;
  Net net;
  HybridKey key{0x5ec2e7};
  uint64_t nonce = 1;
  bool faulty = false;
  bool alloc_faults = false;
  uint64_t faults_end = 0;
  uint64_t rpc_timeout = 60000;
  std::unique_ptr<Server> leader, helper;
  int live_clients = 0;
  uint64_t ok_ops = 0, err_ops = 0;
};

// A pending RPC at the caller.
struct Call {
  bool done = false;
  absl::StatusOr<std::string> reply = absl::UnknownError("pending");
  Cond cond;
};

struct Server {
  World* w;
  std::string name;
  Role role;
  Node* node = nullptr;
  int epoch = 0;
  bool up = false;
  std::shared_ptr<d::PirServer> srv;
  std::vector<std::shared_ptr<d::PirServer>> graveyard;
  std::vector<std::pair<std::string, std::string>> disk;  // durable records
  int boots = 0;
  std::shared_ptr<Call> Rpc(Server* to, std::string bytes);

  void Boot() {
    NodeScope ns(node);
    ServerDeps deps;
    World* world = w;
    if (role == Role::kLeader)
      deps.sender = [this](const PirRequest& r, absl::AnyInvocable<void()> ww) { return this->Sender(r, std::move(ww)); };
    if (role == Role::kHelper)
      deps.decrypter = [world](absl::string_view c, absl::string_view ctx) {
        if (CurTask() >= 0) Yield();
        return HybridDecrypt(world->key, c, ctx);
      };
    // Storage returns unordered records in any order when the scheme does not
    // depend on it.
    auto recs = disk;
    if (w->kind == Kind::kCuckoo && boots > 0) {
      for (size_t i = recs.size(); i > 1; i--) std::swap(recs[i - 1], recs[Stream(boots, i).Below(i)]);
    }
    boots++;
    auto r = MakeServer(w->params, recs, role, std::move(deps));
    if (!r.ok()) Violate("server-start", "%s could not start from its disk: %s", name.c_str(), r.status().ToString().c_str());
    srv = std::move(*r);
    up = true;
    Log("%s up (epoch %d)", name.c_str(), epoch);
  }
  void Crash() {
    if (!up) return;
    Count("fault:crash-restart");
    NonTrivial();
    Log("%s crashes", name.c_str());
    up = false;
    epoch++;
    KillTasks(node);
    graveyard.push_back(std::move(srv));
    After(1000 + Draw(150000), [this] {
      node = NewNode(name);
      node->simd = Draw(SimdTargets());
      Boot();
    });
  }
  // A request arrives from the network.
  void Receive(std::string bytes, std::function<void(absl::StatusOr<std::string>)> reply) {
    if (!up) return;  // nobody listens: the message is lost
    Spawn(name + "-handler", node, [this, bytes = std::move(bytes), reply = std::move(reply), s = srv] {
      PirRequest req;
      if (!req.ParseFromString(bytes)) Violate("wire-format", "%s cannot parse a request", name.c_str());
      if (w->alloc_faults && w->faulty && Now() < w->faults_end && Chance(1, 6)) {
        node->alloc_fail_at = node->allocs + 1 + Draw(6);
      }
      absl::StatusOr<PirResponse> r = s->HandleRequest(req);
      if (r.ok()) {
        reply(r->SerializeAsString());
      } else {
        Log("%s -> %s", name.c_str(), StatusStr(r.status()).c_str());
        reply(r.status());
      }
    });
  }
  absl::StatusOr<PirResponse> Sender(const PirRequest& req, absl::AnyInvocable<void()> while_waiting);
};

void SendReply(World* w, const std::string& from, const std::string& to, std::shared_ptr<Call> call, absl::StatusOr<std::string> r) {
  w->net.Send(from, to, [call, r = std::move(r)] {
    if (call->done) {
      Count("probe:late-or-duplicate-reply");
      return;
    }
    call->done = true;
    call->reply = r;
    Wake(&call->cond);
  });
}
std::shared_ptr<Call> StartRpc(World* w, const std::string& from, Server* to, std::string bytes) {
  auto call = std::make_shared<Call>();
  w->net.Send(from, to->name, [w, from, to, bytes = std::move(bytes), call] {
    to->Receive(bytes, [w, from, to, call](absl::StatusOr<std::string> r) { SendReply(w, to->name, from, call, std::move(r)); });
  });
  return call;
}
bool Await(Call* c, uint64_t timeout) {
  uint64_t end = Now() + timeout;
  while (!c->done) {
    if (Now() >= end) return false;
    Wait(&c->cond, end - Now());
  }
  return true;
}

absl::StatusOr<PirResponse> Server::Sender(const PirRequest& req, absl::AnyInvocable<void()> while_waiting) {
  Span sp;
  int when = Draw(3);  // 0: after sending, 1: before sending, 2: after the reply
  int attempts = 1 + Draw(3);
  std::string bytes = req.SerializeAsString();
  if (when == 1) while_waiting();
  std::shared_ptr<Call> call;
  bool ran = when == 1;
  absl::Status fail = absl::UnavailableError("sim: helper unreachable");
  for (int a = 0; a < attempts; a++) {
    call = StartRpc(w, name, w->helper.get(), bytes);
    if (!ran && when == 0) {
      while_waiting();
      ran = true;
    }
    if (Await(call.get(), w->rpc_timeout)) {
      if (!ran) while_waiting();
      ran = true;
      if (!call->reply.ok()) return call->reply.status();
      PirResponse r;
      if (!r.ParseFromString(*call->reply)) Violate("wire-format", "leader cannot parse the helper's response");
      return r;
    }
    Count("probe:leader-retry");
  }
  return fail;
}

bool LegitError(const World& w, const absl::Status& s) {
  if (!w.faulty) return false;
  switch (s.code()) {
    case absl::StatusCode::kUnavailable:
    case absl::StatusCode::kDeadlineExceeded: return true;
    case absl::StatusCode::kResourceExhausted:
    case absl::StatusCode::kInternal: return w.alloc_faults;
    default: return false;
  }
}

void CheckAnswer(World* w, const std::vector<std::string>& q, const absl::StatusOr<std::vector<absl::optional<std::string>>>& got) {
  if (!got.ok()) Violate("response-rejected", "client could not process an untampered response: %s", got.status().ToString().c_str());
  if (got->size() != q.size()) Violate("wrong-count", "%zu answers for %zu queries", got->size(), q.size());
  for (size_t i = 0; i < q.size(); i++) {
    auto want = w->ds.Expect(q[i]);
    const auto& g = (*got)[i];
    if (g.has_value() != want.has_value())
      Violate(want ? "present-reported-absent" : "absent-reported-present", "%s PIR, %zu records: query %s (%zu of %zu in batch): %s", KindName(w->kind),
              w->ds.records.size(), Hex(q[i]).c_str(), i, q.size(), want ? "present key reported absent" : ("absent key returned value " + Hex(*g)).c_str());
    if (want && *want != *g)
      Violate("wrong-value", "%s PIR, %zu records: query %s returned %s, expected %s", KindName(w->kind), w->ds.records.size(), Hex(q[i]).c_str(),
              Hex(*g, 40).c_str(), Hex(*want, 40).c_str());
  }
}

struct Client {
  World* w;
  int id;
  std::string name;
  Node* node;
  std::shared_ptr<AnyClient> c;
  void Open() {
    World* world = w;
    auto r = MakeClient(w->params, [world](absl::string_view p, absl::string_view ctx) -> absl::StatusOr<std::string> {
      if (CurTask() >= 0) Yield();
      return HybridEncrypt(world->key, world->nonce++, p, ctx);
    });
    if (!r.ok()) Violate("client-create", "%s", r.status().ToString().c_str());
    c = std::move(*r);
  }
  std::vector<std::string> DrawQueries(Stream& st) {
    int n = Draw(4) ? 1 + Draw(3) : 1 + Draw(8);
    if (Chance(1, 100) && w->ds.records.size() < 100) n = 60 + Draw(140), Count("probe:large-batch");
    std::vector<std::string> q;
    for (int i = 0; i < n; i++) {
      if (w->kind != Kind::kDense && Chance(2, 5)) {
        q.push_back(w->ds.AbsentQuery(st));
      } else if (Draw(8) == 7 && !q.empty()) {
        q.push_back(q[Draw(q.size())]);  // the same element twice in a batch
      } else if (w->kind == Kind::kDense && Chance(1, 4)) {
        q.push_back(std::to_string(w->ds.records.size() - 1));
      } else {
        q.push_back(w->ds.PresentQuery(st));
      }
    }
    return q;
  }
  // Returns true when the operation succeeded.
  bool Op(Stream& st, bool must_succeed) {
    Span sp;
    auto q = DrawQueries(st);
    auto r = c->Create(q);
    if (!r.ok()) Violate("request-rejected", "valid query rejected: %s", r.status().ToString().c_str());
    std::string bytes = r->first.SerializeAsString();
    std::string state = r->second.SerializeAsString();
    Log("%s queries %zu elements, request %zu bytes", name.c_str(), q.size(), bytes.size());
    bool crashed = false;
    int attempts = must_succeed ? 1 : 1 + Draw(4);
    for (int a = 0; a < attempts; a++) {
      if (w->faulty && Now() < w->faults_end && Chance(1, 12)) {
        // The client process dies; only the request and its state were saved.
        Count("fault:client-restart");
        NonTrivial();
        crashed = true;
        c.reset();
        Open();
      }
      auto call = StartRpc(w, name, w->leader.get(), bytes);
      if (!Await(call.get(), w->rpc_timeout * 4)) {
        Count("probe:client-timeout");
        continue;
      }
      if (!call->reply.ok()) {
        if (!LegitError(*w, call->reply.status()))
          Violate("unexpected-error", "server answered %s to a valid request", call->reply.status().ToString().c_str());
        w->err_ops++;
        continue;
      }
      PirResponse resp;
      if (!resp.ParseFromString(*call->reply)) Violate("wire-format", "client cannot parse the response");
      PirRequestClientState cs;
      if (!cs.ParseFromString(state)) Violate("wire-format", "client state does not survive serialisation");
      auto got = c->Handle(resp, cs);
      CheckAnswer(w, q, got);
      if (Draw(8) == 7) CheckAnswer(w, q, c->Handle(resp, cs));  // duplicated reply
      w->ok_ops++;
      Count("probe:op-ok");
      if (crashed) Count("probe:op-ok-after-client-restart");
      return true;
    }
    if (must_succeed) Violate("no-progress", "a request sent after all faults stopped was not served");
    Count("probe:op-gave-up");
    return false;
  }
};

void RunE2E(Kind kind) {
  World w;
  w.kind = kind;
  DataShape sh;
  sh.max_records = Draw(5) == 4 ? 2500 : 300;
  sh.allow_all_empty = false;
  w.ds = MakeDataset(kind, Draw(1 << 20), sh);
  // The operator's machine generates the parameters.
  Node* op = NewNode("operator");
  {
    NodeScope ns(op);
    w.params = MakeParams(w.ds);
  }
  w.faulty = Chance(3, 4);
  if (w.faulty) {
    // Swarm: each run enables a random subset of fault kinds.
    if (Draw(2)) w.net.cfg.drop = 20 + Draw(150);
    if (Draw(2)) w.net.cfg.dup = 20 + Draw(200);
    if (Draw(2)) w.net.cfg.slow = 20 + Draw(200);
    w.alloc_faults = Chance(1, 3);
  }
  bool crashes = w.faulty && Chance(1, 2), partitions = w.faulty && Chance(1, 4);
  w.faults_end = 400000 + Draw(1500000);
  w.net.cfg.jitter_us = Draw(2) ? 2000 : 30000;
  // Without faults a round trip always fits the timeout.
  w.rpc_timeout = 3 * (w.net.cfg.min_us + w.net.cfg.jitter_us) + 10000;
  for (Role role : {Role::kLeader, Role::kHelper}) {
    auto s = std::make_unique<Server>();
    s->w = &w;
    s->role = role;
    s->name = role == Role::kLeader ? "leader" : "helper";
    s->node = NewNode(s->name);
    s->node->simd = Draw(SimdTargets());
    s->disk = w.ds.records;
    (role == Role::kLeader ? w.leader : w.helper) = std::move(s);
  }
  w.helper->Boot();
  w.leader->Boot();
  Log("%s PIR, %zu records, max value %zu, faulty=%d crash=%d partition=%d drop=%u dup=%u slow=%u simd=%d/%d", KindName(kind), w.ds.records.size(),
      w.ds.max_value, w.faulty, crashes, partitions, w.net.cfg.drop, w.net.cfg.dup, w.net.cfg.slow, w.leader->node->simd, w.helper->node->simd);
  if (w.leader->node->simd != w.helper->node->simd) {
    Count("probe:heterogeneous-simd");
    NonTrivial();
  }
  if (crashes)
    for (int i = 0, n = 1 + Draw(4); i < n; i++) {
      Server* s = Draw(2) ? w.leader.get() : w.helper.get();
      After(Draw(w.faults_end), [s] { s->Crash(); });
    }
  if (partitions)
    for (int i = 0, n = 1 + Draw(2); i < n; i++) {
      uint64_t at = Draw(w.faults_end);
      After(at, [&w] {
        Count("fault:partition");
        w.net.cut.insert({"leader", "helper"});
      });
      After(at + Draw(w.faults_end - at), [&w] { w.net.cut.clear(); });
    }
  After(w.faults_end, [&w] {
    w.net.faults_on = false;
    w.leader->node->alloc_fail_at = w.helper->node->alloc_fail_at = 0;
    Log("faults stop");
  });
  int nclients = 1 + Draw(3);
  bool shared = Chance(1, 3);  // several callers share one client object
  std::vector<std::unique_ptr<Client>> cs;
  for (int i = 0; i < nclients; i++) {
    auto c = std::make_unique<Client>();
    c->w = &w;
    c->id = i;
    c->name = "client" + std::to_string(i);
    c->node = NewNode(c->name);
    c->node->simd = Draw(SimdTargets());
    {
      NodeScope ns(c->node);
      if (shared && i > 0) c->c = cs[0]->c; else c->Open();
    }
    cs.push_back(std::move(c));
  }
  if (nclients > 1) NonTrivial();
  for (auto& cp : cs) {
    Client* c = cp.get();
    int ops = 1 + Draw(4);
    Spawn(c->name, c->node, [c, ops, &w] {
      Stream st(c->id + 100, 3);
      for (int i = 0; i < ops; i++) {
        bool clean = !w.faulty;
        c->Op(st, clean);
        if (Draw(4) == 3) Sleep(Draw(200000));
        State(Mix(HashStr(KindName(w.kind)), Mix(w.ok_ops * 16 + w.err_ops, Mix(w.leader->epoch * 8 + w.helper->epoch, w.net.delivered))));
      }
      if (w.faulty) {
        // Liveness: wait out the faults (plus restart time and stale timers),
        // then every request must be served at its first attempt.
        uint64_t settle = w.faults_end + 200000 + w.rpc_timeout * 4 + w.net.cfg.slow_us;
        if (Now() < settle) Sleep(settle - Now());
        c->Op(st, true);
        Count("probe:progress-after-faults");
      }
    });
  }
  RunAll();
}

// Two plain servers, queried directly; the client combines the shares.
void RunPlain(Kind kind) {
  DataShape sh;
  sh.max_records = 300;
  Dataset ds = MakeDataset(kind, Draw(1 << 20), sh);
  Params p = MakeParams(ds);
  World w;
  w.kind = kind;
  w.ds = ds;
  w.params = p;
  w.faulty = Chance(1, 2);
  if (w.faulty) w.net.cfg.drop = Draw(200), w.net.cfg.dup = Draw(300), w.net.cfg.slow = Draw(300);
  std::vector<std::unique_ptr<Server>> s;
  for (int i = 0; i < 2; i++) {
    s.push_back(std::make_unique<Server>());
    s[i]->w = &w;
    s[i]->role = Role::kPlain;
    s[i]->name = i ? "server1" : "server0";
    s[i]->node = NewNode(s[i]->name);
    s[i]->node->simd = Draw(SimdTargets());
    s[i]->disk = ds.records;
    s[i]->Boot();
  }
  w.faults_end = 500000;
  if (w.faulty && Draw(2)) {
    Server* v = s[Draw(2)].get();
    After(Draw(w.faults_end), [v] { v->Crash(); });
  }
  After(w.faults_end, [&w] { w.net.faults_on = false; });
  Client c;
  c.w = &w;
  c.id = 0;
  c.name = "client";
  c.node = NewNode("client");
  {
    NodeScope ns(c.node);
    c.Open();
  }
  Spawn("client", c.node, [&] {
    Stream st(1, 4);
    for (int i = 0, n = 1 + Draw(4); i <= n; i++) {
      Span sp;
      if (i == n && Now() < 1400000) Sleep(1400000 - Now());
      auto q = c.DrawQueries(st);
      auto r = c.c->CreatePlain(q);
      if (!r.ok()) Violate("request-rejected", "valid query rejected: %s", r.status().ToString().c_str());
      std::string share[2];
      bool have[2] = {false, false};
      PirResponse resp[2];
      std::shared_ptr<Call> call[2];
      for (int a = 0; a < 3 && !(have[0] && have[1]); a++) {
        for (int k = 0; k < 2; k++) {
          if (have[k]) continue;
          PirRequest pr;
          *pr.mutable_dpf_pir_request()->mutable_plain_request() = k ? std::get<1>(*r).plain_request() : std::get<0>(*r);
          call[k] = StartRpc(&w, c.name, s[k].get(), pr.SerializeAsString());
        }
        for (int k = 0; k < 2; k++) {
          if (have[k] || !Await(call[k].get(), w.rpc_timeout)) continue;
          if (!call[k]->reply.ok()) Violate("unexpected-error", "plain server: %s", call[k]->reply.status().ToString().c_str());
          resp[k].ParseFromString(*call[k]->reply);
          have[k] = true;
        }
      }
      if (!have[0] || !have[1]) {
        if (i == n || !w.faulty) Violate("no-progress", "plain servers did not answer without faults");
        continue;
      }
      // Combine: XOR of both shares equals the records (masked by nothing).
      auto& a = *resp[0].mutable_dpf_pir_response();
      auto& b = resp[1].dpf_pir_response();
      if (a.masked_response_size() != b.masked_response_size()) Violate("wrong-count", "plain servers answered different counts");
      PirResponse masked;
      // Mask with the client's pad so that the client's own decoder applies.
      // HandleResponse(x) = x XOR pad, so HandleResponse applied twice is x.
      for (int j = 0; j < a.masked_response_size(); j++) {
        std::string x = a.masked_response(j), y = b.masked_response(j);
        if (x.size() != y.size()) Violate("wrong-size", "plain servers answered different sizes");
        for (size_t t = 0; t < x.size(); t++) x[t] ^= y[t];
        masked.mutable_dpf_pir_response()->add_masked_response(x);
      }
      if (w.kind == Kind::kDense) {
        std::vector<absl::optional<std::string>> got;
        for (auto& m : masked.dpf_pir_response().masked_response()) got.push_back(m);
        CheckAnswer(&w, q, got);
      } else {
        // Obtain the pad by decoding zeros with the wrapped dense state.
        PirRequestClientState cs;
        const auto& st0 = std::get<2>(*r);
        std::string seed = std::get<1>(*r).one_time_pad_seed();
        Params dp;
        dp.kind = Kind::kDense;
        dp.dense.mutable_dense_dpf_pir_config()->set_num_elements(4);
        auto dc = MakeClient(dp, [](absl::string_view, absl::string_view) -> absl::StatusOr<std::string> { return std::string(); });
        cs.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed(seed);
        auto padded = (*dc)->Handle(masked, cs);
        if (!padded.ok()) Violate("response-rejected", "%s", padded.status().ToString().c_str());
        PirResponse re;
        for (auto& m : *padded) re.mutable_dpf_pir_response()->add_masked_response(*m);
        CheckAnswer(&w, q, c.c->Handle(re, st0));
      }
      Count("probe:plain-op-ok");
    }
  });
  RunAll();
}

// Databases too large to build here: what the two servers would select is taken
// from evaluating the client's two keys at points of the servers' DPF.
void RunWide(Kind kind) {
  World w;
  w.kind = kind;
  Stream st(777, Draw(1 << 16));
  NonTrivial();
  int log_n = 8 + Draw(24);
  int64_t n = std::min<int64_t>((int64_t{1} << log_n) - 2 + Draw(5), 2147483647);
  if (Chance(1, 3)) n = 1 + st.Below(n);
  std::vector<d::HashFunction> hashes;
  w.params.kind = kind;
  if (kind == Kind::kDense) {
    w.params.dense.mutable_dense_dpf_pir_config()->set_num_elements(n);
  } else {
    d::HashFamilyConfig h;
    h.set_hash_family(d::HashFamilyConfig::HASH_FAMILY_SHA256);
    h.set_seed(st.Bytes(1 + st.Below(40)));
    int k = 1;
    if (kind == Kind::kCuckoo) {
      k = 1 + Draw(12);
      *w.params.cuckoo.mutable_hash_family_config() = h;
      w.params.cuckoo.set_num_hash_functions(k);
      w.params.cuckoo.set_num_buckets(n);
    } else {
      *w.params.simple.mutable_hash_family_config() = h;
      w.params.simple.set_num_buckets(n);
    }
    auto f = d::CreateHashFamilyFromConfig(h);
    SIM_ASSERT(f.ok());
    auto v = d::CreateHashFunctions(std::move(*f), k);
    SIM_ASSERT(v.ok());
    hashes = std::move(*v);
  }
  using T = d::XorWrapper<absl::uint128>;
  d::DpfParameters dp;
  dp.set_log_domain_size(static_cast<int>(std::ceil(std::log2(n))));
  *dp.mutable_value_type() = d::ToValueType<T>();
  auto dpf = d::DistributedPointFunction::Create(dp);
  SIM_ASSERT(dpf.ok());
  auto client = MakeClient(w.params, [&](absl::string_view p, absl::string_view ctx) -> absl::StatusOr<std::string> { return HybridEncrypt(w.key, w.nonce++, p, ctx); });
  if (!client.ok()) Violate("client-create", "%s client for %lld entries: %s", KindName(kind), (long long)n, client.status().ToString().c_str());
  Log("%s PIR over %lld entries", KindName(kind), (long long)n);
  for (int o = 0, ops = 1 + Draw(4); o < ops; o++) {
    Span sp;
    std::vector<std::string> q;
    std::vector<int64_t> index;
    for (int i = 0, b = 1 + Draw(3); i < b; i++) {
      if (kind == Kind::kDense) {
        int64_t x;
        switch (Draw(4)) {
          case 0: x = n - 1 - st.Below(3); break;
          case 1: x = (int64_t{1} << st.Below(31)) - 2 + st.Below(4); break;
          case 2: x = st.Below(n) / 128 * 128 + (st.Below(2) ? 127 : 0); break;
          default: x = st.Below(n);
        }
        x = std::max<int64_t>(0, std::min(x, n - 1));
        q.push_back(std::to_string(x));
        index.push_back(x);
      } else {
        q.push_back(st.Bytes(1 + st.Below(30)));
        for (auto& h : hashes) index.push_back(h(q.back(), n));
      }
    }
    auto r = (*client)->CreatePlain(q);
    if (!r.ok()) Violate("request-rejected", "valid query over %lld entries rejected: %s", (long long)n, r.status().ToString().c_str());
    auto& l = std::get<0>(*r);
    auto& h = std::get<1>(*r).plain_request();
    if (l.dpf_key_size() != (int)index.size() || h.dpf_key_size() != (int)index.size())
      Violate("wrong-selection", "%d and %d keys for %zu entries to fetch", l.dpf_key_size(), h.dpf_key_size(), index.size());
    for (size_t i = 0; i < index.size(); i++) {
      std::vector<absl::uint128> at;
      for (int64_t x : index) at.push_back(x / 128);
      for (int k = 0; k < 8; k++) at.push_back(st.Below((n + 127) / 128));
      for (int k = -1; k <= 1; k += 2)
        if (index[i] / 128 + k >= 0 && index[i] / 128 + k < (n + 127) / 128) at.push_back(index[i] / 128 + k);
      auto a = (*dpf)->EvaluateAt<T>(l.dpf_key(i), 0, at), b = (*dpf)->EvaluateAt<T>(h.dpf_key(i), 0, at);
      if (!a.ok() || !b.ok()) Violate("wrong-selection", "key %zu over %lld entries cannot be evaluated", i, (long long)n);
      for (size_t k = 0; k < at.size(); k++) {
        absl::uint128 got = ((*a)[k] + (*b)[k]).value(), want = at[k] == absl::uint128(index[i] / 128) ? absl::uint128{1} << (index[i] % 128) : absl::uint128{0};
        if (got != want)
          Violate("wrong-selection", "%s PIR over %lld entries: the keys for entry %lld select %s in block %lld", KindName(kind), (long long)n, (long long)index[i],
                  got == 0 ? "nothing" : "other entries", (long long)absl::Uint128Low64(at[k]));
      }
    }
    State(5u << 20 | log_n << 8 | (index.size() & 255));
    Count("op:wide-request");
  }
}

// Deployments at the sizes where counters and offsets grow another byte: many
// records, many queries in a batch, long records, long keys, crowded buckets.
void RunScale(Kind kind) {
  World w;
  w.kind = kind;
  Stream st(4242, Draw(1 << 16));
  NonTrivial();
  int style = Draw(kind == Kind::kDense ? 3 : kind == Kind::kCuckoo ? 4 : 5);
  size_t n = 1 + Draw(40), vlen = 1 + Draw(6), klen = 0;
  int batch = 1 + Draw(3);
  // Many requests to the same long-lived servers and client.
  bool soak = Chance(1, 3);
  if (soak) style = 9;
  switch (style) {
    case 0:
      n = kind == Kind::kDense ? (Chance(1, 3) ? 60000 + Draw(12000) : 2000 + Draw(7000)) : Chance(1, 3) ? 14000 + Draw(3000) : 1500 + Draw(3000);
      break;
    case 1: batch = 10 + Draw(Chance(1, 3) ? 260 : 60); n += 60; break;
    case 2: vlen = Chance(1, 3) ? 60000 + Draw(9000) : 500 + Draw(5000); break;
    case 3: klen = Chance(1, 3) ? 60000 + Draw(9000) : 200 + Draw(4000); break;
    case 4: n = 250 + Draw(600); break;
  }
  w.ds.kind = kind;
  for (size_t i = 0; i < n; i++) {
    std::string k = "k" + std::to_string(i);
    if (klen && st.Below(3)) k = st.Bytes(st.Below(2) ? klen : st.Below(klen + 1)) + k;
    std::string v = st.Bytes(st.Below(4) ? vlen : st.Below(vlen + 1));
    w.ds.records.push_back({k, v});
    w.ds.max_value = std::max(w.ds.max_value, v.size());
  }
  if (w.ds.max_value == 0) w.ds.records[0].second = "v", w.ds.max_value = 1;
  for (auto& r : w.ds.records) w.ds.by_key[r.first] = r.second;
  Node* op = NewNode("operator");
  {
    NodeScope ns(op);
    if (kind == Kind::kSimple && (style == 0 || style == 4)) {
      d::PirConfig c;
      auto* s = c.mutable_simple_hashing_sparse_dpf_pir_config();
      s->set_hash_family(d::HashFamilyConfig::HASH_FAMILY_SHA256);
      s->set_num_buckets(style == 4 ? 1 + Draw(2) : n * (1 + Draw(5)));
      auto r = d::SimpleHashingSparseDpfPirServer::GenerateParams(c);
      if (!r.ok()) Violate("generate-params", "%s", r.status().ToString().c_str());
      w.params.kind = kind;
      w.params.simple = *r;
    } else {
      w.params = MakeParams(w.ds);
    }
  }
  // Servers restart from their records between requests; calls to the Helper get lost.
  Node* node[2] = {NewNode("leader"), NewNode("helper")};
  for (Node* x : node) x->simd = Draw(SimdTargets());
  std::unique_ptr<d::PirServer> srv[2];
  int lost = 0, boots = 0;
  auto boot = [&](int i) {
    NodeScope ns(node[i]);
    ServerDeps deps;
    if (i == 0)
      deps.sender = [&](const PirRequest& r, absl::AnyInvocable<void()> ww) -> absl::StatusOr<PirResponse> {
        if (lost > 0) {
          lost--;
          Count("fault:helper-unreachable");
          return absl::UnavailableError("sim: no route");
        }
        ww();
        PirRequest copy;
        SIM_ASSERT(copy.ParseFromString(r.SerializeAsString()));
        NodeScope ns(node[1]);
        return srv[1]->HandleRequest(copy);
      };
    else
      deps.decrypter = [&](absl::string_view c, absl::string_view ctx) { return HybridDecrypt(w.key, c, ctx); };
    auto recs = w.ds.records;
    if (kind == Kind::kCuckoo && boots++ > 1)
      for (size_t k = recs.size(); k > 1; k--) std::swap(recs[k - 1], recs[st.Below(k)]);
    auto r = MakeServer(w.params, recs, i ? Role::kHelper : Role::kLeader, std::move(deps));
    if (!r.ok()) Violate("server-start", "cannot start from %zu records: %s", n, r.status().ToString().c_str());
    srv[i] = std::move(*r);
  };
  boot(1);
  boot(0);
  Log("%s PIR at scale: %zu records, values up to %zu bytes, keys up to %zu, batches of %d", KindName(kind), n, w.ds.max_value, klen, batch);
  auto client = MakeClient(w.params, [&](absl::string_view p, absl::string_view ctx) -> absl::StatusOr<std::string> { return HybridEncrypt(w.key, w.nonce++, p, ctx); });
  if (!client.ok()) Violate("client-create", "%s", client.status().ToString().c_str());
  if (n > 10000 && batch > 2) batch = 2;
  for (int o = 0, ops = soak ? 110 + Draw(Chance(1, 3) ? 1500 : 100) : 1 + Draw(n > 10000 ? 2 : 4); o < ops; o++) {
    Span sp;
    std::vector<std::string> q;
    for (int i = 0; i < batch; i++) {
      if (kind != Kind::kDense && Chance(1, 3)) q.push_back(w.ds.AbsentQuery(st));
      else if (Chance(1, 4)) q.push_back(kind == Kind::kDense ? std::to_string(n - 1) : w.ds.records[n - 1].first);
      else q.push_back(w.ds.PresentQuery(st));
    }
    auto r = (*client)->Create(q);
    if (!r.ok()) Violate("request-rejected", "valid query rejected: %s", r.status().ToString().c_str());
    PirRequestClientState state;
    SIM_ASSERT(state.ParseFromString(r->second.SerializeAsString()));
    if (Chance(1, soak ? 600 : 4) && (n <= 10000 || o == 0)) {
      Count("fault:crash-restart");
      boot(Draw(2));
    }
    lost = Draw(soak ? 40 : 3) / (soak ? 39 : 2);
    absl::StatusOr<PirResponse> a = absl::UnknownError("");
    for (int t = 0; t < 2 && !a.ok(); t++) {
      bool excused = lost > 0;
      NodeScope ns(node[0]);
      a = srv[0]->HandleRequest(r->first);
      if (!a.ok() && !excused) Violate("unexpected-error", "server answered %s to a valid request", a.status().ToString().c_str());
      if (a.ok() && excused) Violate("answered-alone", "the Leader answered although the Helper was unreachable");
    }
    PirResponse copy;
    SIM_ASSERT(copy.ParseFromString(a->SerializeAsString()));
    CheckAnswer(&w, q, (*client)->Handle(copy, state));
    Count("probe:scale-op");
    State(Mix(style, Mix(n >> 8, vlen >> 8)));
  }
}
}  // namespace

SCENARIO(P01, leader_helper, 60) { RunE2E(Kind::kDense); }
SCENARIO(P01, plain, 20) { RunPlain(Kind::kDense); }
SCENARIO(P01, scale, 2) { RunScale(Kind::kDense); }
SCENARIO(P01, wide, 6) { RunWide(Kind::kDense); }
SCENARIO(P02, leader_helper, 60) { RunE2E(Kind::kCuckoo); }
SCENARIO(P02, plain, 20) { RunPlain(Kind::kCuckoo); }
SCENARIO(P02, scale, 2) { RunScale(Kind::kCuckoo); }
SCENARIO(P02, wide, 6) { RunWide(Kind::kCuckoo); }
SCENARIO(P03, leader_helper, 60) { RunE2E(Kind::kSimple); }
SCENARIO(P03, plain, 20) { RunPlain(Kind::kSimple); }
SCENARIO(P03, scale, 2) { RunScale(Kind::kSimple); }
SCENARIO(P03, wide, 6) { RunWide(Kind::kSimple); }
}  // namespace sim
