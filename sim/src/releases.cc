// P28: keys, contexts, requests, replies and client state outlive the release
// that wrote them.  Fleets here mix the real code with another release
// (ref_release), which changes at restarts, upgrades and rollbacks.
#include <algorithm>
#include <map>
#include <memory>

#include "dcf/fss_gates/multiple_interval_containment.h"
#include "ref_release.h"

namespace sim {
namespace {
typedef std::unique_ptr<d::DistributedPointFunction> DpfPtr;
namespace g = d::fss_gates;
const char* Release(bool ref) { return ref ? "reference" : "this"; }
void Switched() {
  Count("fault:release-change");
  NonTrivial();
}
absl::StatusOr<Flat> Exec(const d::DistributedPointFunction& dpf, const Step& st, d::EvaluationContext& ctx) {
  switch (st.op) {
    case Step::kUntil: return st.type->Until(dpf, st.level, st.pts, ctx);
    case Step::kNext: return st.type->Next(dpf, st.pts, ctx);
    case Step::kAt: return st.type->AtCtx(dpf, st.level, st.pts, ctx);
  }
  return absl::InternalError("");
}
DpfPair Deal(bool ref, const DpfSetup& s, Stream& st) {
  if (!ref) {
    auto dpf = OpenDpf(s, true);
    return DealDpf(s, dpf.get(), st);
  }
  DpfPair p;
  p.alpha = Rand128(st, s.logs.back());
  if (Draw(4) == 3) p.alpha = Chance(1, 2) ? MaxOf(s.logs.back()) : U128(0);
  std::vector<d::Value> betas;
  for (auto* t : s.types) {
    p.betas.push_back(RandomLeaves(*t, st, st.Below(4)));
    betas.push_back(ref::MakeValue(t->vt, p.betas.back()));
  }
  d::DpfKey k[2];
  ref::Fss(s.params).Gen(p.alpha, betas, st, k);
  for (int b = 0; b < 2; b++) p.key[b] = ref::Write(k[b]);
  return p;
}
}  // namespace

// Incremental evaluations carried on by whatever release is running.
SCENARIO(P28, rolling_upgrade, 8) {
  auto st = std::make_shared<Stream>(28);
  DpfOpts o;
  if (Chance(1, 2)) o.max_log = 40;
  auto setup = std::make_shared<DpfSetup>(DrawDpfSetup(o));
  auto other = std::make_shared<ref::Fss>(setup->params);
  Node* dealer = NewNode("dealer");
  dealer->simd = Draw(SimdTargets());
  bool dealer_ref = Chance(1, 2);
  auto pair = std::make_shared<DpfPair>();
  {
    NodeScope ns(dealer);
    *pair = Deal(dealer_ref, *setup, *st);
  }
  Log("levels %s alpha %s dealt by %s release", setup->Describe().c_str(), Show(pair->alpha).c_str(), Release(dealer_ref));
  Planner pl(*setup, *pair, st.get());
  pl.illegal_steps = false;
  pl.Run();
  auto plan = std::make_shared<std::vector<Step>>(pl.plan);
  struct Party {
    Node* node;
    bool ref;
    std::map<int, std::string> saved;
    std::vector<Flat> results;
    std::vector<bool> have;
  };
  auto parties = std::make_shared<std::vector<Party>>(2);
  unsigned churn = 1 + Draw(4);
  for (int i = 0; i < 2; i++) {
    Party& p0 = (*parties)[i];
    p0.node = NewNode(i ? "party1" : "party0");
    p0.node->simd = Draw(SimdTargets());
    p0.results.resize(plan->size());
    p0.have.resize(plan->size());
    p0.ref = Chance(1, 2);
    Spawn(p0.node->name, p0.node, [=] {
      Party& p = (*parties)[i];
      DpfPtr dpf = OpenDpf(*setup);
      if (p.ref) {
        p.saved[0] = ref::Write(other->Context(ref::Read<d::DpfKey>(pair->key[i])));
      } else {
        auto ctx = dpf->CreateEvaluationContext(LoadKey(pair->key[i]));
        if (!ctx.ok())
          Violate("release-key-refused", "a key dealt by the %s release is refused (levels %s): %s", Release(dealer_ref), setup->Describe().c_str(), ctx.status().ToString().c_str());
        p.saved[0] = ctx->SerializeAsString();
      }
      int changes = 0;
      for (int k = 0; k < (int)plan->size(); k++) {
        Span sp;
        Yield();
        if (changes < 6 && Chance(churn, 6)) {
          p.ref = !p.ref;
          Switched();
          changes++;
          p.node->simd = Draw(SimdTargets());
          ApplySimd();
          dpf = OpenDpf(*setup);
          if (Chance(1, 3)) {  // some of what was stored last was lost with the old binary
            Count("fault:stale-checkpoint");
            auto it = p.saved.begin();
            std::advance(it, Draw(p.saved.size()));
            k = it->first;
          }
          Log("party%d now runs the %s release, from step %d", i, Release(p.ref), k);
          if (k >= (int)plan->size()) break;
        }
        d::EvaluationContext ctx;
        if (p.ref) ctx = ref::Read<d::EvaluationContext>(p.saved.at(k));
        else if (!ctx.ParseFromString(p.saved.at(k))) Violate("release-parse", "this release cannot parse a stored context");
        const Step& s = (*plan)[k];
        absl::StatusOr<Flat> r = absl::InternalError("");
        if (p.ref) r = other->Run(s, ctx);
        else r = Exec(*dpf, s, ctx);
        Log("party%d step %d level %d points %zu on the %s release: %s", i, k, s.level, s.pts.size(), Release(p.ref), StatusStr(r.status()).c_str());
        if (!r.ok())
          Violate("release-context-refused", "step %d at level %d (levels %s) is refused on a stored context after a release change: %s", k, s.level, setup->Describe().c_str(),
                  r.status().ToString().c_str());
        State(Mix(Mix(s.op, s.level), Mix(p.ref, setup->levels())));
        if (p.have[k] && p.results[k] != *r)
          Violate("release-replay", "step %d at level %d (levels %s) gives other shares after a release change", k, s.level, setup->Describe().c_str());
        p.have[k] = true;
        p.results[k] = *r;
        p.saved[k + 1] = p.ref ? ref::Write(ctx) : ctx.SerializeAsString();
      }
    });
  }
  RunAll();
  for (size_t k = 0; k < plan->size(); k++) {
    const Step& s = (*plan)[k];
    size_t nl = s.type->leaves.size();
    for (int b = 0; b < 2; b++)
      if ((*parties)[b].results[k].size() != s.outs.size() * nl)
        Violate("release-size", "step %zu returned %zu values instead of %zu", k, (*parties)[b].results[k].size() / nl, s.outs.size());
    for (size_t i = 0; i < s.outs.size(); i++) {
      Flat sum = AddLeaves(*s.type, Slice((*parties)[0].results[k], i, nl), Slice((*parties)[1].results[k], i, nl));
      Flat want = DpfExpect(*setup, *pair, s.level, s.outs[i]);
      if (sum != want)
        Violate("release-sum", "step %zu at level %d (levels %s): shares at %s add up to %s instead of %s (alpha %s) in a fleet of mixed releases", k, s.level,
                setup->Describe().c_str(), Show(s.outs[i]).c_str(), ShowFlat(sum).c_str(), ShowFlat(want).c_str(), Show(pair->alpha).c_str());
    }
  }
}

// Stored keys give the same shares on every release.
SCENARIO(P28, stored_keys, 4) {
  auto st = std::make_shared<Stream>(281);
  DpfOpts o;
  o.same_type = true;
  DpfSetup s = DrawDpfSetup(o);
  ref::Fss other(s.params);
  Node* dealer = NewNode("dealer");
  dealer->simd = Draw(SimdTargets());
  bool dealer_ref = Chance(1, 2);
  std::vector<DpfPair> pairs;
  {
    NodeScope ns(dealer);
    for (int i = 1 + Draw(3); i > 0; i--) pairs.push_back(Deal(dealer_ref, s, *st));
  }
  std::vector<std::vector<d::DpfKey>> theirs;  // as another release reads them
  for (auto& p : pairs) theirs.push_back({ref::Read<d::DpfKey>(p.key[0]), ref::Read<d::DpfKey>(p.key[1])});
  Node* node = NewNode("evaluator");
  node->simd = Draw(SimdTargets());
  NodeScope ns(node);
  DpfPtr dpf = OpenDpf(s);
  const DpfType& t = *s.types[0];
  size_t nl = t.leaves.size();
  Switched();
  for (int round = 1 + Draw(4); round > 0; round--) {
    Span sp;
    int n = 1 + Draw(40), top = s.logs.back();
    std::vector<d::DpfKey> keys;
    std::vector<U128> pts;
    std::vector<std::pair<int, int>> who;
    bool apply = Chance(1, 2);
    for (int i = 0; i < n; i++) {
      who.emplace_back(apply || i == 0 ? st->Below(pairs.size()) : who[0].first, apply || i == 0 ? st->Below(2) : who[0].second);
      keys.push_back(LoadKey(pairs[who[i].first].key[who[i].second]));
      pts.push_back(DrawPoint(*st, top, pairs[who[i].first].alpha));
    }
    std::vector<Flat> got;
    absl::Status r;
    if (apply) {
      r = t.Apply(*dpf, keys, Chance(1, 2), pts, [&](const Flat& f) { return got.push_back(f), true; }, 0);
    } else {
      for (int l = 0; l < s.levels() && r.ok(); l++) {
        std::vector<U128> p;
        for (U128 x : pts) p.push_back(Shr(x, top - s.logs[l]));
        auto f = t.At(*dpf, keys[0], l, p);
        r = f.status();
        if (r.ok()) got.push_back(*f);
      }
    }
    Log("%d keys dealt by %s release, %s: %s", n, Release(dealer_ref), apply ? "EvaluateAndApply" : "EvaluateAt", StatusStr(r).c_str());
    if (!r.ok()) Violate("release-key-refused", "a key dealt by the %s release is refused (levels %s): %s", Release(dealer_ref), s.Describe().c_str(), r.ToString().c_str());
    for (int l = 0; l < s.levels(); l++)
      for (int i = 0; i < n; i++) {
        if (got[l].size() != n * nl) Violate("release-size", "%zu values for %d points", got[l].size() / nl, n);
        U128 x = Shr(pts[i], top - s.logs[l]);
        Flat a = other.At(theirs[who[i].first][who[i].second], l, x), b = Slice(got[l], i, nl);
        if (a != b)
          Violate("release-share", "a key dealt by the %s release gives %s at %s of level %d (levels %s, party %d) where another release gives %s", Release(dealer_ref), ShowFlat(b).c_str(),
                  Show(x).c_str(), l, s.Describe().c_str(), who[i].second, ShowFlat(a).c_str());
        Flat sum = AddLeaves(t, b, other.At(theirs[who[i].first][1 - who[i].second], l, x)), want = DpfExpect(s, pairs[who[i].first], l, x);
        if (sum != want)
          Violate("release-sum", "shares at %s on level %d (levels %s) add up to %s instead of %s between releases", Show(x).c_str(), l, s.Describe().c_str(), ShowFlat(sum).c_str(),
                  ShowFlat(want).c_str());
      }
    State(Mix(Mix(dealer_ref, apply), s.logs.back()));
  }
}

SCENARIO(P28, comparisons, 3) {
  auto st = std::make_shared<Stream>(282);
  d::DcfParameters params;
  int log = Chance(1, 3) ? 1 + Draw(128) : 1 + Draw(20);
  const DpfType* t;
  do t = Types()[Draw(Types().size())];
  while (t->max_domain < log);
  params.mutable_parameters()->set_log_domain_size(log);
  *params.mutable_parameters()->mutable_value_type() = t->vt;
  ref::Cmp other(params.parameters());
  Node* node = NewNode("evaluator");
  node->simd = Draw(SimdTargets());
  NodeScope ns(node);
  auto dcf = d::DistributedComparisonFunction::Create(params);
  if (!dcf.ok()) Violate("dcf-create", "valid parameters refused (log %d, %s): %s", log, t->name.c_str(), dcf.status().ToString().c_str());
  bool dealer_ref = Chance(1, 2);
  U128 alpha = Draw(4) == 3 ? MaxOf(log) : Rand128(*st, log);
  Flat beta = RandomLeaves(*t, *st, Draw(4));
  d::DcfKey key[2], theirs[2];
  if (dealer_ref) {
    other.Gen(alpha, ref::MakeValue(t->vt, beta), *st, theirs);
    for (int b = 0; b < 2; b++)
      if (!key[b].ParseFromString(ref::Write(theirs[b]))) Violate("release-parse", "this release cannot parse a stored key");
  } else {
    auto k = t->DcfGen(**dcf, alpha, beta.data());
    if (!k.ok()) Violate("dcf-refused", "keys refused: %s", k.status().ToString().c_str());
    key[0] = k->first;
    key[1] = k->second;
    for (int b = 0; b < 2; b++) theirs[b] = ref::Read<d::DcfKey>(key[b].SerializeAsString());
  }
  Switched();
  int n = 1 + Draw(20);
  std::vector<U128> pts;
  std::vector<d::DcfKey> keys;
  for (int i = 0; i < n; i++) {
    keys.push_back(key[i % 2]);
    pts.push_back(i % 2 ? pts.back() : DrawPoint(*st, log, alpha));
  }
  absl::StatusOr<Flat> r = t->DcfBatch(**dcf, keys, Draw(3), pts);
  Log("log %d %s dealt by %s release, %d points: %s", log, t->name.c_str(), Release(dealer_ref), n, StatusStr(r.status()).c_str());
  if (!r.ok()) Violate("release-key-refused", "a comparison key dealt by the %s release is refused: %s", Release(dealer_ref), r.status().ToString().c_str());
  size_t nl = t->leaves.size();
  for (int i = 0; i < n; i++) {
    Flat a = other.At(theirs[i % 2], pts[i]), b = Slice(*r, i, nl);
    if (a != b)
      Violate("release-share", "a comparison key dealt by the %s release (log %d, %s) gives %s at %s where another release gives %s", Release(dealer_ref), log, t->name.c_str(),
              ShowFlat(b).c_str(), Show(pts[i]).c_str(), ShowFlat(a).c_str());
    Flat sum = AddLeaves(*t, b, other.At(theirs[1 - i % 2], pts[i])), want = pts[i] < alpha ? beta : Flat(nl, U128(0));
    if (sum != want)
      Violate("release-sum", "comparison shares at %s (log %d, %s, alpha %s) add up to %s instead of %s between releases", Show(pts[i]).c_str(), log, t->name.c_str(), Show(alpha).c_str(),
              ShowFlat(sum).c_str(), ShowFlat(want).c_str());
  }
  State(Mix(Mix(dealer_ref, 3), log));
}

SCENARIO(P28, interval_gates, 3) {
  auto st = std::make_shared<Stream>(283);
  g::MicParameters params;
  int log = Chance(1, 3) ? 1 + Draw(127) : 1 + Draw(16);
  params.set_log_group_size(log);
  std::vector<std::pair<U128, U128>> iv;
  for (int i = 1 + Draw(4); i > 0; i--) {
    U128 a = Rand128(*st, log), b = Rand128(*st, log);
    if (Chance(1, 4)) a = 0;
    if (Chance(1, 4)) b = MaxOf(log);
    if (a > b) std::swap(a, b);
    iv.emplace_back(a, b);
    auto* in = params.add_intervals();
    for (auto [m, v] : {std::make_pair(in->mutable_lower_bound(), a), std::make_pair(in->mutable_upper_bound(), b)}) {
      m->mutable_value_uint128()->set_high(absl::Uint128High64(v));
      m->mutable_value_uint128()->set_low(absl::Uint128Low64(v));
    }
  }
  ref::Mic other(params);
  Node* node = NewNode("evaluator");
  node->simd = Draw(SimdTargets());
  NodeScope ns(node);
  auto gate = g::MultipleIntervalContainmentGate::Create(params);
  if (!gate.ok()) Violate("mic-create", "valid parameters refused: %s", gate.status().ToString().c_str());
  bool dealer_ref = Chance(1, 2);
  U128 r_in = Rand128(*st, log);
  std::vector<U128> r_out;
  for (size_t i = 0; i < iv.size(); i++) r_out.push_back(Rand128(*st, log));
  g::MicKey key[2], theirs[2];
  if (dealer_ref) {
    other.Gen(r_in, r_out, *st, theirs);
    for (int b = 0; b < 2; b++)
      if (!key[b].ParseFromString(ref::Write(theirs[b]))) Violate("release-parse", "this release cannot parse a stored key");
  } else {
    auto k = (*gate)->Gen(r_in, r_out);
    if (!k.ok()) Violate("mic-refused", "Gen refused: %s", k.status().ToString().c_str());
    key[0] = k->first;
    key[1] = k->second;
    for (int b = 0; b < 2; b++) theirs[b] = ref::Read<g::MicKey>(key[b].SerializeAsString());
  }
  Switched();
  for (int i = 1 + Draw(8); i > 0; i--) {
    U128 x = Rand128(*st, log);
    if (st->Below(2)) {
      auto& in = iv[st->Below(iv.size())];
      x = ((st->Below(2) ? in.first : in.second) + r_in + st->Below(3) - 1) & MaxOf(log);
    }
    std::vector<U128> mine[2];
    for (int b = 0; b < 2; b++) {
      auto r = (*gate)->Eval(key[b], x);
      if (!r.ok()) Violate("release-key-refused", "a gate key dealt by the %s release is refused: %s", Release(dealer_ref), r.status().ToString().c_str());
      mine[b] = *r;
      auto a = other.Eval(theirs[b], x);
      if (mine[b] != a) Violate("release-share", "a gate key dealt by the %s release (2^%d, party %d) gives other shares at %s than another release", Release(dealer_ref), log, b, Show(x).c_str());
    }
    U128 real = (x - r_in) & MaxOf(log);
    for (size_t j = 0; j < iv.size(); j++) {
      U128 got = (mine[0][j] + mine[1][j] - r_out[j]) & MaxOf(log), want = iv[j].first <= real && real <= iv[j].second;
      if (got != want) Violate("release-sum", "interval %zu in 2^%d opens to %s instead of %s between releases", j, log, Show(got).c_str(), Show(want).c_str());
    }
  }
  State(Mix(Mix(dealer_ref, 4), log));
}

namespace {
PirResponse Reply(const std::string& bytes) {
  PirResponse r;
  if (!r.ParseFromString(bytes)) Violate("release-parse", "this release cannot parse a reply");
  return r;
}
}  // namespace

// A deployment whose client, Leader and Helper are upgraded and rolled back
// while requests are under way.
SCENARIO(P28, retrieval_fleet, 8) {
  auto st = std::make_shared<Stream>(284);
  Kind kind = (Kind)Draw(3);
  DataShape shape;
  shape.max_records = Chance(1, 4) ? 300 : 150;
  Node* setup_node = NewNode("operator");
  Dataset ds = MakeDataset(kind, 284, shape);
  Params params;
  {
    NodeScope ns(setup_node);
    params = MakeParams(ds);
  }
  HybridKey key{0x28};
  uint64_t nonce = 1;
  Node *cn = NewNode("client"), *ln = NewNode("leader"), *hn = NewNode("helper");
  for (Node* n : {cn, ln, hn}) n->simd = Draw(SimdTargets());
  bool c_ref = Chance(1, 2), l_ref = Chance(1, 2), h_ref = Chance(1, 2);
  if (kind == Kind::kCuckoo) h_ref = l_ref;  // the replicas' layouts must match; see the property
  ref::Client old_client{params, [&](const std::string& plain, const std::string& ctx) { return HybridEncrypt(key, nonce++, plain, ctx); }};
  ref::Server old_server;
  auto recs = ds.records;
  if (!old_server.Build(params, recs, *st)) EndRun();
  std::function<std::string(const std::string&)> helper;
  absl::StatusOr<std::unique_ptr<d::PirServer>> leader_srv = absl::InternalError(""), helper_srv = absl::InternalError("");
  absl::StatusOr<std::unique_ptr<AnyClient>> client = absl::InternalError("");
  auto boot = [&](Node* n) {
    NodeScope ns(n);
    ServerDeps deps;
    deps.sender = [&](const PirRequest& r, absl::AnyInvocable<void()> ww) -> absl::StatusOr<PirResponse> {
      ww();
      return Reply(helper(r.SerializeAsString()));
    };
    deps.decrypter = [&](absl::string_view c, absl::string_view ctx) { return HybridDecrypt(key, c, ctx); };
    if (n == cn) {
      client = MakeClient(params, [&](absl::string_view plain, absl::string_view ctx) -> absl::StatusOr<std::string> { return HybridEncrypt(key, nonce++, plain, ctx); });
      if (!client.ok()) Violate("release-client", "a client could not start: %s", client.status().ToString().c_str());
      return;
    }
    auto& srv = n == ln ? leader_srv : helper_srv;
    srv = MakeServer(params, recs, n == ln ? Role::kLeader : Role::kHelper, std::move(deps));
    if (!srv.ok()) Violate("release-server", "a server could not start on its records: %s", srv.status().ToString().c_str());
  };
  for (Node* n : {cn, ln, hn}) boot(n);
  helper = [&](const std::string& bytes) {
    NodeScope ns(hn);
    if (!h_ref) {
      PirRequest q;
      if (!q.ParseFromString(bytes)) Violate("release-parse", "the Helper cannot parse a request");
      auto r = (*helper_srv)->HandleRequest(q);
      if (!r.ok())
        Violate("release-helper-refused", "a Helper of this release refuses a request of the %s client forwarded by the %s Leader: %s", Release(c_ref), Release(l_ref), r.status().ToString().c_str());
      return r->SerializeAsString();
    }
    PirRequest q = ref::Read<PirRequest>(bytes);
    if (!q.dpf_pir_request().has_encrypted_helper_request()) Violate("release-request", "the Helper receives a request without an encrypted Helper request");
    auto plain = HybridDecrypt(key, q.dpf_pir_request().encrypted_helper_request().encrypted_request(), Ctx(kind));
    if (!plain.ok()) Violate("release-request", "another release's Helper cannot decrypt a request: %s", plain.status().ToString().c_str());
    return ref::Write(old_server.Helper(ref::Read<d::DpfPirRequest::HelperRequest>(*plain)));
  };
  auto lead = [&](const std::string& bytes) {
    NodeScope ns(ln);
    if (!l_ref) {
      PirRequest q;
      if (!q.ParseFromString(bytes)) Violate("release-parse", "the Leader cannot parse a request");
      auto r = (*leader_srv)->HandleRequest(q);
      if (!r.ok()) Violate("release-leader-refused", "a Leader of this release refuses a request: %s", r.status().ToString().c_str());
      return r->SerializeAsString();
    }
    PirRequest q = ref::Read<PirRequest>(bytes);
    if (!q.dpf_pir_request().has_leader_request()) Violate("release-request", "the Leader receives a request that is not for it");
    auto& lr = q.dpf_pir_request().leader_request();
    PirRequest fwd;
    *fwd.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = lr.encrypted_helper_request();
    PirResponse theirs = ref::Read<PirResponse>(helper(ref::Write(fwd)));
    return ref::Write(ref::Server::Combine(old_server.Plain(lr.plain_request()), theirs));
  };
  struct Pending {
    std::vector<std::string> q;
    std::string request, reply, state;
    bool c_ref, stage = false;
  };
  std::vector<Pending> open;
  int todo = 2 + Draw(8);
  while (todo > 0 || !open.empty()) {
    Span sp;
    if (Chance(1, 3)) {  // an upgrade or a rollback
      Switched();
      int who = Draw(3);
      Node*& n = who == 0 ? cn : who == 1 ? ln : hn;
      n = NewNode(n->name);
      n->simd = Draw(SimdTargets());
      if (who == 0) c_ref = !c_ref;
      else if (kind == Kind::kCuckoo) l_ref = h_ref = !l_ref;
      else if (who == 1) l_ref = !l_ref;
      else h_ref = !h_ref;
      boot(n);
      Log("releases now: client %s leader %s helper %s", Release(c_ref), Release(l_ref), Release(h_ref));
    }
    int pick = Draw(open.size() + (todo > 0 ? 1 : 0));
    if (pick == (int)open.size()) {
      todo--;
      Pending p;
      p.c_ref = c_ref;
      for (int i = 1 + Draw(3); i > 0; i--) p.q.push_back(kind == Kind::kDense || st->Below(3) ? ds.PresentQuery(*st) : ds.AbsentQuery(*st));
      NodeScope ns(cn);
      if (c_ref) {
        auto r = old_client.Create(p.q, *st);
        p.request = ref::Write(r.first);
        p.state = ref::Write(r.second);
      } else {
        auto r = (*client)->Create(p.q);
        if (!r.ok()) Violate("release-client", "a client cannot create a request: %s", r.status().ToString().c_str());
        p.request = r->first.SerializeAsString();
        p.state = r->second.SerializeAsString();
      }
      Log("request with %zu queries by the %s client", p.q.size(), Release(c_ref));
      open.push_back(p);
      continue;
    }
    Pending& p = open[pick];
    if (!p.stage) {
      p.reply = lead(p.request);
      p.stage = true;
      continue;
    }
    std::vector<absl::optional<std::string>> got;
    {
      NodeScope ns(cn);
      if (c_ref) {
        got = old_client.Handle(ref::Read<PirResponse>(p.reply), ref::Read<PirRequestClientState>(p.state));
      } else {
        PirRequestClientState state;
        if (!state.ParseFromString(p.state)) Violate("release-parse", "the client cannot parse its stored state");
        PirResponse resp = Reply(p.reply);
        auto r = (*client)->Handle(resp, state);
        if (!r.ok()) Violate("release-client", "a client of this release refuses a reply to a request of the %s client: %s", Release(p.c_ref), r.status().ToString().c_str());
        got = *r;
      }
    }
    if (got.size() != p.q.size()) Violate("release-response", "%zu results for %zu queries", got.size(), p.q.size());
    for (size_t i = 0; i < got.size(); i++) {
      auto want = ds.Expect(p.q[i]);
      if (got[i] != want)
        Violate("release-result", "%s query %s over mixed releases (request: %s client; now client %s, leader %s, helper %s) returned %s instead of %s", KindName(kind), Hex(p.q[i]).c_str(),
                Release(p.c_ref), Release(c_ref), Release(l_ref), Release(h_ref), got[i] ? Hex(*got[i]).c_str() : "nothing", want ? Hex(*want).c_str() : "nothing");
    }
    Count("probe:mixed-retrieval");
    State(Mix(Mix((int)kind, c_ref * 4 + l_ref * 2 + h_ref), Mix(p.c_ref, p.q.size())));
    open.erase(open.begin() + pick);
  }
}
}  // namespace sim
