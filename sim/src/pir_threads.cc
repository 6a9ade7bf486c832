// P14: threads share PIR servers, databases and clients.
#include <set>

#include "pir_world.h"

namespace sim {
namespace {
struct Fixed {  // a request prepared before the threads start
  std::vector<std::string> q;
  PirRequest to_leader, to_helper, to_plain;
  PirRequestClientState state;
};
struct Call {
  enum Kind { kRoundTrip, kPlain, kLeader, kHelper, kBad, kHandle, kParams, kOwnServer, kKinds } kind;
  int req = 0;
  int target = 0;  // kBad: which server
  std::vector<std::string> q;
  PirRequest bad;
  absl::Status status;
  std::string got;
};
const char* CallName(const Call& c) {
  static const char* n[] = {"round trip", "plain request", "Leader request", "Helper request", "bad request", "HandleResponse", "GetPublicParams", "own server"};
  return n[c.kind];
}
struct Shared {
  Kind kind;
  Dataset ds;
  Params params;
  HybridKey key{0x77};
  uint64_t nonce = 1;
  std::unique_ptr<d::PirServer> leader, helper, plain;
  std::unique_ptr<AnyClient> client;
  std::vector<Fixed> fixed;
  std::vector<PirResponse> answers;  // for kHandle, computed by the reference
  std::vector<std::string> plaintexts;  // what clients encrypted
  int sender_style = 0;

  static void Answer(Call* c, const absl::StatusOr<PirResponse>& r) {
    c->status = r.status();
    if (r.ok()) c->got = r->SerializeAsString();
  }
  void Run(Call* c, bool threaded) {
    c->got.clear();
    switch (c->kind) {
      case Call::kRoundTrip: {
        auto r = client->Create(c->q);
        c->status = r.status();
        if (!r.ok()) return;
        auto a = leader->HandleRequest(r->first);
        c->status = a.status();
        if (!a.ok()) return;
        auto v = client->Handle(*a, r->second);
        c->status = v.status();
        if (!v.ok()) return;
        NoPreempt np;
        if (v->size() != c->q.size()) Violate("mt-answer", "%zu answers for %zu queries", v->size(), c->q.size());
        for (size_t i = 0; i < c->q.size(); i++)
          if ((*v)[i] != ds.Expect(c->q[i]))
            Violate("mt-answer", "%s: query %s answered with %s next to other calls", KindName(kind), Hex(c->q[i]).c_str(), (*v)[i] ? Hex(*(*v)[i]).c_str() : "nothing");
        return;
      }
      case Call::kPlain: Answer(c, plain->HandleRequest(fixed[c->req].to_plain)); return;
      case Call::kLeader: Answer(c, leader->HandleRequest(fixed[c->req].to_leader)); return;
      case Call::kHelper: Answer(c, helper->HandleRequest(fixed[c->req].to_helper)); return;
      case Call::kBad: Answer(c, (c->target == 0 ? plain : c->target == 1 ? leader : helper)->HandleRequest(c->bad)); return;
      case Call::kHandle: {
        auto v = client->Handle(answers[c->req], fixed[c->req].state);
        c->status = v.status();
        if (!v.ok()) return;
        for (auto& x : *v) c->got += x ? "1" + std::to_string(x->size()) + ":" + *x : "0";
        return;
      }
      case Call::kParams: {
        for (auto* s : {&leader, &helper, &plain}) c->got += (*s)->GetPublicParams().SerializeAsString();
        return;
      }
      case Call::kOwnServer: {
        auto s = MakeServer(params, ds.records, Role::kPlain, {});
        c->status = s.status();
        if (s.ok()) Answer(c, (*s)->HandleRequest(fixed[c->req].to_plain));
        return;
      }
      default: HarnessError("call");
    }
  }
};
}  // namespace

SCENARIO(P14, threads, 1, true) {
  auto w = std::make_unique<Shared>();
  Stream st(14);
  w->kind = (Kind)Draw(3);
  DataShape sh;
  sh.max_records = Draw(3) ? 24 : 140;
  sh.max_value = Draw(2) ? 12 : 60;
  w->ds = MakeDataset(w->kind, Draw(1 << 16), sh);
  Node* node = NewNode("host");
  node->simd = Draw(SimdTargets());
  {
    NodeScope ns(node);
    w->params = MakeParams(w->ds);
    auto open = [&](Role role) {
      ServerDeps deps;
      Shared* p = w.get();
      deps.sender = [p](const PirRequest& r, absl::AnyInvocable<void()> ww) -> absl::StatusOr<PirResponse> {
        bool early = p->sender_style == 0;
        if (early) ww();
        if (CurTask() >= 0) Yield();
        auto a = p->helper->HandleRequest(r);
        if (CurTask() >= 0) Yield();
        if (!early) ww();
        return a;
      };
      deps.decrypter = [p](absl::string_view c, absl::string_view ctx) {
        NoPreempt np;
        return HybridDecrypt(p->key, c, ctx);
      };
      auto r = MakeServer(w->params, w->ds.records, role, std::move(deps));
      if (!r.ok()) Violate("server-start", "%s", r.status().ToString().c_str());
      return std::move(*r);
    };
    w->sender_style = Draw(2);
    w->leader = open(Role::kLeader);
    w->helper = open(Role::kHelper);
    w->plain = open(Role::kPlain);
    Shared* p = w.get();
    auto c = MakeClient(w->params, [p](absl::string_view plain, absl::string_view ctx) -> absl::StatusOr<std::string> {
      NoPreempt np;
      p->plaintexts.emplace_back(plain);
      return HybridEncrypt(p->key, p->nonce++, plain, ctx);
    });
    if (!c.ok()) Violate("client-create", "%s", c.status().ToString().c_str());
    w->client = std::move(*c);
  }
  auto draw_q = [&] {
    std::vector<std::string> q;
    for (int i = 0, n = 1 + Draw(3); i < n; i++) q.push_back(w->kind != Kind::kDense && Chance(1, 3) ? w->ds.AbsentQuery(st) : w->ds.PresentQuery(st));
    return q;
  };
  int nfixed = Draw(3);
  for (int i = 0; i < nfixed; i++) {
    NodeScope ns(node);
    w->fixed.emplace_back();
    auto& f = w->fixed.back();
    f.q = draw_q();
    auto r = w->client->Create(f.q);
    if (!r.ok()) Violate("request-rejected", "%s", r.status().ToString().c_str());
    f.to_leader = r->first;
    f.state = r->second;
    *f.to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = f.to_leader.dpf_pir_request().leader_request().encrypted_helper_request();
    *f.to_plain.mutable_dpf_pir_request()->mutable_plain_request() = f.to_leader.dpf_pir_request().leader_request().plain_request();
  }
  // In half the runs the single-threaded reference comes first, otherwise the
  // threads are the first to use the process.
  bool solo_first = Draw(2);
  auto reference = [&] {
    NodeScope ns(node);
    for (auto& f : w->fixed) {
      auto a = w->leader->HandleRequest(f.to_leader);
      if (!a.ok()) Violate("mt-status", "a valid request failed alone: %s", a.status().ToString().c_str());
      w->answers.push_back(*a);
    }
  };
  if (solo_first) reference();
  int threads = 2 + Draw(3);
  std::vector<std::vector<Call>> calls(threads);
  bool same = Chance(1, 3);
  for (int t = 0; t < threads; t++) {
    if (same && t) {
      calls[t] = calls[0];
      continue;
    }
    for (int i = 0, n = 1 + Draw(3); i < n; i++) {
      Span sp;
      Call c;
      do c.kind = (Call::Kind)Draw(Call::kKinds);
      while ((c.kind != Call::kRoundTrip && c.kind != Call::kParams && !nfixed) || (c.kind == Call::kHandle && !solo_first));
      if (nfixed) c.req = Draw(nfixed);
      c.q = draw_q();
      if (c.kind == Call::kBad) {
        c.target = Draw(3);
        auto& f = w->fixed[c.req];
        const PirRequest& good = c.target == 0 ? f.to_plain : c.target == 1 ? f.to_leader : f.to_helper;
        c.bad = good;
        auto* dr = c.bad.mutable_dpf_pir_request();
        switch (Draw(4)) {
          case 0: c.bad.Clear(); break;
          case 1: c.bad = c.target == 0 ? f.to_helper : f.to_plain; break;
          case 2:
            if (c.target == 2) dr->mutable_encrypted_helper_request()->mutable_encrypted_request()->push_back('x');
            else if (c.target == 1) dr->mutable_leader_request()->clear_plain_request();
            else dr->mutable_plain_request()->clear_dpf_key();
            break;
          case 3:
            if (c.target == 1) dr->mutable_leader_request()->mutable_encrypted_helper_request()->mutable_encrypted_request()->resize(3);
            else dr->Clear();
            break;
        }
      }
      calls[t].push_back(c);
    }
  }
  NonTrivial();
  node->rng_yields = Draw(2);
  Log("%s, %zu records, %d threads, %d fixed requests, reference %s", KindName(w->kind), w->ds.records.size(), threads, nfixed, solo_first ? "first" : "last");
  DrawPreempt();
  for (int t = 0; t < threads; t++)
    Spawn("thread" + std::to_string(t), node, [&, t] {
      for (auto& c : calls[t]) {
        w->Run(&c, true);
        { NoPreempt np; Log("thread%d %s: %s", t, CallName(c), StatusStr(c.status).c_str()); }
        Yield();
      }
    });
  RunAll();
  SetPreempt(Preempt());
  node->rng_yields = false;
  if (!solo_first) reference();
  NodeScope ns(node);
  for (int t = 0; t < threads; t++)
    for (auto& c : calls[t]) {
      State(Mix(Mix(c.kind, threads), (int)w->kind));
      if (c.kind == Call::kRoundTrip) {
        if (!c.status.ok()) Violate("mt-status", "%s: a valid request failed next to other calls: %s", KindName(w->kind), c.status.ToString().c_str());
        continue;
      }
      Call alone = c;
      w->Run(&alone, false);
      if (alone.status != c.status)
        Violate("mt-status", "%s %s: %s next to other calls, %s alone", KindName(w->kind), CallName(c), c.status.ToString().c_str(), alone.status.ToString().c_str());
      if (alone.got != c.got) Violate("mt-result", "%s %s returned something else next to other calls than alone", KindName(w->kind), CallName(c));
      if (c.kind != Call::kBad && !c.status.ok()) Violate("mt-status", "%s %s failed: %s", KindName(w->kind), CallName(c), c.status.ToString().c_str());
      if (c.kind == Call::kBad && c.status.ok()) Violate("mt-status", "a malformed request was answered");
    }
  for (int i = 0; i < nfixed; i++) {
    auto v = w->client->Handle(w->answers[i], w->fixed[i].state);
    if (!v.ok()) Violate("mt-answer", "%s", v.status().ToString().c_str());
    for (size_t k = 0; k < v->size(); k++)
      if ((*v)[k] != w->ds.Expect(w->fixed[i].q[k])) Violate("mt-answer", "%s: query %s answered wrongly", KindName(w->kind), Hex(w->fixed[i].q[k]).c_str());
  }
  // Secrets drawn by racing clients are never shared.
  std::set<std::string> pads, seeds;
  for (auto& p : w->plaintexts) {
    d::DpfPirRequest::HelperRequest h;
    if (!h.ParseFromString(p)) Violate("mt-request", "a client encrypted something that is not a Helper request");
    if (!pads.insert(h.one_time_pad_seed()).second) Violate("mt-secret", "two requests carry the same pad seed");
    for (auto& k : h.plain_request().dpf_key())
      if (!seeds.insert(k.seed().SerializeAsString()).second) Violate("mt-secret", "two keys carry the same seed");
  }
}
}  // namespace sim
