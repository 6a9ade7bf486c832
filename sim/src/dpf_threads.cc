// P15: threads share one point function, comparison function or gate object.
#include <set>

#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dpf_world.h"
#include "pir_world.h"

namespace sim {
namespace {
namespace g = d::fss_gates;

// One call.  Its inputs are fixed before the threads start, its results are
// compared with those of the same call made alone.
struct Call {
  enum Kind { kAt, kUntil, kAtCtx, kApply, kGen, kCreate, kDcfEval, kDcfBatch, kDcfGen, kMicGen, kMicBatch, kKinds } kind;
  int party = 0;
  std::vector<int> levels;  // kUntil: visited in order, kAt*: one
  std::vector<std::vector<U128>> pts;
  std::vector<int> pair;  // per key
  U128 alpha = 0;
  std::vector<Flat> betas;
  int mode = 0;
  // Results.
  absl::Status status;
  std::vector<Flat> got;
  std::string ctx_after;
  std::string k0, k1;
};
const char* CallName(const Call& c) {
  static const char* n[] = {"EvaluateAt", "EvaluateUntil", "EvaluateAt(ctx)", "EvaluateAndApply", "GenerateKeysIncremental", "CreateIncremental",
                            "Dcf::Evaluate", "Dcf::BatchEvaluate", "Dcf::GenerateKeys", "Gate::Gen", "Gate::BatchEval"};
  return n[c.kind];
}
struct Shared {
  DpfSetup s;
  std::unique_ptr<d::DistributedPointFunction> dpf;
  std::vector<DpfPair> pairs;
  std::vector<d::DpfKey> keys[2];
  // Comparison function.
  int dlog = 0;
  const DpfType* dt = nullptr;
  d::DcfParameters dparams;
  std::unique_ptr<d::DistributedComparisonFunction> dcf;
  std::vector<std::pair<U128, Flat>> dwant;
  std::vector<d::DcfKey> dkeys[2];
  // Gate.
  int glog = 0;
  std::vector<std::pair<U128, U128>> iv;
  std::unique_ptr<g::MultipleIntervalContainmentGate> gate;
  std::vector<std::pair<U128, std::vector<U128>>> masks;
  std::vector<g::MicKey> gkeys[2];

  void Run(Call* c) {
    c->got.clear();
    switch (c->kind) {
      case Call::kAt: {
        int l = c->levels[0];
        auto r = s.types[l]->At(*dpf, keys[c->party][c->pair[0]], l, c->pts[0]);
        c->status = r.status();
        if (r.ok()) c->got.push_back(*r);
        return;
      }
      case Call::kUntil: case Call::kAtCtx: {
        auto ctx = dpf->CreateEvaluationContext(keys[c->party][c->pair[0]]);
        c->status = ctx.status();
        if (!ctx.ok()) return;
        for (size_t i = 0; i < c->levels.size(); i++) {
          int l = c->levels[i];
          bool at = c->kind == Call::kAtCtx && i + 1 == c->levels.size();
          auto r = at ? s.types[l]->AtCtx(*dpf, l, c->pts[i], *ctx) : s.types[l]->Until(*dpf, l, c->pts[i], *ctx);
          c->status = r.status();
          if (!r.ok()) return;
          c->got.push_back(*r);
        }
        c->ctx_after = ctx->SerializeAsString();
        return;
      }
      case Call::kApply: {
        std::vector<d::DpfKey> ks;
        for (int p : c->pair) ks.push_back(keys[c->party][p]);
        c->status = s.types[0]->Apply(*dpf, ks, c->mode & 1, c->pts[0], [&](const Flat& f) { c->got.push_back(f); return true; }, 0);
        return;
      }
      case Call::kGen: {
        std::vector<d::Value> v;
        for (int i = 0; i < s.levels(); i++) v.push_back(s.types[i]->MakeValue(c->betas[i].data()));
        Keep(c, dpf->GenerateKeysIncremental(c->alpha, absl::MakeConstSpan(v)));
        return;
      }
      case Call::kCreate: {
        auto r = d::DistributedPointFunction::CreateIncremental(s.params);
        c->status = r.status();
        if (!r.ok()) return;
        int l = c->levels[0];
        auto e = s.types[l]->At(**r, keys[c->party][c->pair[0]], l, c->pts[0]);
        c->status = e.status();
        if (e.ok()) c->got.push_back(*e);
        return;
      }
      case Call::kDcfEval: {
        auto r = dt->DcfEval(*dcf, dkeys[c->party][c->pair[0]], c->pts[0][0]);
        c->status = r.status();
        if (r.ok()) c->got.push_back(*r);
        return;
      }
      case Call::kDcfBatch: {
        std::vector<d::DcfKey> ks;
        for (int p : c->pair) ks.push_back(dkeys[c->party][p]);
        auto r = dt->DcfBatch(*dcf, ks, c->mode, c->pts[0]);
        c->status = r.status();
        if (r.ok()) c->got.push_back(*r);
        return;
      }
      case Call::kDcfGen: Keep(c, dcf->GenerateKeys(c->alpha, dt->MakeValue(c->betas[0].data()))); return;
      case Call::kMicGen: Keep(c, gate->Gen(c->alpha, c->betas[0])); return;
      case Call::kMicBatch: {
        std::vector<const g::MicKey*> ks;
        for (int p : c->pair) ks.push_back(&gkeys[c->party][p]);
        auto r = gate->BatchEval(absl::MakeConstSpan(ks), c->pts[0]);
        c->status = r.status();
        if (r.ok()) c->got.push_back(*r);
        return;
      }
      default: HarnessError("call");
    }
  }
  template <class K>
  static void Keep(Call* c, const absl::StatusOr<std::pair<K, K>>& k) {
    c->status = k.status();
    if (!k.ok()) return;
    c->k0 = k->first.SerializeAsString();
    c->k1 = k->second.SerializeAsString();
  }
  // Threads give the call's evaluation, alone the reference.
  void CheckGen(Call* c, std::set<std::string>* seeds, Stream& st) {
    auto fresh = [&](const d::DpfKey& k) {
      if (k.seed().high() == 0 && k.seed().low() == 0) Violate("mt-seed", "a generated key has an all-zero seed");
      if (!seeds->insert(k.seed().SerializeAsString()).second) Violate("mt-seed", "two generated keys carry the same seed");
    };
    if (c->kind == Call::kGen) {
      d::DpfKey k[2] = {LoadKey(c->k0), LoadKey(c->k1)};
      for (int l = 0; l < s.levels(); l++) {
        U128 hot = Shr(c->alpha, s.logs.back() - s.logs[l]);
        std::vector<U128> x = {hot, DrawPoint(st, s.logs[l], hot), DrawPoint(st, s.logs[l], hot)};
        auto a = s.types[l]->At(*dpf, k[0], l, x), b = s.types[l]->At(*dpf, k[1], l, x);
        if (!a.ok() || !b.ok()) Violate("mt-gen", "a key generated next to other calls is refused: %s", (a.ok() ? b : a).status().ToString().c_str());
        size_t nl = s.types[l]->leaves.size();
        for (int i = 0; i < 3; i++) {
          Flat sum = AddLeaves(*s.types[l], Slice(*a, i, nl), Slice(*b, i, nl));
          if (sum != (x[i] == hot ? c->betas[l] : Flat(nl, U128(0))))
            Violate("mt-gen", "keys generated next to other calls open to %s at %s on level %d (alpha %s, levels %s)", ShowFlat(sum).c_str(),
                    Show(x[i]).c_str(), l, Show(c->alpha).c_str(), s.Describe().c_str());
        }
      }
      fresh(k[0]), fresh(k[1]);
    } else if (c->kind == Call::kDcfGen) {
      d::DcfKey k[2];
      SIM_ASSERT(k[0].ParseFromString(c->k0) && k[1].ParseFromString(c->k1));
      for (U128 x : {c->alpha, (c->alpha - 1) & MaxOf(dlog), U128(0), MaxOf(dlog), DrawPoint(st, dlog, c->alpha)}) {
        auto a = dt->DcfEval(*dcf, k[0], x), b = dt->DcfEval(*dcf, k[1], x);
        if (!a.ok() || !b.ok()) Violate("mt-gen", "a comparison key generated next to other calls is refused");
        Flat sum = AddLeaves(*dt, *a, *b);
        if (sum != (x < c->alpha ? c->betas[0] : Flat(dt->leaves.size(), U128(0))))
          Violate("mt-gen", "comparison keys generated next to other calls open to %s at %s (alpha %s)", ShowFlat(sum).c_str(), Show(x).c_str(), Show(c->alpha).c_str());
      }
      fresh(k[0].key()), fresh(k[1].key());
    } else if (c->kind == Call::kMicGen) {
      g::MicKey k[2];
      SIM_ASSERT(k[0].ParseFromString(c->k0) && k[1].ParseFromString(c->k1));
      for (U128 real : {iv[0].first, iv[0].second, (iv[0].second + 1) & MaxOf(glog), Rand128(st, glog)}) {
        U128 x = (real + c->alpha) & MaxOf(glog);
        auto a = gate->Eval(k[0], x), b = gate->Eval(k[1], x);
        if (!a.ok() || !b.ok()) Violate("mt-gen", "a gate key generated next to other calls is refused");
        for (size_t j = 0; j < iv.size(); j++) {
          U128 got = ((*a)[j] + (*b)[j] - c->betas[0][j]) & MaxOf(glog), want = iv[j].first <= real && real <= iv[j].second ? 1 : 0;
          if (got != want) Violate("mt-gen", "a gate key generated next to other calls opens to %s instead of %s", Show(got).c_str(), Show(want).c_str());
        }
      }
      fresh(k[0].dcfkey().key()), fresh(k[1].dcfkey().key());
    }
  }
};
Call DrawCall(Shared* w, Stream& st, int families) {
  Call c;
  for (;;) {
    c.kind = (Call::Kind)Draw(Call::kKinds);
    if (c.kind <= Call::kCreate ? families & 1 : c.kind <= Call::kDcfGen ? families & 2 : families & 4) break;
  }
  c.party = Draw(2);
  int n = w->s.levels();
  switch (c.kind) {
    case Call::kAt: case Call::kCreate: {
      int l = Draw(n), p = Draw(w->pairs.size());
      c.levels = {l};
      c.pair = {p};
      c.pts.emplace_back();
      for (int i = 0, k = 1 + Draw(6); i < k; i++)
        c.pts[0].push_back(DrawPoint(st, w->s.logs[l], Shr(w->pairs[p].alpha, w->s.logs.back() - w->s.logs[l])));
      break;
    }
    case Call::kUntil: case Call::kAtCtx: {
      // A path through some levels, keeping few prefixes.
      int p = Draw(w->pairs.size());
      c.pair = {p};
      int l = -1;
      std::vector<U128> prev;
      for (int steps = 1 + Draw(3); steps > 0 && l + 1 < n; steps--) {
        int nl = l + 1 + Draw(std::min(n - l - 1, 2));
        int log = w->s.logs[nl], from = l < 0 ? 0 : w->s.logs[l];
        std::vector<U128> pre;
        if (l >= 0) {
          if (log - from > 7) break;
          std::set<U128> choose = {Shr(w->pairs[p].alpha, w->s.logs.back() - from)};
          if (!prev.empty()) choose.insert(prev[st.Below(prev.size())]);
          if (!prev.empty())
            for (U128 x : std::set<U128>(choose))
              if (std::find(prev.begin(), prev.end(), x) == prev.end()) choose.erase(x);
          pre.assign(choose.begin(), choose.end());
        } else if (log > 7) {
          break;
        }
        if (l >= 0 && pre.empty()) break;
        std::vector<U128> out;
        if (l < 0)
          for (U128 x = 0; x < Pow2(log); x++) out.push_back(x);
        for (U128 q : pre)
          for (U128 x = 0; x < Pow2(log - from); x++) out.push_back(Shl(q, log - from) | x);
        c.levels.push_back(nl);
        c.pts.push_back(pre);
        prev = out;
        l = nl;
      }
      if (c.levels.empty()) {  // domain too large to expand: points only
        c.kind = Call::kAtCtx;
        c.levels.push_back(Draw(n));
        c.pts.emplace_back();
        for (int i = 0, k = 1 + Draw(5); i < k; i++) c.pts[0].push_back(DrawPoint(st, w->s.logs[c.levels[0]], Shr(w->pairs[p].alpha, w->s.logs.back() - w->s.logs[c.levels[0]])));
        break;
      }
      if (c.kind == Call::kAtCtx && l + 1 < n && !prev.empty()) {
        int nl = l + 1 + Draw(n - l - 1);
        c.levels.push_back(nl);
        c.pts.emplace_back();
        for (int i = 0, k = 1 + Draw(5); i < k; i++) {
          U128 q = prev[st.Below(prev.size())];
          int up = w->s.logs[nl] - w->s.logs[l];
          c.pts.back().push_back(Shl(q, up) | (up ? Rand128(st, up) : U128(0)));
        }
      } else {
        c.kind = Call::kUntil;
      }
      break;
    }
    case Call::kApply: {
      for (auto* t : w->s.types)
        if (t != w->s.types[0]) {  // one value type only
          c.kind = Call::kGen;
          break;
        }
      if (c.kind == Call::kApply) {
        c.mode = Draw(2);
        c.pts.emplace_back();
        for (int i = 0, k = 1 + Draw(8); i < k; i++) {
          c.pair.push_back(Draw(w->pairs.size()));
          c.pts[0].push_back(DrawPoint(st, w->s.logs.back(), w->pairs[c.pair[i]].alpha));
        }
        break;
      }
    }
    [[fallthrough]];
    case Call::kGen:
      c.alpha = w->s.logs.back() ? Rand128(st, w->s.logs.back()) : U128(0);
      for (auto* t : w->s.types) c.betas.push_back(RandomLeaves(*t, st, 0));
      break;
    case Call::kDcfEval: case Call::kDcfBatch: {
      c.pts.emplace_back();
      c.mode = Draw(3);
      for (int i = 0, k = c.kind == Call::kDcfEval ? 1 : 1 + Draw(6); i < k; i++) {
        c.pair.push_back(Draw(w->dwant.size()));
        c.pts[0].push_back(DrawPoint(st, w->dlog, w->dwant[c.pair[i]].first));
      }
      break;
    }
    case Call::kDcfGen:
      c.alpha = Rand128(st, w->dlog);
      c.betas.push_back(RandomLeaves(*w->dt, st, 0));
      break;
    case Call::kMicGen:
      c.alpha = Rand128(st, w->glog);
      c.betas.emplace_back();
      for (size_t i = 0; i < w->iv.size(); i++) c.betas[0].push_back(Rand128(st, w->glog));
      break;
    case Call::kMicBatch:
      c.pts.emplace_back();
      for (int i = 0, k = 1 + Draw(4); i < k; i++) {
        c.pair.push_back(Draw(w->masks.size()));
        c.pts[0].push_back(DrawPoint(st, w->glog, (w->iv[0].first + w->masks[c.pair[i]].first) & MaxOf(w->glog)));
      }
      break;
    default: break;
  }
  return c;
}
}  // namespace

SCENARIO(P15, threads, 1, true) {
  auto w = std::make_unique<Shared>();
  Stream st(15);
  Node* node = NewNode("host");
  node->simd = Draw(SimdTargets());
  int families = 1 + Draw(7);
  {
    NodeScope ns(node);
    if (families & 1) {
      DpfOpts o;
      o.max_levels = 4;
      o.max_log = Draw(3) ? 10 : 128;
      o.same_type = Draw(2);
      w->s = DrawDpfSetup(o);
      while (w->s.levels() > 12) w->s.logs.pop_back(), w->s.types.pop_back(), w->s.params.pop_back();
      w->dpf = OpenDpf(w->s, true);
      for (int i = 0, n = 1 + Draw(2); i < n; i++) {
        w->pairs.push_back(DealDpf(w->s, w->dpf.get(), st));
        for (int b = 0; b < 2; b++) w->keys[b].push_back(LoadKey(w->pairs[i].key[b]));
      }
      Log("point function, levels %s", w->s.Describe().c_str());
    }
    if (families & 2) {
      w->dlog = Draw(3) ? 1 + Draw(10) : 1 + Draw(64);
      do w->dt = Types()[Draw(Types().size())];
      while (w->dt->max_domain < w->dlog);
      w->dparams.mutable_parameters()->set_log_domain_size(w->dlog);
      *w->dparams.mutable_parameters()->mutable_value_type() = w->dt->vt;
      auto r = d::DistributedComparisonFunction::Create(w->dparams);
      if (!r.ok()) Violate("dcf-create", "%s", r.status().ToString().c_str());
      w->dcf = std::move(*r);
      for (int i = 0, n = 1 + Draw(2); i < n; i++) {
        w->dwant.emplace_back(Rand128(st, w->dlog), RandomLeaves(*w->dt, st, 0));
        auto k = w->dt->DcfGen(*w->dcf, w->dwant[i].first, w->dwant[i].second.data());
        if (!k.ok()) Violate("dcf-gen", "%s", k.status().ToString().c_str());
        w->dkeys[0].push_back(k->first);
        w->dkeys[1].push_back(k->second);
      }
      Log("comparison function, log %d %s", w->dlog, w->dt->name.c_str());
    }
    if (families & 4) {
      w->glog = Draw(3) ? 1 + Draw(10) : 1 + Draw(64);
      g::MicParameters p;
      p.set_log_group_size(w->glog);
      for (int i = 0, n = 1 + Draw(2); i < n; i++) {
        U128 a = Rand128(st, w->glog), b = Rand128(st, w->glog);
        if (a > b) std::swap(a, b);
        w->iv.emplace_back(a, b);
        auto* in = p.add_intervals();
        for (auto [v, x] : {std::make_pair(in->mutable_lower_bound(), a), std::make_pair(in->mutable_upper_bound(), b)}) {
          v->mutable_value_uint128()->set_high(absl::Uint128High64(x));
          v->mutable_value_uint128()->set_low(absl::Uint128Low64(x));
        }
      }
      auto r = g::MultipleIntervalContainmentGate::Create(p);
      if (!r.ok()) Violate("mic-create", "%s", r.status().ToString().c_str());
      w->gate = std::move(*r);
      for (int i = 0, n = 1 + Draw(2); i < n; i++) {
        std::vector<U128> out;
        for (size_t j = 0; j < w->iv.size(); j++) out.push_back(Rand128(st, w->glog));
        w->masks.emplace_back(Rand128(st, w->glog), out);
        auto k = w->gate->Gen(w->masks[i].first, out);
        if (!k.ok()) Violate("mic-gen", "%s", k.status().ToString().c_str());
        w->gkeys[0].push_back(k->first);
        w->gkeys[1].push_back(k->second);
      }
      Log("gate, log %d intervals %zu", w->glog, w->iv.size());
    }
  }
  int threads = 2 + Draw(3);
  std::vector<std::vector<Call>> calls(threads);
  bool same = Chance(1, 3);  // all threads make the same calls
  for (int t = 0; t < threads; t++) {
    int n = 1 + Draw(3);
    if (same && t) {
      calls[t] = calls[0];
    } else {
      for (int i = 0; i < n; i++) {
        Span sp;
        calls[t].push_back(DrawCall(w.get(), st, families));
      }
    }
  }
  NonTrivial();
  node->rng_yields = Draw(2);
  DrawPreempt();
  for (int t = 0; t < threads; t++)
    Spawn("thread" + std::to_string(t), node, [&, t] {
      for (auto& c : calls[t]) {
        w->Run(&c);
        { NoPreempt np; Log("thread%d %s: %s", t, CallName(c), StatusStr(c.status).c_str()); }
        Yield();
      }
    });
  RunAll();
  SetPreempt(Preempt());
  node->rng_yields = false;
  NodeScope ns(node);
  std::set<std::string> seeds;
  for (int t = 0; t < threads; t++)
    for (auto& c : calls[t]) {
      State(Mix(c.kind, threads));
      if (!c.status.ok()) Violate("mt-status", "%s failed next to other calls: %s", CallName(c), c.status.ToString().c_str());
      if (c.kind == Call::kGen || c.kind == Call::kDcfGen || c.kind == Call::kMicGen) {
        w->CheckGen(&c, &seeds, st);
        continue;
      }
      Call alone = c;
      w->Run(&alone);
      if (!alone.status.ok()) Violate("mt-status", "%s fails alone after it was called next to others: %s", CallName(c), alone.status.ToString().c_str());
      if (alone.got != c.got) Violate("mt-result", "%s gave another result next to other calls than alone (levels %s)", CallName(c), w->s.Describe().c_str());
      if (alone.ctx_after != c.ctx_after) Violate("mt-context", "%s left another context next to other calls than alone", CallName(c));
      // And with the other party's, by definition.
      Call other = c;
      other.party = 1 - c.party;
      w->Run(&other);
      if (!other.status.ok()) Violate("mt-status", "%s: %s", CallName(c), other.status.ToString().c_str());
      if (c.kind == Call::kDcfEval || c.kind == Call::kDcfBatch) {
        size_t nl = w->dt->leaves.size();
        for (size_t i = 0; i < c.pts[0].size(); i++) {
          auto& [alpha, beta] = w->dwant[c.pair[i]];
          if (AddLeaves(*w->dt, Slice(c.got[0], i, nl), Slice(other.got[0], i, nl)) != (c.pts[0][i] < alpha ? beta : Flat(nl, U128(0))))
            Violate("mt-sum", "%s: shares do not open to the comparison", CallName(c));
        }
      } else if (c.kind == Call::kMicBatch) {
        size_t ni = w->iv.size();
        for (size_t i = 0; i < c.pts[0].size(); i++)
          for (size_t j = 0; j < ni; j++) {
            auto& m = w->masks[c.pair[i]];
            U128 real = (c.pts[0][i] - m.first) & MaxOf(w->glog);
            U128 got = (c.got[0][i * ni + j] + other.got[0][i * ni + j] - m.second[j]) & MaxOf(w->glog);
            if (got != (w->iv[j].first <= real && real <= w->iv[j].second ? 1 : 0)) Violate("mt-sum", "%s: shares do not open to the containment bit", CallName(c));
          }
      } else if (c.kind == Call::kAt || c.kind == Call::kCreate) {
        int l = c.levels[0];
        size_t nl = w->s.types[l]->leaves.size();
        for (size_t i = 0; i < c.pts[0].size(); i++)
          if (AddLeaves(*w->s.types[l], Slice(c.got[0], i, nl), Slice(other.got[0], i, nl)) != DpfExpect(w->s, w->pairs[c.pair[0]], l, c.pts[0][i]))
            Violate("mt-sum", "%s: shares do not open to the point function", CallName(c));
      } else {
        // Until/Apply: every level's outputs add up to at most one programmed value per key.
        for (size_t q = 0; q < c.got.size(); q++) {
          int l = c.kind == Call::kApply ? (int)q : c.levels[q];
          size_t nl = w->s.types[l]->leaves.size();
          for (size_t i = 0; i * nl < c.got[q].size(); i++) {
            Flat sum = AddLeaves(*w->s.types[l], Slice(c.got[q], i, nl), Slice(other.got[q], i, nl));
            const DpfPair& p = w->pairs[c.kind == Call::kApply ? c.pair[i] : c.pair[0]];
            if (sum != p.betas[l] && sum != Flat(nl, U128(0))) Violate("mt-sum", "%s: shares add up to neither the programmed value nor zero", CallName(c));
          }
        }
      }
    }
}
}  // namespace sim
