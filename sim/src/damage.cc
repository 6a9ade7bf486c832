// P20: whatever is reloaded as a key, context or parameters, nothing crashes.
#include <algorithm>
#include <memory>

#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dpf_world.h"
#include "mutate.h"
#include "pir_world.h"

namespace sim {
namespace {
namespace g = d::fss_gates;
constexpr int kMaxExpand = 11;

struct DamageWorld {
  Node* node;
  Stream st{20};
  DpfSetup s;
  std::unique_ptr<d::DistributedPointFunction> dpf;
  DpfPair pair;
  std::vector<std::string> keys, ctxs, params;
  // Baseline of the undamaged objects.
  int blevel;
  std::vector<U128> bpts;
  Flat base[2];

  DpfSetup Other() const {  // donors come from a deployment with other parameters
    DpfOpts o;
    o.max_log = 20;
    DpfSetup t = DrawDpfSetup(o);
    return t;
  }
  void Size(const absl::StatusOr<Flat>& r, size_t want, const char* what) {
    Log("%s: %s", what, r.ok() ? "ok" : StatusStr(r.status()).c_str());
    Count(r.ok() ? "probe:evaluated" : "probe:refused");
    if (r.ok() && r->size() != want) Violate("damage-size", "%s on damaged input returned %zu values instead of %zu", what, r->size(), want);
    State(Mix(HashStr(what), r.ok() ? 0 : (int)r.status().code()));
  }
  std::vector<U128> Points(int log) {
    std::vector<U128> p;
    for (int i = 0, k = Draw(8) == 7 ? DrawCount(100) : 1 + Draw(6); i < k; i++) p.push_back(DrawPoint(st, log, Rand128(st, log)));
    return p;
  }
  void Alone() {
    for (int b = 0; b < 2; b++) {
      auto r = s.types[blevel]->At(*dpf, LoadKey(pair.key[b]), blevel, bpts);
      if (!r.ok()) Violate("damage-after", "an undamaged key is refused after a damaged one was handled: %s", r.status().ToString().c_str());
      if (base[b].empty()) base[b] = *r;
      if (base[b] != *r) Violate("damage-after", "an undamaged key evaluates differently after a damaged one was handled");
    }
    size_t nl = s.types[blevel]->leaves.size();
    for (size_t i = 0; i < bpts.size(); i++)
      if (AddLeaves(*s.types[blevel], Slice(base[0], i, nl), Slice(base[1], i, nl)) != DpfExpect(s, pair, blevel, bpts[i]))
        Violate("damage-after", "undamaged keys do not open to the point function");
  }
};
// Exercises every path with one key that may be damaged.
void UseKey(DamageWorld* w, const d::DistributedPointFunction& dpf, const DpfSetup& s, const d::DpfKey& key) {
  int n = s.levels();
  for (int k = 1 + Draw(3); k > 0; k--) {
    int l = Draw(n);
    const DpfType& t = *s.types[l];
    size_t nl = t.leaves.size();
    CallFault af(w->node, Chance(1, 20));
    switch (Draw(4)) {
      case 0: {
        auto p = w->Points(s.logs[l]);
        w->Size(t.At(dpf, key, l, p), p.size() * nl, "EvaluateAt");
        break;
      }
      case 1: {
        auto ctx = dpf.CreateEvaluationContext(key);
        Log("CreateEvaluationContext: %s", StatusStr(ctx.status()).c_str());
        if (!ctx.ok()) break;
        if (Draw(2)) {
          if (s.logs[l] <= kMaxExpand) w->Size(t.Until(dpf, l, {}, *ctx), nl << s.logs[l], "EvaluateUntil");
        } else {
          auto p = w->Points(s.logs[l]);
          w->Size(t.AtCtx(dpf, l, p, *ctx), p.size() * nl, "EvaluateAt(ctx)");
        }
        break;
      }
      default: {
        // In a batch with undamaged keys.
        std::vector<d::DpfKey> ks;
        std::vector<U128> p;
        int at = Draw(3), cnt = at + 1 + Draw(70);
        for (int i = 0; i < cnt; i++) {
          ks.push_back(i == at ? key : LoadKey(w->pair.key[i & 1]));
          p.push_back(DrawPoint(w->st, s.logs.back(), 0));
        }
        size_t want = cnt * s.types[0]->leaves.size(), calls = 0;
        auto r = s.types[0]->Apply(dpf, ks, Draw(2), p, [&](const Flat& f) {
          if (f.size() != want) Violate("damage-size", "EvaluateAndApply passed %zu values instead of %zu", f.size(), want);
          calls++;
          return true;
        }, 0);
        Log("EvaluateAndApply: %s after %zu levels", StatusStr(r).c_str(), calls);
        Count(r.ok() ? "probe:evaluated" : "probe:refused");
        if (r.ok() && calls != (size_t)n) Violate("damage-size", "EvaluateAndApply visited %zu of %d levels", calls, n);
        break;
      }
    }
  }
}
// Exercises a context that may be damaged.
void UseContext(DamageWorld* w, d::EvaluationContext ctx) {
  const DpfSetup& s = w->s;
  int n = s.levels();
  for (int k = 1 + Draw(3); k > 0; k--) {
    d::EvaluationContext before = ctx;
    int64_t prev = ctx.previous_hierarchy_level();
    int l = Draw(n);
    const DpfType& t = *s.types[l];
    size_t nl = t.leaves.size();
    int from = prev >= 0 && prev < n ? s.logs[prev] : 0;
    bool first = prev < 0;
    CallFault af(w->node, Chance(1, 20));
    int op = Draw(3);
    // Prefixes: those the context holds, and others.
    std::vector<U128> pre;
    auto some = [&](int log) {
      std::vector<U128> p;
      for (int i = 0, c = 1 + Draw(4); i < c; i++) {
        U128 x = DrawPoint(w->st, log, 0);
        int pl = ctx.partial_evaluations_level();
        if (ctx.partial_evaluations_size() && pl >= 0 && pl < n && w->st.Below(4)) {
          auto& e = ctx.partial_evaluations(w->st.Below(ctx.partial_evaluations_size()));
          U128 q = absl::MakeUint128(e.prefix().high(), e.prefix().low());
          int up = log - s.logs[pl];
          x = up >= 0 ? Shl(q, up) | (up ? Rand128(w->st, std::min(up, 128)) : U128(0)) : Shr(q, -up);
          if (log < 128) x = x & MaxOf(log);
        }
        p.push_back(x);
      }
      return p;
    };
    if (op == 0) {
      auto p = some(s.logs[l]);
      w->Size(t.AtCtx(*w->dpf, l, p, ctx), p.size() * nl, "EvaluateAt(ctx)");
      continue;
    }
    if (op == 2) l = prev + 1 >= 0 && prev + 1 < n ? prev + 1 : Draw(n);
    if (!first) pre = some(from);
    if (s.logs[l] - from > kMaxExpand) continue;
    const DpfType& t2 = *s.types[l];
    size_t want = first ? 1 : pre.size();
    if (s.logs[l] - from > 0) want <<= s.logs[l] - from;
    want *= t2.leaves.size();
    if (op == 1) w->Size(t2.Until(*w->dpf, l, pre, ctx), want, "EvaluateUntil");
    else if (prev + 1 == l) w->Size(t2.Next(*w->dpf, pre, ctx), want, "EvaluateNext");
  }
}
}  // namespace

namespace {
// A stored context and what it was last evaluated at.
struct Stage {
  std::string ctx;
  int prev;
  std::vector<U128> have;
};
// Damage whose outcome is known: saved parts repeated or in another order,
// contradicting one another, or missing.
void TellingDamage(DamageWorld* w, const std::vector<Stage>& stages) {
  std::vector<const Stage*> fit;
  for (auto& s : stages) {
    d::EvaluationContext c;
    SIM_ASSERT(c.ParseFromString(s.ctx));
    if (c.partial_evaluations_size() && s.prev + 1 < w->s.levels() && !s.have.empty()) fit.push_back(&s);
  }
  if (fit.empty()) return;
  const Stage& g = *fit[Draw(fit.size())];
  int l = g.prev + 1 + Draw(w->s.levels() - g.prev - 1), from = w->s.logs[g.prev], up = w->s.logs[l] - from;
  bool whole = up <= 6 && Draw(2);
  std::vector<U128> pts;
  for (int i = 0, n = 1 + Draw(4); i < n; i++) {
    U128 q = g.have[w->st.Below(g.have.size())];
    pts.push_back(whole ? q : Shl(q, up) | Rand128(w->st, up));
  }
  auto run = [&](d::EvaluationContext c) { return whole ? w->s.types[l]->Until(*w->dpf, l, pts, c) : w->s.types[l]->AtCtx(*w->dpf, l, pts, c); };
  d::EvaluationContext c;
  SIM_ASSERT(c.ParseFromString(g.ctx));
  auto base = run(c);
  if (!base.ok()) Violate("damage-setup", "a legal step was refused: %s", base.status().ToString().c_str());
  auto* parts = c.mutable_partial_evaluations();
  int what = Draw(4);
  if (what == 3) {  // the key in the context lost something
    d::DpfKey* k = c.mutable_key();
    int words = k->correction_words_size();
    switch (Draw(4)) {
      case 0: k->clear_seed(); break;
      case 1: k->clear_last_level_value_correction(); break;
      case 2: *k->add_correction_words() = words ? k->correction_words(Draw(words)) : d::CorrectionWord(); break;
      default:
        if (!words) return;
        k->mutable_correction_words()->DeleteSubrange(Draw(2) ? words - 1 : 0, 1);
        break;
    }
  } else if (what == 2) {
    parts->DeleteSubrange(Draw(parts->size()), 1);
  } else {
    for (int k = 1 + Draw(3); k > 0; k--) {
      d::PartialEvaluation e = parts->Get(Draw(parts->size()));
      if (what == 1 && k == 1) {
        switch (Draw(3)) {
          case 0: e.set_control_bit(!e.control_bit()); break;
          case 1: e.mutable_seed()->set_low(e.seed().low() ^ (uint64_t{1} << Draw(64))); break;
          default: e.mutable_seed()->set_high(e.seed().high() ^ (uint64_t{1} << Draw(64))); break;
        }
      }
      *parts->Add() = e;
    }
    if (Draw(2))
      for (int i = 0; i < 8; i++) parts->SwapElements(Draw(parts->size()), Draw(parts->size()));
    else
      for (int i = parts->size() - 1, to = Draw(parts->size()); i > to; i--) parts->SwapElements(i, i - 1);
  }
  auto r = run(c);
  static const char* kWhat[] = {"repeated", "contradictory", "missing", "incomplete key"};
  Log("%s parts at level %d (%s): %s", kWhat[what], l, whole ? "EvaluateUntil" : "EvaluateAt", StatusStr(r.status()).c_str());
  Count((std::string("fault:parts-") + kWhat[what]).c_str());
  bool refused = r.status().code() == absl::StatusCode::kInvalidArgument;
  bool same = r.ok() && *r == *base;
  if (what == 1 || what == 3 ? !refused : what == 2 ? !refused && !same : !same)
    Violate("damage-parts", "a context with %s parts (levels %s, evaluated at %d, then at %d) is %s", kWhat[what], w->s.Describe().c_str(), g.prev, l,
            same ? "evaluated" : r.ok() ? "evaluated to something else" : r.status().ToString().c_str());
}
}  // namespace

SCENARIO(P20, keys_and_contexts, 4) {
  auto w = std::make_unique<DamageWorld>();
  w->node = NewNode("party");
  w->node->simd = Draw(SimdTargets());
  NodeScope ns(w->node);
  DpfOpts o;
  o.max_levels = 5;
  o.max_log = Draw(2) ? 14 : 128;
  o.same_type = Draw(2);
  w->s = DrawDpfSetup(o);
  Log("levels %s", w->s.Describe().c_str());
  w->dpf = OpenDpf(w->s, true);
  w->pair = DealDpf(w->s, w->dpf.get(), w->st);
  w->blevel = Draw(w->s.levels());
  U128 hot = Shr(w->pair.alpha, w->s.logs.back() - w->s.logs[w->blevel]);
  w->bpts = {hot, DrawPoint(w->st, w->s.logs[w->blevel], hot), DrawPoint(w->st, w->s.logs[w->blevel], hot)};
  w->Alone();
  w->keys = {w->pair.key[0], w->pair.key[1]};
  for (int k = Draw(2); k > 0; k--) {
    DpfSetup t = w->Other();
    auto dpf = OpenDpf(t, true);
    DpfPair p = DealDpf(t, dpf.get(), w->st);
    w->keys.push_back(p.key[Draw(2)]);
    auto ctx = dpf->CreateEvaluationContext(LoadKey(p.key[0]));
    SIM_ASSERT(ctx.ok());
    w->ctxs.push_back(ctx->SerializeAsString());
  }
  // Contexts at several stages.
  std::vector<Stage> stages;
  for (int b = 0; b < 2; b++) {
    auto ctx = w->dpf->CreateEvaluationContext(LoadKey(w->pair.key[b]));
    if (!ctx.ok()) Violate("damage-setup", "%s", ctx.status().ToString().c_str());
    w->ctxs.push_back(ctx->SerializeAsString());
    int prev = -1;
    std::vector<U128> have;
    for (int l = 0; l < w->s.levels(); l++) {
      if (Draw(3) == 2) continue;
      int from = prev < 0 ? 0 : w->s.logs[prev];
      absl::StatusOr<Flat> r;
      std::vector<U128> next;
      if (w->s.logs[l] - from <= 6 && Draw(3)) {
        std::vector<U128> pre(have.begin(), have.begin() + std::min<size_t>(have.size(), 5));
        r = w->s.types[l]->Until(*w->dpf, l, pre, *ctx);
        if (pre.empty()) pre.push_back(0);
        for (U128 q : pre)
          for (U128 x = 0; x < Pow2(w->s.logs[l] - from); x++) next.push_back(Shl(q, w->s.logs[l] - from) | x);
      } else {
        for (int i = 0; i < 4; i++) {
          U128 q = have.empty() ? U128(0) : have[w->st.Below(have.size())];
          int up = w->s.logs[l] - from;
          next.push_back(Shl(q, up) | (up ? Rand128(w->st, up) : U128(0)));
        }
        std::sort(next.begin(), next.end());
        next.erase(std::unique(next.begin(), next.end()), next.end());
        r = w->s.types[l]->AtCtx(*w->dpf, l, next, *ctx);
      }
      if (!r.ok()) Violate("damage-setup", "a legal step was refused: %s", r.status().ToString().c_str());
      have = next;
      prev = l;
      w->ctxs.push_back(ctx->SerializeAsString());
      stages.push_back({w->ctxs.back(), prev, have});
    }
  }
  NonTrivial();
  for (int i = 0, n = 1 + Draw(6); i < n; i++) {
    Span sp;
    int what = Draw(5);
    if (what == 4) {
      TellingDamage(w.get(), stages);
    } else if (what & 1) {
      d::DpfKey k;
      if (ReloadDamaged(w->keys[Draw(2)], w->keys, &k)) UseKey(w.get(), *w->dpf, w->s, k);
    } else {
      d::EvaluationContext c;
      if (ReloadDamaged(Pick(w->ctxs), w->ctxs, &c)) UseContext(w.get(), std::move(c));
    }
    w->Alone();
  }
}

SCENARIO(P20, parameters, 2) {
  auto w = std::make_unique<DamageWorld>();
  w->node = NewNode("party");
  NodeScope ns(w->node);
  DpfOpts o;
  o.max_levels = 4;
  o.max_log = 40;
  w->s = DrawDpfSetup(o);
  Log("levels %s", w->s.Describe().c_str());
  w->dpf = OpenDpf(w->s, true);
  w->pair = DealDpf(w->s, w->dpf.get(), w->st);
  w->blevel = 0;
  w->bpts = {0};
  w->Alone();
  std::vector<std::string> donors;
  for (auto& p : w->s.params) donors.push_back(p.SerializeAsString());
  for (auto& p : w->Other().params) donors.push_back(p.SerializeAsString());
  NonTrivial();
  for (int i = 0, n = 1 + Draw(5); i < n; i++) {
    Span sp;
    std::vector<d::DpfParameters> ps;
    int hit = Draw(w->s.levels());
    bool parsed = true;
    for (int l = 0; l < w->s.levels(); l++) {
      ps.emplace_back();
      if (l == hit || Chance(1, 5)) parsed &= ReloadDamaged(w->s.params[l].SerializeAsString(), donors, &ps.back());
      else ps.back() = w->s.params[l];
    }
    if (!parsed) continue;
    if (Chance(1, 8)) ps.erase(ps.begin() + Draw(ps.size()));
    if (!ps.empty() && Chance(1, 8)) ps.push_back(ps[0]);
    auto dpf = ps.size() == 1 && Draw(2) ? d::DistributedPointFunction::Create(ps[0]) : d::DistributedPointFunction::CreateIncremental(ps);
    Log("create: %s", StatusStr(dpf.status()).c_str());
    Count(dpf.ok() ? "probe:evaluated" : "probe:refused");
    if (dpf.ok()) {
      for (auto* t : w->s.types)
        if (!t->Register(**dpf).ok()) Violate("dpf-register", "value type refused");
      // The caller still believes in its own types and domains.
      std::vector<d::Value> v;
      for (int l = 0; l < w->s.levels(); l++) v.push_back(w->s.types[l]->MakeValue(w->pair.betas[l].data()));
      auto k = (*dpf)->GenerateKeysIncremental(w->pair.alpha, absl::MakeConstSpan(v));
      Log("generate: %s", StatusStr(k.status()).c_str());
      DpfSetup s2 = w->s;
      for (size_t l = 0; l < s2.logs.size() && l < ps.size(); l++) {
        if (ps[l].log_domain_size() >= 0 && ps[l].log_domain_size() <= 128) s2.logs[l] = ps[l].log_domain_size();
      }
      while (s2.levels() > (int)ps.size()) s2.logs.pop_back(), s2.types.pop_back();
      if (k.ok()) UseKey(w.get(), **dpf, s2, Draw(2) ? k->first : k->second);
      UseKey(w.get(), **dpf, s2, LoadKey(w->pair.key[Draw(2)]));
      // And with a type it never had.
      if (k.ok() && Draw(2)) {
        int l = Draw(s2.levels());
        const DpfType* t = Types()[Draw(Types().size())];
        auto p = w->Points(s2.logs[l]);
        w->Size(t->At(**dpf, k->first, l, p), p.size() * t->leaves.size(), "EvaluateAt of another type");
      }
    }
    w->Alone();
  }
}

// Comparison functions and gates.
SCENARIO(P20, comparisons_and_gates, 2) {
  Node* node = NewNode("party");
  NodeScope ns(node);
  node->simd = Draw(SimdTargets());
  ApplySimd();
  Stream st(21);
  NonTrivial();
  int log = Draw(3) ? 1 + Draw(12) : 1 + Draw(127);
  if (Draw(2)) {
    const DpfType* t;
    do t = Types()[Draw(Types().size())];
    while (t->max_domain < log);
    d::DcfParameters params;
    params.mutable_parameters()->set_log_domain_size(log);
    *params.mutable_parameters()->mutable_value_type() = t->vt;
    auto dcf = d::DistributedComparisonFunction::Create(params);
    if (!dcf.ok()) Violate("dcf-create", "%s", dcf.status().ToString().c_str());
    U128 alpha = Rand128(st, log);
    Flat beta = RandomLeaves(*t, st, 0);
    auto key = t->DcfGen(**dcf, alpha, beta.data());
    if (!key.ok()) Violate("dcf-gen", "%s", key.status().ToString().c_str());
    std::vector<std::string> keys = {key->first.SerializeAsString(), key->second.SerializeAsString()};
    size_t nl = t->leaves.size();
    for (int i = 0, n = 1 + Draw(6); i < n; i++) {
      Span sp;
      if (Chance(1, 4)) {
        d::DcfParameters bad;
        if (!ReloadDamaged(params.SerializeAsString(), {}, &bad)) continue;
        auto o = d::DistributedComparisonFunction::Create(bad);
        Log("create: %s", StatusStr(o.status()).c_str());
        if (o.ok()) {
          auto k = t->DcfGen(**o, alpha, beta.data());
          auto r = t->DcfEval(**o, k.ok() ? k->first : key->first, alpha);
          Log("generate %s, evaluate %s", StatusStr(k.status()).c_str(), StatusStr(r.status()).c_str());
        }
        continue;
      }
      d::DcfKey bad;
      if (!ReloadDamaged(keys[Draw(2)], keys, &bad)) continue;
      std::vector<d::DcfKey> ks;
      std::vector<U128> p;
      int at = Draw(3), cnt = at + 1 + Draw(40);
      for (int j = 0; j < cnt; j++) {
        ks.push_back(j == at ? bad : key->first);
        p.push_back(DrawPoint(st, log, alpha));
      }
      CallFault af(node, Chance(1, 20));
      if (Draw(3) == 0) {
        auto r = t->DcfEval(**dcf, bad, p[0]);
        Log("Evaluate: %s", StatusStr(r.status()).c_str());
      } else {
        auto r = t->DcfBatch(**dcf, ks, Draw(3), p);
        Log("BatchEvaluate: %s", StatusStr(r.status()).c_str());
        if (r.ok() && r->size() != cnt * nl) Violate("damage-size", "BatchEvaluate returned %zu values for %d keys", r->size() / nl, cnt);
      }
    }
    for (U128 x : {alpha, (alpha - 1) & MaxOf(log), DrawPoint(st, log, alpha)}) {
      auto a = t->DcfEval(**dcf, key->first, x), b = t->DcfEval(**dcf, key->second, x);
      if (!a.ok() || !b.ok() || AddLeaves(*t, *a, *b) != (x < alpha ? beta : Flat(nl, U128(0))))
        Violate("damage-after", "undamaged comparison keys no longer open to the comparison");
    }
    return;
  }
  g::MicParameters params;
  params.set_log_group_size(log = std::min(log, 127));
  std::vector<std::pair<U128, U128>> iv;
  for (int i = 0, n = 1 + Draw(3); i < n; i++) {
    U128 a = Rand128(st, log), b = Rand128(st, log);
    if (a > b) std::swap(a, b);
    iv.emplace_back(a, b);
    auto* in = params.add_intervals();
    for (auto [v, x] : {std::make_pair(in->mutable_lower_bound(), a), std::make_pair(in->mutable_upper_bound(), b)}) {
      v->mutable_value_uint128()->set_high(absl::Uint128High64(x));
      v->mutable_value_uint128()->set_low(absl::Uint128Low64(x));
    }
  }
  auto gate = g::MultipleIntervalContainmentGate::Create(params);
  if (!gate.ok()) Violate("mic-create", "%s", gate.status().ToString().c_str());
  U128 r_in = Rand128(st, log);
  std::vector<U128> r_out;
  for (size_t j = 0; j < iv.size(); j++) r_out.push_back(Rand128(st, log));
  auto key = (*gate)->Gen(r_in, r_out);
  if (!key.ok()) Violate("mic-gen", "%s", key.status().ToString().c_str());
  std::vector<std::string> keys = {key->first.SerializeAsString(), key->second.SerializeAsString()};
  for (int i = 0, n = 1 + Draw(6); i < n; i++) {
    Span sp;
    if (Chance(1, 4)) {
      g::MicParameters bad;
      if (!ReloadDamaged(params.SerializeAsString(), {}, &bad)) continue;
      auto o = g::MultipleIntervalContainmentGate::Create(bad);
      Log("create: %s", StatusStr(o.status()).c_str());
      if (o.ok()) {
        auto k = (*o)->Gen(r_in, r_out);
        auto r = (*o)->Eval(k.ok() ? k->first : key->first, 0);
        Log("generate %s, evaluate %s", StatusStr(k.status()).c_str(), StatusStr(r.status()).c_str());
        if (r.ok() && (int)r->size() != bad.intervals_size()) Violate("damage-size", "a gate with %d intervals returned %zu outputs", bad.intervals_size(), r->size());
      }
      continue;
    }
    g::MicKey bad;
    if (!ReloadDamaged(keys[Draw(2)], keys, &bad)) continue;
    std::vector<g::MicKey> ks;
    std::vector<U128> p;
    int at = Draw(3), cnt = at + 1 + Draw(10);
    for (int j = 0; j < cnt; j++) {
      ks.push_back(j == at ? bad : key->first);
      p.push_back(Rand128(st, log));
    }
    auto r = Draw(3) == 0 ? (*gate)->Eval(bad, p[0]) : (*gate)->BatchEval(absl::MakeConstSpan(ks), p);
    Log("gate: %s", StatusStr(r.status()).c_str());
    if (r.ok() && r->size() % iv.size()) Violate("damage-size", "a gate with %zu intervals returned %zu outputs", iv.size(), r->size());
  }
  for (U128 real : {iv[0].first, iv[0].second, Rand128(st, log)}) {
    auto a = (*gate)->Eval(key->first, (real + r_in) & MaxOf(log)), b = (*gate)->Eval(key->second, (real + r_in) & MaxOf(log));
    if (!a.ok() || !b.ok()) Violate("damage-after", "undamaged gate keys are refused");
    for (size_t j = 0; j < iv.size(); j++)
      if ((((*a)[j] + (*b)[j] - r_out[j]) & MaxOf(log)) != (iv[j].first <= real && real <= iv[j].second ? 1 : 0))
        Violate("damage-after", "undamaged gate keys no longer open to the containment bit");
  }
}
}  // namespace sim
