// P16, P17 at the sizes of production deployments: expansions over up to 2^17
// blocks, thousands of prefixes, points and keys, stored and reloaded on the way.
#include <algorithm>
#include <set>

#include "dpf_world.h"
#include "pir_world.h"

namespace sim {
namespace {
typedef std::unique_ptr<d::DistributedPointFunction> DpfPtr;

DpfSetup LargeSetup(const std::vector<int>& logs) {
  DpfSetup s;
  const DpfType* one = nullptr;
  bool same = Chance(1, 2);
  for (int l : logs) {
    const DpfType* t = same ? one : nullptr;
    for (int i = 0; !t || t->max_domain < logs.back() || t->leaves.size() > 4; i++) t = i > 60 ? Types()[0] : Types()[Draw(Types().size())];
    one = t;
    s.logs.push_back(l);
    s.types.push_back(t);
    d::DpfParameters p;
    p.set_log_domain_size(l);
    *p.mutable_value_type() = t->vt;
    s.params.push_back(p);
  }
  return s;
}
// Value types of a few bits share blocks, so they reach further.
int ExtraLog(const DpfType& t) { return t.leaves.size() == 1 && t.leaves[0].bits <= 16 ? 2 : 0; }
struct Side {
  Node* node;
  DpfPtr dpf;
};
void Reboot(Side& p, const DpfSetup& s) {
  Count("fault:crash-restart");
  NonTrivial();
  p.node->simd = Draw(SimdTargets());
  ApplySimd();
  p.dpf = OpenDpf(s);
}
void CheckSum(const DpfSetup& s, const DpfPair& pair, int level, size_t nl, const Flat& a, const Flat& b, size_t i, U128 x, const char* what) {
  const DpfType& t = *s.types[level];
  bool hot = x == Shr(pair.alpha, s.logs.back() - s.logs[level]);
  for (size_t j = 0; j < nl; j++) {
    U128 sum = LeafAdd(t.leaves[j], a[i * nl + j], b[i * nl + j]);
    if (sum != (hot ? pair.betas[level][j] : U128(0)))
      Violate("dpf-sum", "%s: shares %zu, for %s on level %d (levels %s), add up to %s instead of %s (alpha %s)", what, i, Show(x).c_str(), level,
              s.Describe().c_str(), ShowFlat(AddLeaves(t, Slice(a, i, nl), Slice(b, i, nl))).c_str(), ShowFlat(DpfExpect(s, pair, level, x)).c_str(),
              Show(pair.alpha).c_str());
  }
}
}  // namespace

SCENARIO(P16, large, 1) {
  Stream st(161, Draw(1 << 16));
  NonTrivial();
  std::vector<int> logs;
  int a = Chance(1, 8) ? 14 + Draw(4) : Draw(14), n = 2 + Draw(2);
  logs.push_back(a);
  for (int i = 1; i < n; i++) logs.push_back(logs.back() + 1 + Draw(Chance(1, 4) ? 12 : 5));
  DpfSetup s = LargeSetup(logs);
  Side side[2];
  DpfPair pair;
  for (int i = 0; i < 2; i++) {
    side[i].node = NewNode(i ? "party1" : "party0");
    side[i].node->simd = Draw(SimdTargets());
    NodeScope ns(side[i].node);
    side[i].dpf = OpenDpf(s, true);
    if (i == 0) pair = DealDpf(s, side[0].dpf.get(), st);
  }
  std::string stored[2];
  for (int i = 0; i < 2; i++) {
    NodeScope ns(side[i].node);
    auto c = side[i].dpf->CreateEvaluationContext(LoadKey(pair.key[i]));
    if (!c.ok()) Violate("dpf-context", "%s", c.status().ToString().c_str());
    stored[i] = c->SerializeAsString();
  }
  Log("levels %s alpha %s", s.Describe().c_str(), Show(pair.alpha).c_str());
  std::vector<U128> outs;  // what the last results refer to
  for (int level = 0; level < n; level++) {
    Span sp;
    std::vector<U128> pts;
    U128 hot = Shr(pair.alpha, s.logs.back() - s.logs[level]);
    bool at = level && Chance(1, 4);
    int gap = level ? s.logs[level] - s.logs[level - 1] : s.logs[0];
    if (level) {  // prefixes: the hot one, a sample of the others
      size_t cap = at ? 3000 : std::max<size_t>(1, (size_t(1) << (13 + Draw(4))) >> gap);
      size_t k = Chance(1, 3) ? cap : 1 + st.Below(cap);
      U128 h = Shr(hot, gap);
      size_t from = st.Below(outs.size());
      for (size_t i = 0; i < k && i < outs.size(); i++) pts.push_back(outs[(from + i) % outs.size()]);
      if (Chance(1, 2)) std::sort(pts.begin(), pts.end());
      if (std::find(outs.begin(), outs.end(), h) != outs.end() && std::find(pts.begin(), pts.end(), h) == pts.end()) pts[Chance(1, 2) ? pts.size() - 1 : st.Below(pts.size())] = h;
    }
    outs.clear();
    if (at) {  // extensions of the prefixes
      for (U128& p : pts) p = Shl(p, gap) | (p == Shr(hot, gap) ? hot & MaxOf(gap) : Rand128(st, gap));
      outs = pts;
    } else if (level == 0) {
      for (uint64_t x = 0; x < uint64_t(1) << gap; x++) outs.push_back(x);
    } else {
      for (U128 p : pts)
        for (uint64_t x = 0; x < uint64_t(1) << gap; x++) outs.push_back(Shl(p, gap) | x);
    }
    const DpfType& t = *s.types[level];
    size_t nl = t.leaves.size();
    Flat got[2];
    for (int i = 0; i < 2; i++) {
      NodeScope ns(side[i].node);
      if (Chance(1, 3)) Reboot(side[i], s);
      d::EvaluationContext c;
      SIM_ASSERT(c.ParseFromString(stored[i]));
      CallFault af(side[i].node, Chance(1, 8));
      auto r = at ? t.AtCtx(*side[i].dpf, level, pts, c) : Chance(1, 2) ? t.Next(*side[i].dpf, pts, c) : t.Until(*side[i].dpf, level, pts, c);
      if (!r.ok() && af.fired()) {
        af.Check(r.status(), "call");
        SIM_ASSERT(c.ParseFromString(stored[i]));
        af.n->alloc_fail_at = af.n->cipher_fail_at = 0;
        r = at ? t.AtCtx(*side[i].dpf, level, pts, c) : t.Until(*side[i].dpf, level, pts, c);
      }
      if (!r.ok()) Violate("dpf-refused", "level %d with %zu prefixes refused (levels %s): %s", level, pts.size(), s.Describe().c_str(), r.status().ToString().c_str());
      if (r->size() != outs.size() * nl) Violate("dpf-size", "%zu values instead of %zu", r->size() / nl, outs.size());
      got[i] = std::move(*r);
      stored[i] = c.SerializeAsString();
    }
    Log("level %d: %zu prefixes, %zu results", level, pts.size(), outs.size());
    for (size_t i = 0; i < outs.size(); i++) CheckSum(s, pair, level, nl, got[0], got[1], i, outs[i], at ? "EvaluateAt" : "EvaluateUntil");
    Count("probe:large-step");
    State(Mix(Mix(pts.size() >> 8, outs.size() >> 8), level));
    if (outs.size() > 40000) {  // the last level needs results, not all of them
      size_t from = st.Below(outs.size());
      std::rotate(outs.begin(), outs.begin() + from, outs.end());
    }
  }
}

SCENARIO(P17, large, 1) {
  Stream st(171, Draw(1 << 16));
  NonTrivial();
  int style = Draw(3);
  std::vector<int> logs;
  int top = style == 0 ? 12 + Draw(6) : 1 + Draw(60);
  int below = Draw(3);
  for (int i = 0; i < below; i++) {
    int l = Draw(top);
    if (std::find(logs.begin(), logs.end(), l) == logs.end()) logs.push_back(l);
  }
  std::sort(logs.begin(), logs.end());
  logs.push_back(top);
  DpfSetup s = LargeSetup(logs);
  for (int i = 0; i + 1 < s.levels(); i++) s.types[i] = s.types.back(), s.params[i] = s.params.back(), s.params[i].set_log_domain_size(s.logs[i]);
  const DpfType& t = *s.types.back();
  if (style == 0) {
    top = s.logs.back() += ExtraLog(t);
    s.params.back().set_log_domain_size(top);
  }
  size_t nl = t.leaves.size();
  Side side[2];
  std::vector<DpfPair> pairs(style == 2 ? 1 + Draw(5) : 1);
  for (int i = 0; i < 2; i++) {
    side[i].node = NewNode(i ? "party1" : "party0");
    side[i].node->simd = Draw(SimdTargets());
    NodeScope ns(side[i].node);
    side[i].dpf = OpenDpf(s, true);
    if (i == 0)
      for (auto& p : pairs) p = DealDpf(s, side[0].dpf.get(), st);
  }
  int last = s.levels() - 1;
  Log("levels %s, style %d", s.Describe().c_str(), style);
  auto at = [&](int i, int which, const std::vector<U128>& pts) {
    NodeScope ns(side[i].node);
    if (Chance(1, 4)) Reboot(side[i], s);
    auto r = t.At(*side[i].dpf, LoadKey(pairs[which].key[i]), last, pts);
    if (!r.ok()) Violate("dpf-refused", "EvaluateAt refused %zu points: %s", pts.size(), r.status().ToString().c_str());
    if (r->size() != pts.size() * nl) Violate("dpf-size", "EvaluateAt returned %zu values for %zu points", r->size() / nl, pts.size());
    return std::move(*r);
  };
  Count("probe:large-step");
  State(Mix(style, top));
  if (style == 0) {  // the whole domain, against points
    Flat full[2];
    for (int i = 0; i < 2; i++) {
      NodeScope ns(side[i].node);
      auto c = side[i].dpf->CreateEvaluationContext(LoadKey(pairs[0].key[i]));
      SIM_ASSERT(c.ok());
      auto r = t.Until(*side[i].dpf, last, {}, *c);
      if (!r.ok()) Violate("dpf-refused", "the expansion of 2^%d was refused: %s", top, r.status().ToString().c_str());
      if (r->size() != nl << top) Violate("dpf-size", "full evaluation of 2^%d returned %zu values", top, r->size() / nl);
      full[i] = std::move(*r);
    }
    for (uint64_t x = 0; x < uint64_t(1) << top; x++) CheckSum(s, pairs[0], last, nl, full[0], full[1], x, x, "full evaluation");
    std::vector<U128> pts;
    for (int i = 0, k = 100 + st.Below(1500); i < k; i++) pts.push_back(DrawPoint(st, top, pairs[0].alpha));
    int i = Draw(2);
    Flat r = at(i, 0, pts);
    for (size_t k = 0; k < pts.size(); k++)
      if (Slice(r, k, nl) != Slice(full[i], (size_t)pts[k], nl))
        Violate("dpf-paths", "EvaluateAt gives %s at %s, the full evaluation %s (levels %s)", ShowFlat(Slice(r, k, nl)).c_str(), Show(pts[k]).c_str(),
                ShowFlat(Slice(full[i], (size_t)pts[k], nl)).c_str(), s.Describe().c_str());
  } else if (style == 1) {  // many points
    std::vector<U128> pts;
    size_t k = Chance(1, 8) ? 5000 + st.Below(15000) : 1000 + st.Below(4000);
    for (size_t i = 0; i < k; i++) pts.push_back(DrawPoint(st, top, pairs[0].alpha));
    Flat a = at(0, 0, pts), b = at(1, 0, pts);
    for (size_t i = 0; i < k; i++) CheckSum(s, pairs[0], last, nl, a, b, i, pts[i], "EvaluateAt");
  } else {  // many keys
    size_t k = Chance(1, 6) ? 2000 + st.Below(4000) : 300 + st.Below(1200);
    std::vector<d::DpfKey> parsed[2];
    for (auto& p : pairs)
      for (int b = 0; b < 2; b++) parsed[b].push_back(LoadKey(p.key[b]));
    std::vector<size_t> who;
    std::vector<U128> pts;
    for (size_t i = 0; i < k; i++) {
      who.push_back(st.Below(pairs.size()));
      pts.push_back(DrawPoint(st, top, pairs[who[i]].alpha));
    }
    std::vector<Flat> got[2];
    bool mixed = Chance(1, 2);  // both parties' keys in one call
    for (int i = 0; i < 2; i++) {
      NodeScope ns(side[i].node);
      if (Chance(1, 4)) Reboot(side[i], s);
      std::vector<const d::DpfKey*> keys;
      for (size_t j = 0; j < k; j++) keys.push_back(&parsed[mixed ? (i + j) % 2 : i][who[j]]);
      absl::Status r = t.Apply(*side[i].dpf, keys, Chance(1, 2), pts, [&](const Flat& f) {
        got[i].push_back(f);
        return true;
      }, 0);
      if (!r.ok()) Violate("dpf-refused", "EvaluateAndApply refused %zu keys: %s", k, r.ToString().c_str());
      if ((int)got[i].size() != s.levels()) Violate("dpf-apply-levels", "the callback was called %zu times for %d levels", got[i].size(), s.levels());
    }
    for (int l = 0; l < s.levels(); l++) {
      for (int i = 0; i < 2; i++)
        if (got[i][l].size() != k * nl) Violate("dpf-size", "EvaluateAndApply passed %zu values for %zu keys", got[i][l].size() / nl, k);
      for (size_t j = 0; j < k; j++) CheckSum(s, pairs[who[j]], l, nl, got[0][l], got[1][l], j, Shr(pts[j], top - s.logs[l]), "EvaluateAndApply");
    }
  }
}
}  // namespace sim
