// P18 distributed comparison functions, P19 multiple interval containment.
#include <algorithm>
#include <map>
#include <memory>
#include <set>

#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dpf_world.h"
#include "pir_world.h"

namespace sim {
namespace {
typedef std::unique_ptr<d::DistributedComparisonFunction> DcfPtr;
struct DcfPair {
  U128 alpha;
  Flat beta;
  std::string key[2];
};
struct DcfWorld {
  d::DcfParameters params;
  const DpfType* t;
  int log;
  std::vector<DcfPair> pairs;
  struct Machine {
    Node* node;
    DcfPtr dcf;
  };
  std::vector<Machine> machines;
  std::map<std::pair<int, U128>, Flat> share[2];
  unsigned faults = 0;
  DcfPtr Open() {
    d::DcfParameters p;
    SIM_ASSERT(p.ParseFromString(params.SerializeAsString()));
    absl::StatusOr<DcfPtr> r = absl::InternalError("");
    for (int i = 0;; i++) {
      CallFault cf(CurNode(), faults && i < 2 && Chance(faults, 8));
      r = d::DistributedComparisonFunction::Create(p);
      if (r.ok() || !cf.fired()) break;
      cf.Check(r.status(), "Create");
    }
    if (!r.ok()) Violate("dcf-create", "valid parameters refused (log %d, %s): %s", log, t->name.c_str(), r.status().ToString().c_str());
    return std::move(*r);
  }
  void Record(int pair, int party, U128 x, const Flat& v, const char* path) {
    auto key = std::make_pair(pair, x);
    auto it = share[party].emplace(key, v);
    if (!it.second && it.first->second != v)
      Violate("dcf-paths", "%s gives %s at %s (log %d, %s, party %d) where an earlier evaluation gave %s", path, ShowFlat(v).c_str(), Show(x).c_str(),
              log, t->name.c_str(), party, ShowFlat(it.first->second).c_str());
    auto other = share[1 - party].find(key);
    if (other == share[1 - party].end()) return;
    Flat sum = AddLeaves(*t, v, other->second);
    Flat want = x < pairs[pair].alpha ? pairs[pair].beta : Flat(t->leaves.size(), U128(0));
    if (sum != want)
      Violate("dcf-sum", "%s: shares at %s (log %d, %s) add up to %s instead of %s (alpha %s)", path, Show(x).c_str(), log, t->name.c_str(),
              ShowFlat(sum).c_str(), ShowFlat(want).c_str(), Show(pairs[pair].alpha).c_str());
  }
};
d::DcfKey LoadDcf(const std::string& s) {
  d::DcfKey k;
  SIM_ASSERT(k.ParseFromString(s));
  return k;
}
void DcfOp(DcfWorld* w, Stream& st) {
  auto& m = w->machines[Draw(w->machines.size())];
  NodeScope ns(m.node);
  size_t nl = w->t->leaves.size();
  if (Chance(1, 12)) {
    Count("fault:crash-restart");
    NonTrivial();
    m.node->simd = Draw(SimdTargets());
    ApplySimd();
    m.dcf = w->Open();
  }
  auto attempt = [&](const std::function<absl::Status()>& call) {
    for (int i = 0;; i++) {
      CallFault af(m.node, w->faults && i < 3 && Chance(w->faults, 6));
      absl::Status r = call();
      if (r.ok() || !af.fired()) return r;
      af.Check(r, "call");
      NonTrivial();
      Yield();
    }
  };
  if (Chance(1, 4)) {
    int pi = Draw(w->pairs.size());
    U128 x = DrawPoint(st, w->log, w->pairs[pi].alpha);
    bool bad = w->log < 128 && Chance(1, 8);
    if (bad) x = BeyondDomain(st, w->log, x);
    for (int k = 0, party = Draw(2); k < 1 + (int)Draw(2); k++, party = 1 - party) {
      absl::StatusOr<Flat> r = absl::InternalError("");
      auto s = attempt([&] { return (r = w->t->DcfEval(*m.dcf, LoadDcf(w->pairs[pi].key[party]), x)).status(); });
      Log("eval pair %d party %d x %s: %s", pi, party, Show(x).c_str(), StatusStr(s).c_str());
      if (bad) {
        Count("fault:bad-argument");
        NonTrivial();
        if (s.code() != absl::StatusCode::kInvalidArgument) Violate("dcf-bad-argument", "input outside the domain: %s", s.ToString().c_str());
        continue;
      }
      if (!s.ok()) Violate("dcf-refused", "Evaluate refused (log %d, %s): %s", w->log, w->t->name.c_str(), s.ToString().c_str());
      w->Record(pi, party, x, *r, "Evaluate");
    }
    State(Mix(1, w->log));
    return;
  }
  int k = DrawCount(150), mode = Draw(3);
  if (Chance(1, 30)) k = 200 + Draw(40000 / (w->log + 8));
  std::vector<d::DcfKey> parsed[2];
  for (auto& p : w->pairs)
    for (int b = 0; b < 2; b++) parsed[b].push_back(LoadDcf(p.key[b]));
  std::vector<const d::DcfKey*> keys;
  std::vector<std::pair<int, int>> who;
  std::vector<U128> pts;
  for (int i = 0; i < k; i++) {
    int q = st.Below(w->pairs.size()), b = st.Below(2);
    if (i && st.Below(3) == 0) {  // both parties at the same input
      q = who.back().first;
      b = 1 - who.back().second;
      pts.push_back(pts.back());
    } else {
      pts.push_back(DrawPoint(st, w->log, w->pairs[q].alpha));
    }
    who.emplace_back(q, b);
    keys.push_back(&parsed[b][q]);
  }
  if (Chance(1, 12)) {
    Count("fault:bad-argument");
    NonTrivial();
    if (k && w->log < 128 && Chance(1, 3)) {
      U128& x = pts[st.Below(k)];
      x = BeyondDomain(st, w->log, x);
    } else if (Chance(1, 2)) {
      mode = k && Draw(2) ? 3 : 4;
    } else if (k && Chance(1, 2)) {
      pts.pop_back();
    } else {
      pts.push_back(0);
    }
    auto s = w->t->DcfBatch(*m.dcf, keys, mode, pts).status();
    if (s.code() != absl::StatusCode::kInvalidArgument) Violate("dcf-bad-argument", "bad batch: %s", s.ToString().c_str());
    return;
  }
  absl::StatusOr<Flat> r = absl::InternalError("");
  auto s = attempt([&] { return (r = w->t->DcfBatch(*m.dcf, keys, mode, pts)).status(); });
  Log("batch %d mode %d simd %d: %s", k, mode, m.node->simd, StatusStr(s).c_str());
  if (!s.ok()) Violate("dcf-refused", "BatchEvaluate of %d refused (log %d, %s): %s", k, w->log, w->t->name.c_str(), s.ToString().c_str());
  if (r->size() != k * nl) Violate("dcf-size", "%zu values for %d keys", r->size() / nl, k);
  for (int i = 0; i < k; i++) w->Record(who[i].first, who[i].second, pts[i], Slice(*r, i, nl), "BatchEvaluate");
  State(Mix(Mix(2, w->log), Mix(k > 64, m.node->simd)));
}
}  // namespace

SCENARIO(P18, compare, 10) {
  auto st = std::make_shared<Stream>(18);
  auto w = std::make_shared<DcfWorld>();
  switch (Draw(3)) {
    case 0: w->log = 1 + Draw(8); break;
    case 1: w->log = 1 + Draw(128); break;
    case 2: w->log = 128 - Draw(3); break;
  }
  bool sec = Chance(1, 4);
  do w->t = Types()[Draw(Types().size())];
  while (!sec && w->t->max_domain < w->log);
  w->params.mutable_parameters()->set_log_domain_size(w->log);
  *w->params.mutable_parameters()->mutable_value_type() = w->t->vt;
  if (sec) w->params.mutable_parameters()->set_security_parameter(30);
  w->faults = Draw(3);
  Log("log %d type %s", w->log, w->t->name.c_str());
  Node* dealer = NewNode("dealer");
  dealer->simd = Draw(SimdTargets());
  {
    NodeScope ns(dealer);
    auto dcf = w->Open();
    int np = 1 + Draw(3);
    for (int i = 0; i < np; i++) {
      DcfPair p;
      p.alpha = Rand128(*st, w->log);
      switch (Draw(5)) {
        case 1: p.alpha = 0; break;
        case 2: p.alpha = MaxOf(w->log); break;
        case 3: p.alpha = Pow2(Draw(w->log)); break;
      }
      p.beta = RandomLeaves(*w->t, *st, Draw(4));
      if (w->log < 128 && Chance(1, 10)) {
        NonTrivial();
        Count("fault:bad-argument");
        auto bad = w->t->DcfGen(*dcf, BeyondDomain(*st, w->log, p.alpha), p.beta.data());
        if (bad.status().code() != absl::StatusCode::kInvalidArgument) Violate("dcf-bad-argument", "threshold outside the domain: %s", bad.status().ToString().c_str());
      }
      absl::StatusOr<std::pair<d::DcfKey, d::DcfKey>> k = absl::InternalError("");
      OddEntropy odd(Chance(1, 4));
      for (int j = 0;; j++) {
        CallFault cf(dealer, w->faults && j < 2 && Chance(w->faults, 6));
        k = w->t->DcfGen(*dcf, p.alpha, p.beta.data());
        if (k.ok() || !cf.fired()) break;
        cf.Check(k.status(), "GenerateKeys");
        NonTrivial();
      }
      if (!k.ok()) Violate("dcf-gen", "key generation failed (log %d, %s): %s", w->log, w->t->name.c_str(), k.status().ToString().c_str());
      p.key[0] = k->first.SerializeAsString();
      p.key[1] = k->second.SerializeAsString();
      w->pairs.push_back(p);
    }
  }
  int nm = 1 + Draw(4);
  if (nm > 1) NonTrivial();
  for (int i = 0; i < nm; i++) {
    Node* n = NewNode("machine");
    n->simd = Draw(SimdTargets());
    NodeScope ns(n);
    w->machines.push_back({n, w->Open()});
  }
  int tasks = 1 + Draw(2);
  for (int t = 0; t < tasks; t++) {
    int ops = 1 + Draw(8);
    Spawn("worker", dealer, [=] {
      for (int i = 0; i < ops; i++) {
        Span sp;
        DcfOp(w.get(), *st);
        Yield();
      }
    });
  }
  RunAll();
}

// A deployment asks for a security level: either it is met or refused.
SCENARIO(P18, security, 1) {
  const DpfType* t;
  do t = Types()[Draw(Types().size())];
  while (t->max_domain == 128);
  int log = 1 + Draw(40);
  double levels[] = {1, 20, 50, 60, 80, 100, 120, 128};
  double sec = levels[Draw(8)];
  d::DcfParameters p;
  p.mutable_parameters()->set_log_domain_size(log);
  *p.mutable_parameters()->mutable_value_type() = t->vt;
  p.mutable_parameters()->set_security_parameter(sec);
  // A point function over the same values is the yardstick.
  std::vector<d::DpfParameters> one = {p.parameters()};
  one[0].set_log_domain_size(1);
  bool possible = d::DistributedPointFunction::CreateIncremental(one).ok();
  bool got = d::DistributedComparisonFunction::Create(p).ok();
  Log("type %s log %d security %.0f possible %d got %d", t->name.c_str(), log, sec, possible, got);
  NonTrivial();
  if (got != possible)
    Violate("dcf-security", "security parameter %.0f for %s (log %d) was %s although it %s be met", sec, t->name.c_str(), log, got ? "accepted" : "refused",
            possible ? "can" : "cannot");
}

// ------------------------------------------------------------------- P19
namespace {
namespace g = d::fss_gates;
typedef std::unique_ptr<g::MultipleIntervalContainmentGate> GatePtr;
void SetInt(d::Value::Integer* v, U128 x, bool as64) {
  if (as64 && absl::Uint128High64(x) == 0) {
    v->set_value_uint64(absl::Uint128Low64(x));
  } else {
    v->mutable_value_uint128()->set_high(absl::Uint128High64(x));
    v->mutable_value_uint128()->set_low(absl::Uint128Low64(x));
  }
}
struct MicPair {
  U128 r_in;
  std::vector<U128> r_out;
  std::string key[2];
};
struct MicWorld {
  int log;
  g::MicParameters params;
  std::vector<std::pair<U128, U128>> iv;
  std::vector<MicPair> pairs;
  struct Machine {
    Node* node;
    GatePtr gate;
  };
  std::vector<Machine> machines;
  std::map<std::pair<int, U128>, std::vector<U128>> share[2];
  unsigned faults = 0;
  GatePtr Open() {
    g::MicParameters p;
    SIM_ASSERT(p.ParseFromString(params.SerializeAsString()));
    absl::StatusOr<GatePtr> r = absl::InternalError("");
    for (int i = 0;; i++) {
      CallFault cf(CurNode(), faults && i < 2 && Chance(faults, 8));
      r = g::MultipleIntervalContainmentGate::Create(p);
      if (r.ok() || !cf.fired()) break;
      cf.Check(r.status(), "Create");
    }
    if (!r.ok()) Violate("mic-create", "valid parameters refused: %s", r.status().ToString().c_str());
    return std::move(*r);
  }
  void Record(int pair, int party, U128 x, const std::vector<U128>& v) {
    auto key = std::make_pair(pair, x);
    auto it = share[party].emplace(key, v);
    if (!it.second && it.first->second != v) Violate("mic-unstable", "another evaluation of the same key at %s gave another share", Show(x).c_str());
    for (U128 y : v)
      if (y > MaxOf(log)) Violate("mic-range", "share %s is outside the group 2^%d", Show(y).c_str(), log);
    auto other = share[1 - party].find(key);
    if (other == share[1 - party].end()) return;
    const MicPair& p = pairs[pair];
    U128 real = (x - p.r_in) & MaxOf(log);
    for (size_t j = 0; j < iv.size(); j++) {
      U128 got = (v[j] + other->second[j] - p.r_out[j]) & MaxOf(log);
      U128 want = iv[j].first <= real && real <= iv[j].second ? 1 : 0;
      if (got != want)
        Violate("mic-sum", "interval [%s,%s] in 2^%d, input %s (mask %s): output opens to %s instead of %s", Show(iv[j].first).c_str(),
                Show(iv[j].second).c_str(), log, Show(real).c_str(), Show(p.r_in).c_str(), Show(got).c_str(), Show(want).c_str());
    }
  }
};
g::MicKey LoadMic(const std::string& s) {
  g::MicKey k;
  SIM_ASSERT(k.ParseFromString(s));
  return k;
}
U128 DrawElement(Stream& st, int log) {
  switch (Draw(6)) {
    case 0: return 0;
    case 1: return MaxOf(log);
    case 2: return MaxOf(log) - 1;
    case 3: return 1;
    case 4: return Pow2(log - 1) - Draw(2);
    default: return Rand128(st, log);
  }
}
void MicOp(MicWorld* w, Stream& st) {
  auto& m = w->machines[Draw(w->machines.size())];
  NodeScope ns(m.node);
  if (Chance(1, 10)) {
    Count("fault:crash-restart");
    NonTrivial();
    m.node->simd = Draw(SimdTargets());
    ApplySimd();
    m.gate = w->Open();
  }
  int k = std::min(DrawCount(40), w->log > 40 ? 20 : 40);
  if (w->iv.size() > 6) k = std::min<int>(k, 2 + 100 / w->iv.size());
  std::vector<g::MicKey> keys;
  std::vector<std::pair<int, int>> who;
  std::vector<U128> pts;
  for (int i = 0; i < k; i++) {
    int q = st.Below(w->pairs.size()), b = st.Below(2);
    if (i && st.Below(2)) {
      q = who.back().first;
      b = 1 - who.back().second;
      pts.push_back(pts.back());
    } else {
      U128 real = Rand128(st, w->log);
      if (!w->iv.empty() && st.Below(4)) {  // near an interval's end
        auto& in = w->iv[st.Below(w->iv.size())];
        real = (st.Below(2) ? in.first : in.second) + st.Below(3) - 1;
      }
      U128 x = (real + w->pairs[q].r_in) & MaxOf(w->log);
      if (st.Below(6) == 0) x = st.Below(2) ? MaxOf(w->log) : U128(st.Below(2));
      pts.push_back(x);
    }
    who.emplace_back(q, b);
    keys.push_back(LoadMic(w->pairs[q].key[b]));
  }
  bool bad = Chance(1, 12);
  if (bad) {
    Count("fault:bad-argument");
    NonTrivial();
    if (size_t at = k ? st.Below(k) : 0; k && Chance(1, 2)) pts[at] = BeyondDomain(st, w->log, pts[at]);
    else pts.push_back(0);
  }
  bool ptrs = Chance(1, 2), single = k == 1 && Chance(1, 2) && pts.size() == 1;
  std::vector<const g::MicKey*> pk;
  for (auto& x : keys) pk.push_back(&x);
  absl::StatusOr<std::vector<U128>> r = absl::InternalError("");
  for (int i = 0;; i++) {
    CallFault af(m.node, w->faults && !bad && i < 3 && Chance(w->faults, 6));
    r = single ? m.gate->Eval(keys[0], pts[0]) : ptrs ? m.gate->BatchEval(absl::MakeConstSpan(pk), pts) : m.gate->BatchEval(absl::MakeConstSpan(keys), pts);
    if (r.ok() || !af.fired()) break;
    af.Check(r.status(), "call");
    NonTrivial();
    Yield();
  }
  Log("eval keys %d bad %d simd %d: %s", k, bad, m.node->simd, StatusStr(r.status()).c_str());
  if (bad) {
    if (r.status().code() != absl::StatusCode::kInvalidArgument) Violate("mic-bad-argument", "bad batch: %s", r.status().ToString().c_str());
    return;
  }
  if (!r.ok()) Violate("mic-refused", "evaluation refused: %s", r.status().ToString().c_str());
  if (r->size() != k * w->iv.size()) Violate("mic-size", "%zu results for %d keys and %zu intervals", r->size(), k, w->iv.size());
  for (int i = 0; i < k; i++)
    w->Record(who[i].first, who[i].second, pts[i], std::vector<U128>(r->begin() + i * w->iv.size(), r->begin() + (i + 1) * w->iv.size()));
  State(Mix(w->log, Mix(k, w->iv.size())));
}
}  // namespace

SCENARIO(P19, gates, 10) {
  auto st = std::make_shared<Stream>(19);
  auto w = std::make_shared<MicWorld>();
  switch (Draw(4)) {
    case 0: w->log = 1 + Draw(6); break;
    case 1: w->log = 127 - Draw(2); break;
    case 2: w->log = 60 + Draw(10); break;
    case 3: w->log = 1 + Draw(127); break;
  }
  w->params.set_log_group_size(w->log);
  int ni = Draw(5) == 4 ? 0 : 1 + Draw(6);
  if (Chance(1, 10)) ni = 7 + Draw(w->log <= 10 ? 250 : w->log <= 30 ? 60 : 20);
  bool as64 = Chance(1, 2);
  for (int i = 0; i < ni; i++) {
    U128 a = DrawElement(*st, w->log) & MaxOf(w->log), b = DrawElement(*st, w->log) & MaxOf(w->log);
    if (Chance(1, 5)) b = a;
    if (a > b) std::swap(a, b);
    w->iv.emplace_back(a, b);
    auto* in = w->params.add_intervals();
    SetInt(in->mutable_lower_bound(), a, as64);
    SetInt(in->mutable_upper_bound(), b, as64);
  }
  if (Chance(1, 10)) {  // refused parameters
    NonTrivial();
    Count("fault:bad-argument");
    g::MicParameters p = w->params;
    auto* in = p.add_intervals();
    SetInt(in->mutable_lower_bound(), 0, as64);
    SetInt(in->mutable_upper_bound(), 1, as64);
    const char* what = "";
    switch (Draw(6)) {
      case 0: p.set_log_group_size(128 + Draw(3)), what = "group too large"; break;
      case 1: p.set_log_group_size(-1 - (int)Draw(3)), what = "negative group"; break;
      case 2: SetInt(in->mutable_upper_bound(), Pow2(w->log), as64), what = "upper bound outside the group"; break;
      case 3: SetInt(in->mutable_lower_bound(), 1, as64), SetInt(in->mutable_upper_bound(), 0, as64), what = "bounds swapped"; break;
      case 4: in->clear_upper_bound(), what = "no upper bound"; break;
      case 5: in->mutable_lower_bound()->clear_value(), in->clear_lower_bound(), what = "no lower bound"; break;
    }
    auto r = g::MultipleIntervalContainmentGate::Create(p);
    if (r.ok()) Violate("mic-bad-argument", "parameters accepted: %s", what);
    if (r.status().code() != absl::StatusCode::kInvalidArgument) Violate("mic-bad-argument", "%s: %s", what, r.status().ToString().c_str());
  }
  w->faults = Draw(3);
  Log("log %d intervals %d", w->log, ni);
  Node* dealer = NewNode("dealer");
  dealer->record_rand = true;
  {
    NodeScope ns(dealer);
    dealer->simd = Draw(SimdTargets());
    ApplySimd();
    auto gate = w->Open();
    int np = 1 + Draw(3);
    bool odd_entropy = Chance(1, 4);
    for (int i = 0; i < np; i++) {
      MicPair p;
      p.r_in = DrawElement(*st, w->log) & MaxOf(w->log);
      for (int j = 0; j < ni; j++) p.r_out.push_back(DrawElement(*st, w->log) & MaxOf(w->log));
      if (Chance(1, 10)) {
        NonTrivial();
        Count("fault:bad-argument");
        U128 rin = p.r_in;
        auto rout = p.r_out;
        if (Chance(1, 3) || (rout.empty() && Chance(1, 2))) rin = Pow2(w->log);
        else if (rout.empty() || Chance(1, 2)) rout.push_back(0);
        else rout[Draw(rout.size())] = Pow2(w->log);
        auto bad = gate->Gen(rin, rout);
        if (bad.status().code() != absl::StatusCode::kInvalidArgument) Violate("mic-bad-argument", "bad masks: %s", bad.status().ToString().c_str());
      }
      // Entropy that fails while a key is made.  Which of the draws become mask
      // shares is found out by making the same key with one draw inverted: a
      // share changes and the comparison key does not.
      if (ni && Chance(1, 4)) {
        uint64_t calls = dealer->rng_calls, at[4];
        std::copy(dealer->rng, dealer->rng + 4, at);
        auto clean = gate->Gen(p.r_in, p.r_out);
        if (!clean.ok()) Violate("mic-gen", "key generation failed: %s", clean.status().ToString().c_str());
        int64_t f = Draw(std::max<uint64_t>(1, dealer->rng_calls - calls));
        std::copy(at, at + 4, dealer->rng);
        dealer->rng_flip_after = f;
        auto flipped = gate->Gen(p.r_in, p.r_out);
        dealer->rng_flip_after = -1;
        if (!flipped.ok()) Violate("mic-gen", "key generation failed: %s", flipped.status().ToString().c_str());
        bool shares = false;
        for (int j = 0; j < ni; j++)
          if (clean->first.output_mask_share(j).SerializeAsString() != flipped->first.output_mask_share(j).SerializeAsString()) shares = true;
        if (clean->first.dcfkey().SerializeAsString() != flipped->first.dcfkey().SerializeAsString()) shares = false;
        std::copy(at, at + 4, dealer->rng);
        dealer->rng_fail_after = f;
        dealer->rng_fail_forever = shares && Chance(1, 2);
        auto r = gate->Gen(p.r_in, p.r_out);
        bool failed = dealer->rng_failures > 0;
        dealer->rng_failures = 0;
        dealer->rng_fail_after = -1;
        dealer->rng_fail_forever = false;
        NonTrivial();
        Log("gen with failing entropy (draw %d, a share: %d): %s", (int)f, shares, StatusStr(r.status()).c_str());
        if (failed && shares && r.ok()) Violate("mic-entropy", "a key was generated although the entropy source failed");
        if (failed && shares && r.status().code() != absl::StatusCode::kInternal) Violate("mic-entropy", "failing entropy reported as %s", r.status().ToString().c_str());
      }
      size_t draws = dealer->rand_log.size();
      absl::StatusOr<std::pair<g::MicKey, g::MicKey>> k = absl::InternalError("");
      OddEntropy odd(odd_entropy);
      for (int j = 0;; j++) {
        CallFault cf(dealer, w->faults && j < 2 && Chance(w->faults, 6));
        draws = dealer->rand_log.size();
        k = gate->Gen(p.r_in, p.r_out);
        if (k.ok() || !cf.fired()) break;
        cf.Check(k.status(), "Gen");
        NonTrivial();
      }
      if (!k.ok()) Violate("mic-gen", "key generation failed: %s", k.status().ToString().c_str());
      std::string fresh;
      for (size_t q = draws; q < dealer->rand_log.size(); q++) fresh += dealer->rand_log[q];
      if ((int)fresh.size() < 32 + ni * ((w->log + 7) / 8))
        Violate("mic-entropy", "only %zu bytes of entropy went into a key with %d intervals in 2^%d", fresh.size(), ni, w->log);
      if (k->first.output_mask_share_size() != ni || k->second.output_mask_share_size() != ni)
        Violate("mic-gen", "key has %d mask shares for %d intervals", k->first.output_mask_share_size(), ni);
      p.key[0] = k->first.SerializeAsString();
      p.key[1] = k->second.SerializeAsString();
      // Large random shares repeat only if their randomness does.
      if (w->log >= 60 && !odd_entropy) {
        for (auto& old : w->pairs)
          for (int a = 0; a < ni; a++)
            for (int b = 0; b < ni; b++)
              if (LoadMic(old.key[0]).output_mask_share(a).SerializeAsString() == k->first.output_mask_share(b).SerializeAsString())
                Violate("mic-fresh", "two keys carry the same mask share");
        for (int a = 0; a < ni; a++)
          for (int b = 0; b < a; b++)
            if (k->first.output_mask_share(a).SerializeAsString() == k->first.output_mask_share(b).SerializeAsString())
              Violate("mic-fresh", "two intervals of one key carry the same mask share");
      }
      w->pairs.push_back(p);
    }
  }
  int nm = 1 + Draw(4);
  if (nm > 1) NonTrivial();
  for (int i = 0; i < nm; i++) {
    Node* n = NewNode("machine");
    n->simd = Draw(SimdTargets());
    NodeScope ns(n);
    w->machines.push_back({n, w->Open()});
  }
  int tasks = 1 + Draw(2);
  for (int t = 0; t < tasks; t++) {
    int ops = 1 + Draw(6);
    Spawn("worker", dealer, [=] {
      for (int i = 0; i < ops; i++) {
        Span sp;
        MicOp(w.get(), *st);
        Yield();
      }
    });
  }
  RunAll();
}
}  // namespace sim
