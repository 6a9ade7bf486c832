#include "dpf_world.h"

#include "pir_world.h"

namespace sim {
std::string DpfSetup::Describe() const {
  std::string r;
  for (int i = 0; i < levels(); i++) r += (i ? " " : "") + std::to_string(logs[i]) + ":" + types[i]->name;
  return r;
}
DpfSetup DrawDpfSetup(const DpfOpts& o) {
  DpfSetup s;
  int n = 1;
  switch (Draw(4)) {
    case 0: n = Range(1, o.max_levels); break;
    case 1: n = 1; break;
    case 2: n = Range(1, 3); break;
    case 3: n = Range(2, std::max(2, o.max_levels)); break;
  }
  n = std::min(n, o.max_levels);
  switch (Draw(6)) {
    case 0: {  // small steps
      int l = Draw(8);
      for (int i = 0; i < n && l <= o.max_log; i++, l += 1 + Draw(4)) s.logs.push_back(l);
      break;
    }
    case 1: {  // every level, as comparison functions do
      int l = Draw(4), k = o.max_levels == 1 ? 1 : Range(2, 40);
      for (int i = 0; i < k && l <= o.max_log; i++, l++) s.logs.push_back(l);
      break;
    }
    case 2: {  // anywhere
      std::vector<bool> on(o.max_log + 1);
      for (int i = 0; i < n; i++) on[Draw(o.max_log + 1)] = true;
      for (int l = 0; l <= o.max_log; l++)
        if (on[l]) s.logs.push_back(l);
      break;
    }
    case 3: {  // up to the largest domain
      int l = o.max_log;
      for (int i = 0; i < n && l >= 0; i++, l -= 1 + Draw(10)) s.logs.insert(s.logs.begin(), l);
      break;
    }
    case 5: {  // far apart, around the widest steps
      int a = Draw(4), b = Chance(1, 2) ? 128 - (int)Draw(4) : a + 61 + (int)Draw(5);
      s.logs.push_back(a);
      if (o.max_levels > 2 && Chance(1, 3)) s.logs.push_back(a + 1 + Draw(b - a - 1));
      s.logs.push_back(b);
      while (!s.logs.empty() && s.logs.back() > o.max_log) s.logs.pop_back();
      if (o.max_levels == 1 && s.logs.size() > 1) s.logs = {s.logs.back()};
      break;
    }
    case 4: {  // medium
      int l = Draw(12);
      for (int i = 0; i < n && l <= o.max_log; i++, l += 1 + Draw(9)) s.logs.push_back(l);
      break;
    }
  }
  if (s.logs.empty()) s.logs.push_back(Draw(o.max_log + 1));
  bool explicit_sec = o.any_security && Chance(1, 4);
  auto pick = [&](int log) {
    for (int t = 0;; t++) {
      const DpfType* ty = t > 40 ? Types()[0] : Types()[Draw(Types().size())];
      if (explicit_sec || ty->max_domain >= log) return ty;
    }
  };
  const DpfType* one = pick(s.logs.back());
  bool same = o.same_type || Chance(1, 2);
  for (int l : s.logs) {
    s.types.push_back(same ? one : pick(l));
    d::DpfParameters p;
    p.set_log_domain_size(l);
    *p.mutable_value_type() = s.types.back()->vt;
    if (explicit_sec) p.set_security_parameter(30);
    s.params.push_back(p);
  }
  return s;
}
std::unique_ptr<d::DistributedPointFunction> OpenDpf(const DpfSetup& s, bool register_types, int fault) {
  // Each party reads the parameters from its own copy of the configuration.
  std::vector<d::DpfParameters> ps;
  for (auto& p : s.params) {
    ps.emplace_back();
    SIM_ASSERT(ps.back().ParseFromString(p.SerializeAsString()));
  }
  auto open = [&](int attempt) {
    CallFault cf(CurNode(), fault && attempt < 2 && Chance(1, fault));
    auto r = d::DistributedPointFunction::CreateIncremental(ps);
    if (!r.ok() && cf.fired()) cf.Check(r.status(), "CreateIncremental");
    return std::make_pair(std::move(r), cf.fired());
  };
  auto [r, fired] = open(0);
  for (int i = 1; !r.ok() && fired; i++) std::tie(r, fired) = open(i);
  if (!r.ok()) Violate("dpf-create", "valid parameters refused (%s): %s", s.Describe().c_str(), StatusStr(r.status()).c_str());
  if (register_types)
    for (auto* t : s.types)
      if (!t->Register(**r).ok()) Violate("dpf-register", "value type %s refused", t->name.c_str());
  return std::move(*r);
}
DpfPair DealDpf(const DpfSetup& s, d::DistributedPointFunction* dpf, Stream& st, int fault) {
  DpfPair p;
  int top = s.logs.back();
  switch (Draw(4)) {
    case 1: p.alpha = 0; break;
    case 2: p.alpha = MaxOf(top); break;
    default: p.alpha = top == 0 ? U128(0) : Rand128(st, top); break;
  }
  int mode = Draw(5);
  for (auto* t : s.types) p.betas.push_back(RandomLeaves(*t, st, mode == 4 ? Draw(4) : mode));
  absl::StatusOr<std::pair<d::DpfKey, d::DpfKey>> keys = absl::InternalError("");
  // The same thing can be said in several ways.
  std::vector<d::Value> v;
  for (int i = 0; i < s.levels(); i++) v.push_back(s.types[i]->MakeValue(p.betas[i].data()));
  bool ints = true;
  std::vector<U128> plain;
  for (int i = 0; i < s.levels(); i++) {
    auto& t = *s.types[i];
    ints = ints && t.vt.has_integer() && t.leaves.size() == 1 && !t.leaves[0].xored && t.leaves[0].mod == 0;
    plain.push_back(p.betas[i][0]);
  }
  // Correct for whatever the entropy source says, be it as unlikely as all ones.
  OddEntropy odd(Chance(1, 4));
  int how = Draw(ints ? 4 : 2);
  if (s.levels() > 1 && !(how & 2)) how = 1;
  for (int attempt = 0;; attempt++) {
    CallFault cf(CurNode(), fault && attempt < 2 && Chance(1, fault));
    switch (how) {
      case 0: keys = s.types[0]->Gen(*dpf, p.alpha, p.betas[0].data()); break;
      case 1:
        keys = s.levels() == 1 && Chance(1, 2) ? dpf->GenerateKeys(p.alpha, v[0]) : dpf->GenerateKeysIncremental(p.alpha, absl::MakeConstSpan(v));
        break;
      case 2: keys = s.levels() == 1 ? dpf->GenerateKeys(p.alpha, plain[0]) : dpf->GenerateKeysIncremental(p.alpha, plain); break;
      case 3: keys = dpf->GenerateKeysIncremental(p.alpha, plain); break;
    }
    if (keys.ok() || !cf.fired()) break;
    cf.Check(keys.status(), "GenerateKeys");
    NonTrivial();
  }
  if (!keys.ok()) Violate("dpf-gen", "key generation for valid input failed (%s): %s", s.Describe().c_str(), StatusStr(keys.status()).c_str());
  if (keys->first.party() != 0 || keys->second.party() != 1) Violate("dpf-gen", "keys carry wrong party numbers");
  p.key[0] = keys->first.SerializeAsString();
  p.key[1] = keys->second.SerializeAsString();
  return p;
}
d::DpfKey LoadKey(const std::string& bytes) {
  d::DpfKey k;
  SIM_ASSERT(k.ParseFromString(bytes));
  return k;
}
Flat DpfExpect(const DpfSetup& s, const DpfPair& p, int level, U128 x) {
  if (x == Shr(p.alpha, s.logs.back() - s.logs[level])) return p.betas[level];
  return Flat(s.types[level]->leaves.size(), U128(0));
}
Flat AddLeaves(const DpfType& t, const Flat& a, const Flat& b) {
  Flat r;
  for (size_t i = 0; i < t.leaves.size(); i++) r.push_back(LeafAdd(t.leaves[i], a[i], b[i]));
  return r;
}
std::string ShowFlat(const Flat& f) {
  std::string r = "(";
  for (size_t i = 0; i < f.size() && i < 8; i++) r += (i ? "," : "") + Show(f[i]);
  return r + ")";
}
U128 BeyondDomain(Stream& st, int log, U128 inside) {
  switch (Draw(6)) {
    case 0: return inside | Pow2(log + Draw(128 - log));
    case 1: return inside | Shl(Rand128(st, 64) | 1, std::max(log, 64));
    case 2: return absl::Uint128Max() - Draw(2) * (Pow2(log) - 1);
    default: return Pow2(log) + st.Below(3);
  }
}
U128 DrawPoint(Stream& st, int log, U128 hot) {
  U128 m = MaxOf(log), r;
  switch (st.Below(8)) {
    case 0: r = hot; break;
    case 1: r = hot + 1; break;
    case 2: r = hot - 1; break;
    case 3: r = hot ^ Pow2(st.Below(log ? log : 1)); break;
    case 4: r = st.Below(2) ? U128(0) : m; break;
    case 5: {  // shares a long prefix with the hot point
      int k = log ? st.Below(log) : 0;
      r = (hot & ~MaxOf(k)) | (k ? Rand128(st, k) : U128(0));
      break;
    }
    default: r = Rand128(st, 128); break;
  }
  return r & m;
}
int DrawCount(int max) {
  int n;
  switch (Draw(5)) {
    case 0: n = 1 + Draw(4); break;
    case 1: n = 0; break;
    case 2: n = 1 + Draw(33); break;
    case 3: n = (64 << Draw(3)) - 1 + Draw(3); break;
    default: n = 1 + Draw(max); break;
  }
  return std::min(n, max);
}
CallFault::CallFault(Node* node, bool on) : n(node), before(node->alloc_failures), cipher_before(node->cipher_failures) {
  if (!on) return;
  if (Draw(3) < 2) {
    n->alloc_fail_at = n->allocs + 1 + Draw(8);
  } else {
    n->cipher_calls = 0;
    n->cipher_fail_at = 1 + Draw(Chance(1, 2) ? 6 : 100);
  }
}
CallFault::~CallFault() { n->alloc_fail_at = n->cipher_fail_at = 0; }
bool CallFault::fired() const { return n->alloc_failures != before || n->cipher_failures != cipher_before; }
void CallFault::Check(const absl::Status& s, const char* what) const {
  bool alloc = n->alloc_failures != before;
  if (s.code() != (alloc ? absl::StatusCode::kResourceExhausted : absl::StatusCode::kInternal))
    Violate("fault-status", "%s: a failed %s was reported as %s", what, alloc ? "allocation" : "call of the AES provider", s.ToString().c_str());
}
}  // namespace sim
