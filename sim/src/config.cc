// P26: configurations rolled out to a fleet.  Every machine accepts exactly the
// documented parameter sets, keeps serving with the previous one otherwise, and
// machines on equal configurations work together.
#include <cmath>

#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dpf_world.h"
#include "inst_dpf.h"
#include "mutate.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
#include "pir_world.h"
#include "sim.h"

namespace sim {
namespace {
namespace g = d::fss_gates;

// ---------------------------------------------- the documented rules
// What a configuration is worth.  kUnsure: the documentation does not say.
enum Verdict { kOk, kInvalid, kUnimplemented, kInvalidOrUnimplemented, kUnsure };
const char* kVerdictName[] = {"valid", "invalid", "unimplemented", "invalid or unimplemented", "unclear"};
struct Rules {
  bool invalid = false, unimplemented = false, unsure = false;
  Verdict Get() const {
    if (unsure && !invalid) return kUnsure;
    if (unsure) return unimplemented ? kInvalidOrUnimplemented : kInvalid;
    if (invalid && unimplemented) return kInvalidOrUnimplemented;
    return invalid ? kInvalid : unimplemented ? kUnimplemented : kOk;
  }
};
bool IntegerOf(const d::Value::Integer& i, U128* x) {
  if (i.has_value_uint64()) *x = i.value_uint64();
  else if (i.has_value_uint128()) *x = absl::MakeUint128(i.value_uint128().high(), i.value_uint128().low());
  else return false;
  return true;
}
bool GoodBits(int b) { return b == 1 || b == 2 || b == 4 || b == 8 || b == 16 || b == 32 || b == 64 || b == 128; }
double Reach(int n, U128 modulus) { return 131 - std::log2((double)modulus) - std::log2((double)n) - std::log2((double)n + 1); }
void CheckType(const d::ValueType& t, double sec, Rules* r, int* leaves, bool nested) {
  auto reach = [&](int n, U128 modulus) {
    double level = Reach(n, modulus);
    if (std::abs(level - sec) < 1e-6) r->unsure = true;
    else if (sec > level) r->invalid = true;
  };
  switch (t.type_case()) {
    case d::ValueType::kInteger:
      if (!GoodBits(t.integer().bitsize())) r->invalid = true;
      ++*leaves;
      return;
    case d::ValueType::kXorWrapper:
      if (!GoodBits(t.xor_wrapper().bitsize())) r->invalid = true;
      ++*leaves;
      return;
    case d::ValueType::kIntModN:
    case d::ValueType::kTuple: break;
    default: r->invalid = true; return;
  }
  auto modulus = [&](const d::ValueType& m, U128* n) {
    int bits = m.int_mod_n().base_integer().bitsize();
    if (!GoodBits(bits) || !IntegerOf(m.int_mod_n().modulus(), n)) {
      r->invalid = true;
      return false;
    }
    if (*n == 0) r->unsure = true;
    if (bits < 128 && *n >= Pow2(bits)) r->invalid = true;
    return true;
  };
  if (t.has_int_mod_n()) {
    ++*leaves;
    U128 n;
    if (modulus(t, &n)) reach(1, n);
    return;
  }
  int mods = 0, others = 0, bits = 0;
  U128 first = 0;
  if (nested && t.tuple().elements_size() == 0) r->unsure = true;
  for (auto& e : t.tuple().elements()) {
    if (!e.has_int_mod_n()) {
      others++;
      continue;
    }
    U128 n = 0;
    ++*leaves;
    int b = e.int_mod_n().base_integer().bitsize();
    modulus(e, &n);
    if (mods++ == 0) {
      first = n;
      bits = b;
    } else if (n != first || b != bits) {
      r->unimplemented = true;
    }
  }
  for (auto& e : t.tuple().elements())
    if (!e.has_int_mod_n()) CheckType(e, sec + std::log2((double)others), r, leaves, true);
  if (mods && !r->invalid) reach(mods, first);
}
Verdict JudgeDpf(const std::vector<d::DpfParameters>& ps) {
  Rules r;
  if (ps.empty()) return kInvalid;
  int prev = -1;
  for (auto& p : ps) {
    int l = p.log_domain_size();
    if (l < 0 || l > 128 || l <= prev) r.invalid = true;
    prev = l;
    double s = p.security_parameter();
    if (!(s >= 0 && s <= 128)) r.invalid = true;
    if (s == 0) s = 40.0 + l;
    int leaves = 0;
    if (!p.has_value_type()) r.invalid = true;
    else CheckType(p.value_type(), s, &r, &leaves, false);
    if (leaves == 0) r.invalid = true;
  }
  return r.Get();
}
Verdict JudgeDcf(const d::DcfParameters& c) {
  int n = c.parameters().log_domain_size();
  if (n < 1 || n > 128) return kInvalid;
  std::vector<d::DpfParameters> ps(n, c.parameters());
  for (int i = 0; i < n; i++) ps[i].set_log_domain_size(i);
  return JudgeDpf(ps);
}
Verdict JudgeMic(const g::MicParameters& m) {
  int n = m.log_group_size();
  if (n < 0 || n > 127) return kInvalid;
  for (auto& i : m.intervals()) {
    U128 p, q;
    if (!i.has_lower_bound() || !i.has_upper_bound() || !IntegerOf(i.lower_bound(), &p) || !IntegerOf(i.upper_bound(), &q)) return kInvalid;
    if (p > MaxOf(n) || q > MaxOf(n) || p > q) return kInvalid;
  }
  return n == 0 ? kUnsure : kOk;
}
void CheckVerdict(const char* what, Verdict want, const absl::Status& got, const google::protobuf::Message& m) {
  auto c = got.code();
  bool inv = c == absl::StatusCode::kInvalidArgument, un = c == absl::StatusCode::kUnimplemented;
  bool fits = false;
  switch (want) {
    case kOk: fits = got.ok(); break;
    case kInvalid: fits = inv; break;
    case kUnimplemented: fits = un; break;
    case kInvalidOrUnimplemented: fits = inv || un; break;
    case kUnsure: fits = got.ok() || inv || un; break;
  }
  Count((std::string("verdict:") + what + ":" + kVerdictName[want]).c_str());
  if (!fits) Violate("config-verdict", "a %s configuration that is %s: %s\n%s", what, kVerdictName[want], got.ToString().c_str(), m.ShortDebugString().substr(0, 1500).c_str());
}

// ------------------------------------------------------------ roll-out
// Delivers `versions` pushes to `machines` over a lossy network, with crashes
// and work in between.
struct Fleet {
  int machines, versions;
  std::function<bool(int machine, int version)> install;  // false: refused
  std::function<void(int machine)> restart;
  std::function<void()> work;
  void Run() {
    std::vector<std::pair<int, int>> net;
    std::vector<std::vector<int>> said(versions, std::vector<int>(machines, -1));
    for (int v = 0; v < versions; v++)
      for (int m = 0; m < machines; m++) net.push_back({m, v});
    bool ordered = Chance(1, 2);
    while (!net.empty()) {
      Span sp;
      size_t i = ordered ? 0 : Draw(net.size());
      auto [m, v] = net[i];
      int what = Draw(12);
      if (what == 8) {
        Count("fault:crash");
        restart(m);
      } else if (what == 9 && net.size() > 1) {
        Count("fault:loss");
        if (v + 1 < versions && Chance(1, 2)) net.erase(net.begin() + i);  // never arrives
      } else {
        bool dup = what == 10;
        if (dup) Count("fault:duplicate");
        else net.erase(net.begin() + i);
        bool ok = install(m, v);
        for (int o = 0; o < machines; o++)
          if (said[v][o] >= 0 && said[v][o] != int(ok)) Violate("config-split", "machines %d and %d disagree about version %d of the configuration", m, o, v);
        said[v][m] = ok;
      }
      if (Chance(1, 3)) work();
    }
    work();
  }
};
template <class M>
std::vector<std::string> DrawVersions(const std::vector<M>& good, std::function<void(M*)> mistake) {
  std::vector<std::string> bytes;
  for (auto& m : good) bytes.push_back(m.SerializeAsString());
  std::vector<std::string> out = {bytes[0]};
  for (int k = Draw(5); k > 0; k--) {
    Span sp;
    const M& from = good[Draw(good.size())];
    M m = from;
    switch (Draw(4)) {
      case 0: break;
      case 1:
        if (!ReloadDamaged(from.SerializeAsString(), bytes, &m)) m = from;
        break;
      default: mistake(&m);
    }
    out.push_back(m.SerializeAsString());
  }
  return out;
}
const DpfType* KnownType(const d::ValueType& vt) {
  static auto* m = [] {
    auto* r = new std::map<std::string, const DpfType*>;
    for (auto* t : Types()) (*r)[t->vt.SerializeAsString()] = t;
    return r;
  }();
  auto it = m->find(vt.SerializeAsString());
  return it == m->end() ? nullptr : it->second;
}
d::ValueType* AnyLeaf(d::ValueType* t) {
  while (t->has_tuple() && t->tuple().elements_size()) t = t->mutable_tuple()->mutable_elements(Draw(t->tuple().elements_size()));
  return t;
}
// Mistakes an operator or a migration makes in one level.
// A modulus that differs in one half only.
void OtherHalf(d::ValueType* l) {
  U128 n = 0;
  auto* m = l->mutable_int_mod_n()->mutable_modulus();
  IntegerOf(*m, &n);
  n ^= Pow2((l->int_mod_n().base_integer().bitsize() > 64 && Chance(2, 3) ? 64 : 0) + Draw(8));
  m->mutable_value_uint128()->set_high(absl::Uint128High64(n));
  m->mutable_value_uint128()->set_low(absl::Uint128Low64(n));
}
// A part of the type that counts modulo more than 64 bits, or null.
const d::ValueType* WideModulus(const d::ValueType& t) {
  if (t.has_int_mod_n()) return t.int_mod_n().modulus().has_value_uint128() && t.int_mod_n().modulus().value_uint128().high() ? &t : nullptr;
  for (auto& e : t.tuple().elements())
    if (auto* l = WideModulus(e)) return l;
  return nullptr;
}
void TypeMistake(d::ValueType* t) {
  d::ValueType* l = AnyLeaf(t);
  switch (Draw(10)) {
    case 0: l->Clear(); break;
    case 1: {
      static const int kBits[] = {0, -1, 1, 2, 3, 4, 7, 8, 9, 12, 16, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 192, 256, 1 << 30, INT32_MIN, INT32_MAX};
      int b = kBits[Draw(28)];
      if (l->has_int_mod_n()) l->mutable_int_mod_n()->mutable_base_integer()->set_bitsize(b);
      else if (l->has_xor_wrapper()) l->mutable_xor_wrapper()->set_bitsize(b);
      else l->mutable_integer()->set_bitsize(b);
      break;
    }
    case 2: case 3: case 4: {  // a modulus around the limits
      int bits = 8 << Draw(5);
      U128 n;
      switch (Draw(6)) {
        case 0: n = bits == 128 ? absl::Uint128Max() : Pow2(bits); break;
        case 1: n = MaxOf(bits) - Draw(3); break;
        case 2: n = Pow2(Draw(128)); break;
        case 3: n = Pow2(Draw(128)) + 1 + Draw(100); break;
        case 4: n = 1 + Draw(4); break;
        default: n = Pow2(64) + Draw(200); break;
      }
      l->Clear();
      l->mutable_int_mod_n()->mutable_base_integer()->set_bitsize(bits);
      auto* m = l->mutable_int_mod_n()->mutable_modulus();
      if (absl::Uint128High64(n) || Chance(1, 4)) {
        m->mutable_value_uint128()->set_high(absl::Uint128High64(n));
        m->mutable_value_uint128()->set_low(absl::Uint128Low64(n));
      } else {
        m->set_value_uint64(absl::Uint128Low64(n));
      }
      break;
    }
    case 5:
      if (l->has_int_mod_n() && Chance(2, 3)) OtherHalf(l);
      else if (l->has_int_mod_n()) l->mutable_int_mod_n()->clear_modulus();
      else l->mutable_tuple();
      break;
    case 6: {  // one more element
      d::ValueType e = *l;
      if (!t->has_tuple()) {
        *t->mutable_tuple()->add_elements() = e;
        e = t->tuple().elements(0);
      }
      if (Chance(1, 3)) e.mutable_integer()->set_bitsize(8 << Draw(5));
      *t->mutable_tuple()->add_elements() = e;
      break;
    }
    case 7: {  // many elements
      d::ValueType e = *l;
      t->Clear();
      for (int k = 1 + Draw(40); k > 0; k--) *t->mutable_tuple()->add_elements() = e;
      break;
    }
    case 8: {  // nested
      d::ValueType e = *t;
      t->Clear();
      *t->mutable_tuple()->add_elements() = e;
      if (Chance(1, 2)) *t->mutable_tuple()->add_elements() = Types()[Draw(Types().size())]->vt;
      break;
    }
    default: *t = Types()[Draw(Types().size())]->vt; break;
  }
}
// A security parameter around what the type can reach, or around the limits.
double AnySecurity(const d::ValueType& t) {
  int k = Draw(8);
  if (k < 4) {
    int mods = 0;
    U128 n = 0;
    const d::ValueType* m = nullptr;
    if (t.has_int_mod_n()) mods = 1, m = &t;
    for (auto& e : t.tuple().elements())
      if (e.has_int_mod_n()) mods++, m = &e;
    if (m && IntegerOf(m->int_mod_n().modulus(), &n) && n != 0) {
      double r = Reach(mods, n);
      static const double kOff[] = {-1, -0.001, 0.001, 1, -2.5, 2.5};
      return r + kOff[Draw(6)];
    }
  }
  static const double kS[] = {0, 40, 128, 128.25, -0.5, 1, 64, 127.5, NAN, INFINITY, -INFINITY, 1e-3};
  return kS[Draw(12)];
}
void LevelMistake(d::DpfParameters* p) {
  switch (Draw(6)) {
    case 0: p->clear_value_type(); break;
    case 1: {
      static const int kLogs[] = {-1, 0, 1, 2, 63, 64, 65, 126, 127, 128, 129, 200, INT32_MAX, INT32_MIN};
      p->set_log_domain_size(kLogs[Draw(14)]);
      break;
    }
    case 2: p->set_security_parameter(AnySecurity(p->value_type())); break;
    case 3: p->set_log_domain_size(p->log_domain_size() + (Chance(1, 2) ? 1 : -1)); break;
    default: if (p->has_value_type()) TypeMistake(p->mutable_value_type());
  }
}
// The same thing said differently: 0 stands for the default security parameter.
void Rephrase(d::DpfParameters* p) {
  double def = 40.0 + p->log_domain_size();
  if (p->security_parameter() == 0) p->set_security_parameter(def);
  else if (p->security_parameter() == def) p->set_security_parameter(0);
}
// 1: mean the same, 0: do not, -1: too close to call.
int SameMeaning(const d::DpfParameters& a, const d::DpfParameters& b) {
  if (a.log_domain_size() != b.log_domain_size()) return 0;
  auto sec = [](const d::DpfParameters& p) { return p.security_parameter() == 0 ? 40.0 + p.log_domain_size() : p.security_parameter(); };
  std::function<int(const d::ValueType&, const d::ValueType&)> type = [&](const d::ValueType& x, const d::ValueType& y) {
    if (x.type_case() != y.type_case()) return 0;
    if (x.has_integer()) return int(x.integer().bitsize() == y.integer().bitsize());
    if (x.has_xor_wrapper()) return int(x.xor_wrapper().bitsize() == y.xor_wrapper().bitsize());
    if (x.has_int_mod_n()) {
      U128 m = 0, n = 0;
      IntegerOf(x.int_mod_n().modulus(), &m);
      IntegerOf(y.int_mod_n().modulus(), &n);
      return int(m == n && x.int_mod_n().base_integer().bitsize() == y.int_mod_n().base_integer().bitsize());
    }
    if (x.tuple().elements_size() != y.tuple().elements_size()) return 0;
    for (int i = 0; i < x.tuple().elements_size(); i++)
      if (!type(x.tuple().elements(i), y.tuple().elements(i))) return 0;
    return 1;
  };
  if (!type(a.value_type(), b.value_type())) return 0;
  double diff = std::abs(sec(a) - sec(b));
  return diff == 0 ? 1 : diff < 1e-3 ? -1 : 0;
}
}  // namespace

SCENARIO(P26, point_functions, 4) {
  Stream st(26);
  NonTrivial();
  std::vector<d::EvaluationContext> good(1 + Draw(3));
  for (auto& c : good) {
    Span sp;
    DpfOpts o;
    o.max_levels = 4;
    for (auto& p : DrawDpfSetup(o).params) *c.add_parameters() = p;
    if (Chance(1, 10)) {  // a modulus wider than a machine word
      std::vector<const DpfType*> wide;
      for (auto& t : Types())
        if (WideModulus(t->vt)) wide.push_back(t);
      SIM_ASSERT(!wide.empty());
      *c.mutable_parameters(Draw(c.parameters_size()))->mutable_value_type() = wide[Draw(wide.size())]->vt;
    }
  }
  auto versions = DrawVersions<d::EvaluationContext>(good, [](d::EvaluationContext* c) {
    int n = c->parameters_size();
    switch (Draw(9)) {
      case 0:
        if (n) c->mutable_parameters()->DeleteSubrange(Draw(n), 1);
        break;
      case 1:
        if (n) *c->add_parameters() = c->parameters(Draw(n));
        break;
      case 2:
        if (n > 1) c->mutable_parameters()->SwapElements(Draw(n), Draw(n));
        break;
      case 3: case 4:
        for (auto& p : *c->mutable_parameters())
          if (Chance(3, 4)) Rephrase(&p);
        break;
      case 5:
        for (auto& p : *c->mutable_parameters())
          if (auto* l = WideModulus(p.value_type())) {
            OtherHalf(const_cast<d::ValueType*>(l));
            return;
          }
        // fall through
      default:
        if (n) LevelMistake(c->mutable_parameters(Draw(n)));
    }
  });
  struct Machine {
    Node* node;
    std::string disk;  // accepted configuration
    int version = -1;
    std::vector<d::DpfParameters> params;
    std::unique_ptr<d::DistributedPointFunction> dpf;
  };
  int n = 2 + Draw(2);
  std::vector<Machine> m(n);
  for (int i = 0; i < n; i++) m[i].node = NewNode("machine" + std::to_string(i));
  auto read = [](const std::string& s, d::EvaluationContext* c) {
    SIM_ASSERT(c->ParseFromString(s));
    return std::vector<d::DpfParameters>(c->parameters().begin(), c->parameters().end());
  };
  auto setup = [](const std::vector<d::DpfParameters>& ps) {
    DpfSetup s;
    for (auto& p : ps) {
      s.logs.push_back(p.log_domain_size());
      s.params.push_back(p);
      const DpfType* t = KnownType(p.value_type());
      if (t) s.types.push_back(t);
    }
    return s;
  };
  Fleet f;
  f.machines = n;
  f.versions = versions.size();
  f.install = [&](int i, int v) {
    Machine& x = m[i];
    NodeScope ns(x.node);
    d::EvaluationContext c;
    auto ps = read(versions[v], &c);
    auto r = ps.size() == 1 && Chance(1, 2) ? d::DistributedPointFunction::Create(ps[0]) : d::DistributedPointFunction::CreateIncremental(ps);
    CheckVerdict("dpf", JudgeDpf(ps), r.status(), c);
    Log("machine %d, version %d: %s", i, v, r.status().ToString().c_str());
    if (r.ok() && v > x.version) {
      x.version = v;
      x.disk = versions[v];
      x.params = ps;
      x.dpf = std::move(*r);
      for (auto* t : setup(ps).types)
        if (!t->Register(*x.dpf).ok()) Violate("config-register", "value type %s refused", t->name.c_str());
    }
    return r.ok();
  };
  f.restart = [&](int i) {
    Machine& x = m[i];
    if (x.version < 0) return;
    NodeScope ns(x.node);
    d::EvaluationContext c;
    auto ps = read(x.disk, &c);
    auto r = d::DistributedPointFunction::CreateIncremental(ps);
    if (!r.ok()) Violate("config-restart", "the configuration in use is refused after a restart: %s", r.status().ToString().c_str());
    x.dpf = std::move(*r);
    for (auto* t : setup(ps).types) (void)t->Register(*x.dpf);
  };
  f.work = [&] {
    Machine &a = m[Draw(n)], &b = m[Draw(n)];
    if (a.version < 0 || b.version < 0) return;
    DpfSetup sa = setup(a.params), sb = setup(b.params);
    if ((int)sa.types.size() < sa.levels()) return;
    DpfPair keys;
    {
      NodeScope ns(a.node);
      keys = DealDpf(sa, a.dpf.get(), st);
    }
    Count("probe:worked");
    int same = sa.levels() == sb.levels();
    for (int i = 0; same && i < sa.levels(); i++) {
      int s = SameMeaning(a.params[i], b.params[i]);
      if (s <= 0) same = s;
      if (s == 0) break;
    }
    if (Chance(1, 4)) {  // a key that visibly is not one of this configuration
      d::DpfKey k = LoadKey(keys.key[Draw(2)]);
      int words = k.correction_words_size();
      std::vector<int> valued;
      for (int i = 0; i < words; i++)
        if (k.correction_words(i).value_correction_size()) valued.push_back(i);
      const char* what;
      switch (Draw(5)) {
        case 0: k.clear_seed(); what = "no seed"; break;
        case 1: k.clear_last_level_value_correction(); what = "no value correction for the last level"; break;
        case 2: *k.add_correction_words() = words ? k.correction_words(Draw(words)) : d::CorrectionWord(); what = "a correction word too many"; break;
        case 3:
          if (words == 0) return;
          k.mutable_correction_words()->DeleteSubrange(Draw(words), 1);
          what = "a correction word too few";
          break;
        default:
          if (valued.empty()) return;
          k.mutable_correction_words(valued[Draw(valued.size())])->clear_value_correction();
          what = "no value correction for a level";
          break;
      }
      NodeScope ns(a.node);
      Count("fault:unfit-key");
      int level = Draw(sa.levels());
      std::vector<U128> at = {DrawPoint(st, sa.logs[level], 0)};
      auto c = a.dpf->CreateEvaluationContext(k);
      auto r = sa.types[level]->At(*a.dpf, k, level, at);
      for (const absl::Status& s : {c.status(), r.status()})
        if (s.code() != absl::StatusCode::kInvalidArgument)
          Violate("config-key", "a key with %s is not refused (%s): %s", what, sa.Describe().c_str(), s.ToString().c_str());
      return;
    }
    if (sa.logs[0] <= 10 && Chance(1, 4)) {  // a saved context that says something else
      NodeScope ns(a.node);
      auto c = a.dpf->CreateEvaluationContext(LoadKey(keys.key[Draw(2)]));
      if (!c.ok()) Violate("config-context", "no context for a fresh key: %s", c.status().ToString().c_str());
      int l = Draw(sa.levels());
      d::DpfParameters* q = c->mutable_parameters(l);
      d::DpfParameters was = *q;
      std::string what;
      switch (Draw(7)) {
        case 0:
          what = "another security parameter";
          q->set_security_parameter(Chance(1, 2) ? AnySecurity(q->value_type()) : (was.security_parameter() == 0 ? 40.0 + was.log_domain_size() : was.security_parameter()) + (Chance(1, 2) ? 0.01 : -1));
          break;
        case 1:
          what = "another domain";
          q->set_log_domain_size(was.log_domain_size() + (Chance(1, 2) ? 1 : -1));
          break;
        case 2:
          what = "another value type";
          *q->mutable_value_type() = Types()[Draw(Types().size())]->vt;
          break;
        case 3: {
          what = "other levels";
          if (Chance(1, 2)) *c->add_parameters() = was;
          else c->mutable_parameters()->DeleteSubrange(l, 1);
          break;
        }
        case 4: what = "no key"; c->clear_key(); break;
        case 5: what = "nothing left to evaluate"; c->set_previous_hierarchy_level(sa.levels() - 1 + Draw(3)); break;
        default:
          what = "evaluations ahead of its level";
          c->add_partial_evaluations();
          c->set_partial_evaluations_level(c->previous_hierarchy_level() + 1 + Draw(3));
          break;
      }
      if (c->parameters_size() == sa.levels() && what.compare(0, 7, "another") == 0 && SameMeaning(was, c->parameters(l)) != 0) return;
      Count("fault:unfit-context");
      auto r = sa.types[0]->Until(*a.dpf, 0, {}, *c);
      if (r.status().code() != absl::StatusCode::kInvalidArgument)
        Violate("config-context", "a context with %s is not refused (%s): %s", what.c_str(), sa.Describe().c_str(), r.ok() ? "evaluated" : r.status().ToString().c_str());
      return;
    }
    // Party 0 on one machine, party 1 on the other.
    // Whole small levels (which check the context), single points of large ones.
    int level = Draw(sa.levels());
    if (same < 1 || Chance(1, 2)) level = 0;
    bool whole = sa.logs[level] <= 10;
    if (!whole && same < 1) return;
    const DpfType& t = *sa.types[level];
    std::vector<U128> points;
    if (whole)
      for (U128 x = 0; x <= MaxOf(sa.logs[level]); x++) points.push_back(x);
    else
      for (int k = 1 + Draw(4); k > 0; k--) points.push_back(DrawPoint(st, sa.logs[level], Shr(keys.alpha, sa.logs.back() - sa.logs[level])));
    absl::StatusOr<Flat> share[2] = {absl::InternalError(""), absl::InternalError("")};
    for (int p = 0; p < 2; p++) {
      absl::StatusOr<d::EvaluationContext> ctx = absl::InternalError("");
      {  // the context was made on a, and travels with its parameters
        NodeScope ns(a.node);
        ctx = a.dpf->CreateEvaluationContext(LoadKey(keys.key[p]));
        if (!ctx.ok()) Violate("config-context", "no context for a fresh key: %s", ctx.status().ToString().c_str());
        if (Chance(1, 4))
          for (auto& q : *ctx->mutable_parameters())
            if (Chance(1, 2)) Rephrase(&q);
      }
      std::string wire = ctx->SerializeAsString();
      SIM_ASSERT(ctx->ParseFromString(wire));
      Machine& x = p == 0 ? a : b;
      NodeScope ns(x.node);
      if (&x == &b && same <= 0 && level >= sb.levels()) return;
      share[p] = whole ? t.Until(*x.dpf, level, {}, *ctx) : t.AtCtx(*x.dpf, level, points, *ctx);
      if (share[p].ok() && share[p]->size() != points.size() * t.leaves.size()) Violate("config-size", "%zu values for %zu points", share[p]->size(), points.size());
      int fits = p == 0 ? 1 : same;
      if (fits == 1 && !share[p].ok()) Violate("config-mates", "a context made under an equal configuration is refused: %s", share[p].status().ToString().c_str());
      if (fits == 0) Count("probe:other-configuration");
      if (fits == 0 && share[p].status().code() != absl::StatusCode::kInvalidArgument)
        Violate("config-mixed", "a context made under version %d is %s under version %d:\n%s\n%s", a.version, share[p].ok() ? "evaluated" : share[p].status().ToString().c_str(), b.version,
                ctx->ShortDebugString().substr(0, 700).c_str(), d::EvaluationContext([&] { d::EvaluationContext e; e.ParseFromString(b.disk); return e; }()).ShortDebugString().substr(0, 700).c_str());
    }
    if (same != 1) return;
    for (size_t i = 0; i < points.size(); i++) {
      Flat sum = AddLeaves(t, Slice(*share[0], i, t.leaves.size()), Slice(*share[1], i, t.leaves.size()));
      Flat want = DpfExpect(sa, keys, level, points[i]);
      if (sum != want) Violate("config-sum", "(%s) level %d at %s opens to %s instead of %s", sa.Describe().c_str(), level, Show(points[i]).c_str(), ShowFlat(sum).c_str(), ShowFlat(want).c_str());
    }
  };
  f.Run();
  State(Mix(HashStr(versions.back()), n));
}

SCENARIO(P26, comparisons, 2) {
  Stream st(261);
  NonTrivial();
  bool mic = Chance(1, 2);
  Log(mic ? "interval gates" : "comparison functions");
  std::vector<std::string> versions;
  if (!mic) {
    std::vector<d::DcfParameters> good(1 + Draw(2));
    for (auto& c : good) {
      const DpfType& t = *Types()[Draw(Types().size())];
      *c.mutable_parameters()->mutable_value_type() = t.vt;
      c.mutable_parameters()->set_log_domain_size(1 + Draw(std::min(t.max_domain, 128)));
    }
    versions = DrawVersions<d::DcfParameters>(good, [](d::DcfParameters* c) {
      if (Chance(1, 12)) c->clear_parameters();
      else if (Chance(1, 6)) c->mutable_parameters()->set_security_parameter(AnySecurity(c->parameters().value_type()));
      else LevelMistake(c->mutable_parameters());
    });
  } else {
    std::vector<g::MicParameters> good(1 + Draw(2));
    for (auto& c : good) {
      int log = 1 + Draw(127);
      c.set_log_group_size(log);
      for (int k = Draw(4); k > 0; k--) {
        U128 p = DrawPoint(st, log, 0), q = DrawPoint(st, log, p);
        if (p > q) std::swap(p, q);
        auto* i = c.add_intervals();
        auto put = [](d::Value::Integer* v, U128 x) {
          if (absl::Uint128High64(x) || Chance(1, 3)) {
            v->mutable_value_uint128()->set_high(absl::Uint128High64(x));
            v->mutable_value_uint128()->set_low(absl::Uint128Low64(x));
          } else {
            v->set_value_uint64(absl::Uint128Low64(x));
          }
        };
        put(i->mutable_lower_bound(), p);
        put(i->mutable_upper_bound(), q);
      }
    }
    versions = DrawVersions<g::MicParameters>(good, [](g::MicParameters* c) {
      int n = c->intervals_size();
      int how = Draw(6);
      if (how == 0 || n == 0) {
        static const int kLogs[] = {-1, 0, 1, 2, 63, 64, 126, 127, 128, 129, INT32_MAX, INT32_MIN};
        c->set_log_group_size(kLogs[Draw(12)]);
        return;
      }
      auto* i = c->mutable_intervals(Draw(n));
      auto* v = Chance(1, 2) ? i->mutable_lower_bound() : i->mutable_upper_bound();
      switch (how) {
        case 1: v->Clear(); break;
        case 2: Chance(1, 2) ? i->clear_lower_bound() : i->clear_upper_bound(); break;
        case 3: {  // the first value outside the group, and the last one inside
          U128 x = Pow2(std::min(127, std::max(0, c->log_group_size()))) - Draw(2);
          v->mutable_value_uint128()->set_high(absl::Uint128High64(x));
          v->mutable_value_uint128()->set_low(absl::Uint128Low64(x));
          break;
        }
        case 4: i->mutable_lower_bound()->Swap(i->mutable_upper_bound()); break;
        default: c->set_log_group_size(c->log_group_size() - 1 - Draw(8));
      }
    });
  }
  struct Machine {
    Node* node;
    int version = -1;
    std::unique_ptr<d::DistributedComparisonFunction> dcf;
    std::unique_ptr<g::MultipleIntervalContainmentGate> mic;
  };
  int n = 2 + Draw(2);
  std::vector<Machine> m(n);
  for (int i = 0; i < n; i++) m[i].node = NewNode("machine" + std::to_string(i));
  auto open = [&](Machine& x, int v, bool replace) {
    NodeScope ns(x.node);
    absl::Status s;
    if (mic) {
      g::MicParameters p;
      SIM_ASSERT(p.ParseFromString(versions[v]));
      auto r = g::MultipleIntervalContainmentGate::Create(p);
      CheckVerdict("gate", JudgeMic(p), s = r.status(), p);
      if (s.ok() && replace) x.mic = std::move(*r);
    } else {
      d::DcfParameters p;
      SIM_ASSERT(p.ParseFromString(versions[v]));
      auto r = d::DistributedComparisonFunction::Create(p);
      CheckVerdict("dcf", JudgeDcf(p), s = r.status(), p);
      if (s.ok() && replace) x.dcf = std::move(*r);
    }
    if (s.ok() && replace) x.version = v;
    return s.ok();
  };
  Fleet f;
  f.machines = n;
  f.versions = versions.size();
  f.install = [&](int i, int v) { return open(m[i], v, v > m[i].version); };
  f.restart = [&](int i) {
    if (m[i].version >= 0 && !open(m[i], m[i].version, true)) Violate("config-restart", "the configuration in use is refused after a restart");
  };
  f.work = [&] {
    Machine &a = m[Draw(n)], &b = m[Draw(n)];
    if (a.version < 0 || versions[a.version] != (b.version < 0 ? "" : versions[b.version])) return;
    if (mic) {
      g::MicParameters p;
      SIM_ASSERT(p.ParseFromString(versions[a.version]));
      int log = p.log_group_size(), k = p.intervals_size();
      if (log == 0) return;
      U128 r_in = Rand128(st, log), x = Rand128(st, log);
      std::vector<U128> r_out;
      for (int i = 0; i < k; i++) r_out.push_back(Rand128(st, log));
      if (k && Chance(2, 3)) {  // close to a bound
        IntegerOf(Chance(1, 2) ? p.intervals(Draw(k)).lower_bound() : p.intervals(Draw(k)).upper_bound(), &x);
        x = (x + Draw(3) - 1) & MaxOf(log);
      }
      absl::StatusOr<std::pair<g::MicKey, g::MicKey>> keys = absl::InternalError("");
      {
        NodeScope ns(a.node);
        keys = a.mic->Gen(r_in, r_out);
      }
      if (!keys.ok()) Violate("config-gen", "no gate keys: %s", keys.status().ToString().c_str());
      U128 in = (x + r_in) & MaxOf(log);
      absl::StatusOr<std::vector<U128>> s[2] = {absl::InternalError(""), absl::InternalError("")};
      for (int q = 0; q < 2; q++) {
        NodeScope ns((q ? b : a).node);
        s[q] = (q ? b : a).mic->Eval(q ? keys->second : keys->first, in);
        if (!s[q].ok() || (int)s[q]->size() != k) Violate("config-eval", "gate evaluation: %s", s[q].status().ToString().c_str());
      }
      for (int i = 0; i < k; i++) {
        U128 lo, hi;
        IntegerOf(p.intervals(i).lower_bound(), &lo);
        IntegerOf(p.intervals(i).upper_bound(), &hi);
        U128 got = ((*s[0])[i] + (*s[1])[i] - r_out[i]) & MaxOf(log);
        if (got != U128(lo <= x && x <= hi)) Violate("config-sum", "[%s, %s] in 2^%d at %s opens to %s", Show(lo).c_str(), Show(hi).c_str(), log, Show(x).c_str(), Show(got).c_str());
      }
      Count("probe:worked");
      return;
    }
    d::DcfParameters p;
    SIM_ASSERT(p.ParseFromString(versions[a.version]));
    const DpfType* t = KnownType(p.parameters().value_type());
    if (!t) return;
    int log = p.parameters().log_domain_size();
    U128 alpha = DrawPoint(st, log, 0);
    Flat beta = RandomLeaves(*t, st, 0);
    absl::StatusOr<std::pair<d::DcfKey, d::DcfKey>> keys = absl::InternalError("");
    {
      NodeScope ns(a.node);
      keys = t->DcfGen(*a.dcf, alpha, beta.data());
    }
    if (!keys.ok()) Violate("config-gen", "no comparison keys: %s", keys.status().ToString().c_str());
    for (int k = 0; k < 2; k++) {
      U128 x = DrawPoint(st, log, alpha);
      absl::StatusOr<Flat> s[2] = {absl::InternalError(""), absl::InternalError("")};
      for (int q = 0; q < 2; q++) {
        NodeScope ns((q ? b : a).node);
        s[q] = t->DcfEval(*(q ? b : a).dcf, q ? keys->second : keys->first, x);
        if (!s[q].ok()) Violate("config-eval", "comparison: %s", s[q].status().ToString().c_str());
      }
      Flat want = x < alpha ? beta : Flat(beta.size(), U128(0));
      if (AddLeaves(*t, *s[0], *s[1]) != want) Violate("config-sum", "comparison of %s with %s in 2^%d opens wrong", Show(x).c_str(), Show(alpha).c_str(), log);
    }
    Count("probe:worked");
  };
  f.Run();
  State(Mix(HashStr(versions.back()), mic));
}

// Retrieval: server configurations, the parameters servers publish, and hash
// families.
SCENARIO(P26, retrieval, 2) {
  Stream st(262);
  NonTrivial();
  Kind kind = (Kind)Draw(3);
  DataShape shape;
  shape.max_records = 20;
  Dataset ds = MakeDataset(kind, 26, shape);
  Node *server = NewNode("server"), *client = NewNode("client");
  Params p;
  {
    NodeScope ns(server);
    p = MakeParams(ds);
  }
  auto enc = [](absl::string_view s, absl::string_view) -> absl::StatusOr<std::string> { return std::string(s); };
  // The round trip that a deployment on these parameters must be able to make.
  auto serve = [&](const Params& q, AnyClient* c) {
    absl::StatusOr<std::unique_ptr<d::PirServer>> sv[2] = {absl::InternalError(""), absl::InternalError("")};
    for (auto& s : sv) {
      NodeScope ns(server);
      s = MakeServer(q, ds.records, Role::kPlain, {});
      if (!s.ok()) Violate("config-serve", "valid parameters are refused: %s", s.status().ToString().c_str());
    }
    NodeScope ns(client);
    std::string query = ds.PresentQuery(st);
    auto r = c->CreatePlain({query});
    if (!r.ok()) Violate("config-serve", "no request: %s", r.status().ToString().c_str());
    auto& [a, h, state] = *r;
    PirRequest ra, rb;
    *ra.mutable_dpf_pir_request()->mutable_plain_request() = a;
    *rb.mutable_dpf_pir_request()->mutable_plain_request() = h.plain_request();
    auto x = (*sv[0])->HandleRequest(ra), y = (*sv[1])->HandleRequest(rb);
    if (!x.ok() || !y.ok()) Violate("config-serve", "no answer: %s %s", x.status().ToString().c_str(), y.status().ToString().c_str());
    Count("probe:served");
  };
  auto make_client = [&](const Params& q) {
    NodeScope ns(client);
    return MakeClient(q, enc);
  };
  {
    auto c = make_client(p);
    if (!c.ok()) Violate("config-verdict", "a client refuses valid parameters: %s", c.status().ToString().c_str());
    serve(p, c->get());
  }
  int64_t n = kind == Kind::kDense ? p.dense.dense_dpf_pir_config().num_elements() : kind == Kind::kCuckoo ? p.cuckoo.num_buckets() : p.simple.num_buckets();
  static const int64_t kSizes[] = {0, -1, 1, 2, INT32_MAX, (int64_t)INT32_MAX + 1, (int64_t)1 << 32, ((int64_t)1 << 32) + 1, INT64_MIN, -5, INT64_MAX, INT32_MIN};
  for (int k = 1 + Draw(4); k > 0; k--) {
    Span sp;
    Params q = p;
    int64_t size = n;
    switch (Draw(4)) {
      case 0: break;
      case 1: size = kSizes[Draw(12)]; break;
      case 2: size = n + (Chance(1, 2) ? 1 : -1); break;
      case 3: size = n + ((int64_t)1 << (32 + Draw(8))); break;  // the same in 32 bits
    }
    bool family = !Chance(1, 5), seeded = !Chance(1, 5), right_case = !Chance(1, 10);
    int fam = family ? 1 : Chance(1, 2) ? 0 : 2 + Draw(5);
    int fns = kind == Kind::kCuckoo ? (Chance(1, 4) ? (int)Draw(3) - 2 : p.cuckoo.num_hash_functions()) : 1;
    if (kind != Kind::kDense) {
      d::HashFamilyConfig* h = kind == Kind::kCuckoo ? q.cuckoo.mutable_hash_family_config() : q.simple.mutable_hash_family_config();
      h->set_hash_family((d::HashFamilyConfig::HashFamily)fam);
      if (!seeded) h->clear_seed();
      NodeScope ns(client);
      auto hf = d::CreateHashFamilyFromConfig(*h);
      CheckVerdict("hash", fam == 1 && seeded ? kOk : kInvalid, hf.status(), *h);
    }
    // What the operator writes, and the server turns into public parameters.
    d::PirConfig cfg;
    int64_t elems = size > (int64_t)1 << 60 ? (int64_t)1 << 40 : size;
    Kind as = right_case ? kind : (Kind)(((int)kind + 1 + Draw(2)) % 3);
    if (as == Kind::kDense) cfg.mutable_dense_dpf_pir_config()->set_num_elements(elems);
    if (as == Kind::kCuckoo) {
      cfg.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(elems);
      cfg.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family((d::HashFamilyConfig::HashFamily)fam);
    }
    if (as == Kind::kSimple) {
      cfg.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(elems);
      cfg.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family((d::HashFamilyConfig::HashFamily)fam);
    }
    if (Chance(1, 20)) cfg.Clear();
    Verdict gen = cfg.wrapped_pir_config_case() == 0 || elems <= 0 || fam == 0 ? kInvalid : fam != 1 ? kUnsure : kOk;
    {
      NodeScope ns(server);
      auto c = d::CuckooHashingSparseDpfPirServer::GenerateParams(cfg);
      CheckVerdict("cuckoo", cfg.has_cuckoo_hashing_sparse_dpf_pir_config() ? gen : kInvalid, c.status(), cfg);
      if (c.ok()) {
        if (c->num_buckets() != int64_t(1.5 * elems) || c->num_hash_functions() != 3 || c->hash_family_config().seed().empty() || c->hash_family_config().hash_family() != fam)
          Violate("config-params", "published parameters do not match %s: %s", cfg.ShortDebugString().c_str(), c->ShortDebugString().c_str());
        auto again = d::CuckooHashingSparseDpfPirServer::GenerateParams(cfg);
        if (!again.ok() || again->hash_family_config().seed() == c->hash_family_config().seed()) Violate("config-params", "two deployments share a hash seed");
      }
      auto s = d::SimpleHashingSparseDpfPirServer::GenerateParams(cfg);
      CheckVerdict("simple", cfg.has_simple_hashing_sparse_dpf_pir_config() ? gen : kInvalid, s.status(), cfg);
      if (s.ok()) {
        if (s->num_buckets() != elems || s->hash_family_config().seed().empty() || s->hash_family_config().hash_family() != fam)
          Violate("config-params", "published parameters do not match %s: %s", cfg.ShortDebugString().c_str(), s->ShortDebugString().c_str());
        auto again = d::SimpleHashingSparseDpfPirServer::GenerateParams(cfg);
        if (!again.ok() || again->hash_family_config().seed() == s->hash_family_config().seed()) Violate("config-params", "two deployments share a hash seed");
      }
    }
    // A client and a server reading the (possibly wrong) parameters.
    if (kind == Kind::kDense) q.dense.mutable_dense_dpf_pir_config()->set_num_elements(size);
    q.cuckoo.set_num_buckets(size);
    q.cuckoo.set_num_hash_functions(fns);
    q.simple.set_num_buckets(size);
    bool hash_ok = kind == Kind::kDense || (fam == 1 && seeded && fns >= 1);
    auto c = make_client(q);
    const google::protobuf::Message& shown = kind == Kind::kDense ? (const google::protobuf::Message&)q.dense : kind == Kind::kCuckoo ? (const google::protobuf::Message&)q.cuckoo : q.simple;
    CheckVerdict("client", size >= 1 && size <= INT32_MAX && hash_ok ? kOk : kInvalid, c.status(), shown);
    if (c.ok() && size > 64 && kind != Kind::kCuckoo) {  // works at the far end as well
      NodeScope ns(client);
      auto r = (*c)->CreatePlain({kind == Kind::kDense ? std::to_string(size - 1) : "key"});
      if (!r.ok()) Violate("config-client", "no request for the last of %lld elements: %s", (long long)size, r.status().ToString().c_str());
      if (kind == Kind::kDense && (*c)->CreatePlain({std::to_string(size < INT32_MAX ? size : -1)}).ok()) Violate("config-client", "a request beyond %lld elements", (long long)size);
    }
    // Servers over the data they hold.
    if (kind == Kind::kDense) {
      NodeScope ns(server);
      auto s = MakeServer(q, ds.records, Role::kPlain, {});
      CheckVerdict("server", size == n ? kOk : kInvalid, s.status(), shown);
    } else if (size >= 1 && size <= 4 * n && size >= n && fam == 1 && fns >= 1 && seeded) {
      if (size == n && fns == p.cuckoo.num_hash_functions()) serve(q, c->get());
    }
    // The same data with parameters published for another size.
    if (kind != Kind::kDense && (size != n || fam == 0 || fns <= 0)) {
      NodeScope ns(server);
      absl::Status s;
      if (kind == Kind::kCuckoo) {
        d::CuckooHashedDpfPirDatabase::Builder b;
        b.SetParams(p.cuckoo);
        for (auto& r : ds.records) b.Insert({r.first, r.second});
        auto db = b.Build();
        if (!db.ok()) continue;
        s = d::CuckooHashingSparseDpfPirServer::CreatePlain(q.cuckoo, std::move(*db)).status();
      } else {
        d::SimpleHashedDpfPirDatabase::Builder b;
        b.SetParams(p.simple);
        for (auto& r : ds.records) b.Insert({r.first, r.second});
        auto db = b.Build();
        if (!db.ok()) continue;
        s = d::SimpleHashingSparseDpfPirServer::CreatePlain(q.simple, std::move(*db)).status();
      }
      CheckVerdict("server", kInvalid, s, shown);
    }
  }
  // Requests with nothing to answer, or not for a server of this role.
  if (Chance(1, 3)) {
    NodeScope ns(server);
    auto s = MakeServer(p, ds.records, Role::kPlain, {});
    if (!s.ok()) Violate("config-serve", "valid parameters are refused: %s", s.status().ToString().c_str());
    PirRequest bad;
    const char* what = "empty";
    switch (Draw(5)) {
      case 0: break;
      case 1: bad.mutable_dpf_pir_request(); what = "untyped"; break;
      case 2: bad.mutable_dpf_pir_request()->mutable_plain_request(); what = "keyless"; break;
      case 3: bad.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request(); what = "Leader"; break;
      case 4: bad.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request("x"); what = "Helper"; break;
    }
    auto r = (*s)->HandleRequest(bad);
    if (r.status().code() != absl::StatusCode::kInvalidArgument)
      Violate("config-request", "%s: a plain server handles the %s request with %s", KindName(kind), what, r.ok() ? "an answer" : r.status().ToString().c_str());
    Count("fault:wrong-request");
  }
  // Nothing where a collaborator belongs.
  if (Chance(1, 3)) {
    NodeScope ns(server);
    auto missing = [&](const char* what, const absl::Status& s) {
      if (s.code() != absl::StatusCode::kInvalidArgument)
        Violate("config-null", "%s made with no %s: %s", KindName(kind), what, s.ok() ? "accepted" : s.ToString().c_str());
      Count("probe:null_argument");
    };
    auto sender = [](const PirRequest& r, absl::AnyInvocable<void()>) -> absl::StatusOr<PirResponse> { return PirResponse(); };
    auto decrypter = [](absl::string_view s, absl::string_view) -> absl::StatusOr<std::string> { return std::string(s); };
    missing("sender", MakeServer(p, ds.records, Role::kLeader, {}).status());
    missing("decrypter", MakeServer(p, ds.records, Role::kHelper, {}).status());
    missing("encrypter", MakeClient(p, nullptr).status());
    auto all = [&](auto* type, const auto& config) {
      using S = std::remove_pointer_t<decltype(type)>;
      missing("database", S::CreatePlain(config, nullptr).status());
      missing("database", S::CreateLeader(config, nullptr, sender).status());
      missing("database", S::CreateHelper(config, nullptr, decrypter).status());
    };
    if (kind == Kind::kDense) all((d::DenseDpfPirServer*)nullptr, p.dense);
    if (kind == Kind::kCuckoo) all((d::CuckooHashingSparseDpfPirServer*)nullptr, p.cuckoo);
    if (kind == Kind::kSimple) all((d::SimpleHashingSparseDpfPirServer*)nullptr, p.simple);
  }
  State(Mix((uint64_t)kind, n));
}
}  // namespace sim
