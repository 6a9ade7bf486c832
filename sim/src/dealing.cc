// P29: a dealing service.  Front ends send it what to program as messages; it
// programs exactly that or refuses, whatever it was asked before.
#include <algorithm>
#include <set>

#include "dpf_world.h"
#include "inst_dpf.h"
#include "sim.h"

namespace sim {
namespace {
// What a message asks for, read independently of the library.  False if it
// does not stand for a value of the type.
bool ReadInteger(const d::Value::Integer& i, U128* x) {
  if (i.has_value_uint64()) *x = i.value_uint64();
  else if (i.has_value_uint128()) *x = absl::MakeUint128(i.value_uint128().high(), i.value_uint128().low());
  else return false;
  return true;
}
bool ReadValue(const d::ValueType& t, const d::Value& v, Flat* out) {
  U128 x = 0, n = 0;
  auto fits = [&](int bits) { return bits >= 128 || x < Pow2(bits); };
  switch (t.type_case()) {
    case d::ValueType::kInteger:
      if (!v.has_integer() || !ReadInteger(v.integer(), &x) || !fits(t.integer().bitsize())) return false;
      break;
    case d::ValueType::kXorWrapper:
      if (!v.has_xor_wrapper() || !ReadInteger(v.xor_wrapper(), &x) || !fits(t.xor_wrapper().bitsize())) return false;
      break;
    case d::ValueType::kIntModN:
      SIM_ASSERT(ReadInteger(t.int_mod_n().modulus(), &n));
      if (!v.has_int_mod_n() || !ReadInteger(v.int_mod_n(), &x) || x >= n) return false;
      break;
    default:
      if (!v.has_tuple() || v.tuple().elements_size() != t.tuple().elements_size()) return false;
      for (int i = 0; i < t.tuple().elements_size(); i++)
        if (!ReadValue(t.tuple().elements(i), v.tuple().elements(i), out)) return false;
      return true;
  }
  out->push_back(x);
  return true;
}
d::Value::Integer* LeafOf(d::Value* v) {
  switch (v->value_case()) {
    case d::Value::kInteger: return v->mutable_integer();
    case d::Value::kXorWrapper: return v->mutable_xor_wrapper();
    case d::Value::kIntModN: return v->mutable_int_mod_n();
    default: return nullptr;
  }
}
void PutInteger(d::Value::Integer* i, U128 x, bool wide) {
  if (wide || absl::Uint128High64(x)) {
    i->mutable_value_uint128()->set_high(absl::Uint128High64(x));
    i->mutable_value_uint128()->set_low(absl::Uint128Low64(x));
  } else {
    i->set_value_uint64(absl::Uint128Low64(x));
  }
}
// The same value in the other of its two forms, where there are two.
void Reform(d::Value* v) {
  if (v->has_tuple()) {
    for (auto& e : *v->mutable_tuple()->mutable_elements()) Reform(&e);
    return;
  }
  U128 x;
  auto* i = LeafOf(v);
  if (i && ReadInteger(*i, &x)) PutInteger(i, x, Chance(1, 2));
}
// Mistakes a front end makes in one value.
void ValueMistake(d::ValueType t, d::Value* v) {
  if (v->has_tuple() && t.tuple().elements_size() && Chance(1, 4)) {
    auto* e = v->mutable_tuple()->mutable_elements();
    switch (Draw(4)) {
      case 0: e->DeleteSubrange(Draw(e->size()), 1); break;
      case 1: *v->mutable_tuple()->add_elements() = d::Value(e->Get(Draw(e->size()))); break;
      case 2: e->SwapElements(Draw(e->size()), Draw(e->size())); break;  // may well be right
      default: *v = d::Value(e->Get(0)); break;                          // no tuple around it
    }
    return;
  }
  while (v->has_tuple() && v->tuple().elements_size()) {
    int i = Draw(v->tuple().elements_size());
    v = v->mutable_tuple()->mutable_elements(i);
    d::ValueType e = t.tuple().elements(i);
    t = e;
  }
  auto* leaf = LeafOf(v);
  if (!leaf) return;
  U128 limit = 0;  // the first value that is too large
  int bits = t.has_integer() ? t.integer().bitsize() : t.has_xor_wrapper() ? t.xor_wrapper().bitsize() : t.int_mod_n().base_integer().bitsize();
  if (t.has_int_mod_n()) ReadInteger(t.int_mod_n().modulus(), &limit);
  else if (bits < 128) limit = Pow2(bits);
  switch (Draw(8)) {
    case 0: leaf->Clear(); break;
    case 1: v->Clear(); break;
    case 2: {  // the right number as another kind of value
      d::Value::Integer i = *leaf;
      switch (Draw(4)) {
        case 0: *v->mutable_integer() = i; break;
        case 1: *v->mutable_xor_wrapper() = i; break;
        case 2: *v->mutable_int_mod_n() = i; break;
        default: {
          d::Value e = *v;
          *v->mutable_tuple()->add_elements() = e;
        }
      }
      break;
    }
    case 3: PutInteger(leaf, limit - 1, Chance(1, 2)); break;  // the largest that is right
    case 4: {  // right in the low bits only
      U128 x = 0;
      ReadInteger(*leaf, &x);
      static const int kAt[] = {8, 16, 32, 63, 64, 65, 127};
      PutInteger(leaf, x | Pow2(Chance(1, 2) ? std::min(bits, 127) : kAt[Draw(7)]), Chance(1, 2));
      break;
    }
    case 5: PutInteger(leaf, absl::Uint128Max(), true); break;
    case 6: PutInteger(leaf, limit + Draw(3), Chance(1, 2)); break;
    default: PutInteger(leaf, limit, Chance(1, 2)); break;
  }
}
struct Request {
  U128 alpha;
  std::vector<std::string> betas;  // messages
  bool single;                     // asks for a function with one level
};
}  // namespace

SCENARIO(P29, dealers, 10) {
  Stream st(29);
  NonTrivial();
  // What all dealers were set up for: a point function or a comparison function.
  bool compare = Chance(1, 3);
  DpfSetup s;
  d::DcfParameters dcf_params;
  if (compare) {
    const DpfType* t = Types()[Draw(Types().size())];
    int log = 1 + Draw(std::min(t->max_domain, Chance(1, 2) ? 8 : 128));
    s.types = {t};
    s.logs = {log};
    *dcf_params.mutable_parameters()->mutable_value_type() = t->vt;
    dcf_params.mutable_parameters()->set_log_domain_size(log);
  } else {
    DpfOpts o;
    o.max_levels = 4;
    s = DrawDpfSetup(o);
  }
  int top = s.logs.back();
  Log("%s %s", compare ? "comparison function" : "point function", s.Describe().c_str());
  struct Machine {
    Node* node;
    std::unique_ptr<d::DistributedPointFunction> dpf;
    std::unique_ptr<d::DistributedComparisonFunction> dcf;
    std::set<std::string> known;  // registered types
  };
  std::vector<Machine> m(1 + Draw(3));
  auto open = [&](Machine& x) {
    NodeScope ns(x.node);
    x.node->simd = Draw(SimdTargets());
    ApplySimd();
    if (compare) {
      auto r = d::DistributedComparisonFunction::Create(dcf_params);
      if (!r.ok()) Violate("deal-create", "%s", r.status().ToString().c_str());
      x.dcf = std::move(*r);
    } else {
      x.dpf = OpenDpf(s);
    }
    x.known.clear();
    for (auto* t : Types())
      if (t->vt.has_integer()) x.known.insert(t->name);
  };
  auto make_known = [&](Machine& x) {
    NodeScope ns(x.node);
    for (auto* t : s.types) {
      if (x.known.count(t->name)) continue;
      if (compare) {
        Flat b(t->leaves.size(), U128(1));
        auto r = t->DcfGen(*x.dcf, 0, b.data());
        if (!r.ok()) Violate("deal-refused", "a typed value is refused: %s", r.status().ToString().c_str());
      } else if (!t->Register(*x.dpf).ok()) {
        Violate("deal-register", "value type %s refused", t->name.c_str());
      }
      x.known.insert(t->name);
    }
  };
  for (auto& x : m) {
    x.node = NewNode("dealer" + std::to_string(&x - &m[0]));
    open(x);
    if (Chance(2, 3)) make_known(x);
  }
  // What is asked for.
  std::vector<Request> asked;
  for (int k = 2 + Draw(8); k > 0; k--) {
    Span sp;
    Request r;
    r.alpha = Chance(1, 4) ? (Chance(1, 2) ? U128(0) : MaxOf(top)) : DrawPoint(st, top, 0);
    std::vector<d::Value> v;
    for (auto* t : s.types) {
      v.push_back(t->MakeValue(RandomLeaves(*t, st, Draw(4)).data()));
      if (Chance(1, 3)) Reform(&v.back());
    }
    r.single = s.levels() == 1 && Chance(1, 2);
    if (Chance(1, 2)) {
      Count("fault:mistaken-request");
      switch (Draw(8)) {
        case 0:
          if (top < 128) r.alpha = Chance(1, 2) ? Pow2(top) : Pow2(top) * (1 + Draw(3)) + Draw(3);
          if (Chance(1, 4)) r.alpha = absl::Uint128Max();
          else if (top < 128 && Chance(1, 2)) r.alpha = DrawPoint(st, top, 0) | Pow2(top + Draw(128 - top));
          break;
        case 1:
          if (!compare) v.push_back(v[Draw(v.size())]);
          break;
        case 2:
          if (!compare) v.pop_back();
          break;
        case 3:
          if (v.size() > 1) std::swap(v[Draw(v.size())], v[Draw(v.size())]);
          break;
        case 4: r.single = !compare; break;
        default: {
          int i = Draw(v.size());
          ValueMistake(s.types[i]->vt, &v[i]);
        }
      }
    }
    if (r.single && v.size() != 1) v.resize(1);
    for (auto& x : v) r.betas.push_back(x.SerializeAsString());
    asked.push_back(r);
  }
  std::vector<std::pair<int, int>> net;  // (request, tries left)
  for (int i = 0; i < (int)asked.size(); i++) net.push_back({i, 3});
  bool faults = Chance(1, 3);
  while (!net.empty()) {
    Span sp;
    size_t at = Draw(net.size());
    int id = net[at].first;
    Machine& x = m[Draw(m.size())];
    int what = Draw(12);
    if (what == 0) {
      Count("fault:crash");
      open(x);
      if (Chance(1, 2)) make_known(x);
      continue;
    }
    if (what == 1) make_known(x);
    if (what == 2 && net[at].second > 0) {
      Count("fault:loss");  // and sent again
      net[at].second--;
      continue;
    }
    if (what == 3 && net[at].second > 0) Count("fault:duplicate"), net[at].second--;
    else net.erase(net.begin() + at);
    const Request& r = asked[id];
    // Read independently ...
    std::vector<d::Value> v(r.betas.size());
    std::vector<Flat> want(r.betas.size());
    bool right = (int)v.size() == s.levels() && (top >= 128 || r.alpha < Pow2(top)), known = true;
    for (size_t i = 0; i < v.size(); i++) SIM_ASSERT(v[i].ParseFromString(r.betas[i]));
    for (size_t i = 0; right && i < v.size(); i++) right = ReadValue(s.types[i]->vt, v[i], &want[i]);
    for (auto* t : s.types) known = known && x.known.count(t->name);
    // ... and asked of the dealer.
    bool plain = Chance(1, 3);
    std::vector<U128> ints(v.size());
    for (size_t i = 0; plain && i < v.size(); i++) plain = v[i].has_integer() && ReadInteger(v[i].integer(), &ints[i]);
    if (r.single && v.size() != 1) plain = false;
    absl::Status got;
    std::string key[2];
    {
      NodeScope ns(x.node);
      ApplySimd();
      OddEntropy odd(Chance(1, 6));
      for (int attempt = 0;; attempt++) {
        CallFault cf(x.node, faults && attempt < 2 && Chance(1, 3));
        if (compare) {
          auto k = plain ? x.dcf->GenerateKeys(r.alpha, ints[0]) : x.dcf->GenerateKeys(r.alpha, v[0]);
          got = k.status();
          if (k.ok()) key[0] = k->first.SerializeAsString(), key[1] = k->second.SerializeAsString();
        } else {
          auto k = plain ? r.single ? x.dpf->GenerateKeys(r.alpha, ints[0]) : x.dpf->GenerateKeysIncremental(r.alpha, ints)
                   : r.single ? x.dpf->GenerateKeys(r.alpha, v[0]) : x.dpf->GenerateKeysIncremental(r.alpha, absl::MakeConstSpan(v));
          got = k.status();
          if (k.ok()) key[0] = k->first.SerializeAsString(), key[1] = k->second.SerializeAsString();
        }
        if (got.ok() || !cf.fired()) break;
        cf.Check(got, "GenerateKeys");
      }
    }
    Log("request %d (%s, types %s) at dealer %d: %s", id, right ? "right" : "wrong", known ? "known" : "unknown", int(&x - &m[0]), got.ToString().c_str());
    bool inv = got.code() == absl::StatusCode::kInvalidArgument, pre = got.code() == absl::StatusCode::kFailedPrecondition;
    bool fits = right && known ? got.ok() : right ? pre || (compare && got.ok()) : inv || (!known && pre);
    Count(right && known ? "probe:programmed" : right ? "probe:unknown-type" : "probe:refused");
    State(Mix(Mix(right, known), Mix(compare, HashStr(s.types.back()->name))));
    if (!fits) {
      std::string say;
      for (auto& b : v) say += " {" + b.ShortDebugString().substr(0, 300) + "}";
      Violate("deal-verdict", "(%s) a request that is %s: %s; alpha %s values%s", s.Describe().c_str(),
              right && known ? "right" : right ? "right, but of a type the dealer does not know yet" : "wrong", got.ToString().c_str(), Show(r.alpha).c_str(), say.c_str());
    }
    if (!got.ok()) {
      if (pre && Chance(2, 3)) {
        make_known(x);
        net.push_back({id, 1});
      }
      continue;
    }
    // The two keys open to what was asked for, on whichever machine.
    Machine& y = m[Draw(m.size())];
    NodeScope ns(y.node);
    ApplySimd();
    int level = Draw(s.levels());
    const DpfType& t = *s.types[level];
    int log = s.logs[level];
    U128 hot = Shr(r.alpha, top - log);
    std::vector<U128> pts = {hot};
    for (int k = 1 + Draw(4); k > 0; k--) pts.push_back(DrawPoint(st, log, hot));
    absl::StatusOr<Flat> share[2] = {absl::InternalError(""), absl::InternalError("")};
    for (int p = 0; p < 2; p++) {
      if (compare) {
        d::DcfKey k;
        SIM_ASSERT(k.ParseFromString(key[p]));
        std::vector<const d::DcfKey*> ks(pts.size(), &k);
        share[p] = t.DcfBatch(*y.dcf, ks, 0, pts);
      } else {
        share[p] = t.At(*y.dpf, LoadKey(key[p]), level, pts);
      }
      if (!share[p].ok()) Violate("deal-key", "(%s) a fresh key is refused: %s", s.Describe().c_str(), share[p].status().ToString().c_str());
      if (share[p]->size() != pts.size() * t.leaves.size()) Violate("deal-size", "%zu values for %zu points", share[p]->size(), pts.size());
    }
    for (size_t i = 0; i < pts.size(); i++) {
      Flat sum = AddLeaves(t, Slice(*share[0], i, t.leaves.size()), Slice(*share[1], i, t.leaves.size()));
      bool on = compare ? pts[i] < r.alpha : pts[i] == hot;
      Flat w = on ? want[level] : Flat(t.leaves.size(), U128(0));
      if (sum != w)
        Violate("deal-sum", "(%s) level %d at %s opens to %s instead of %s (alpha %s)", s.Describe().c_str(), level, Show(pts[i]).c_str(), ShowFlat(sum).c_str(), ShowFlat(w).c_str(),
                Show(r.alpha).c_str());
    }
  }
}
}  // namespace sim
