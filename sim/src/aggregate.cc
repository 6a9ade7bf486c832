// P24: shares added up by a fleet give the same sum in whatever order, grouping
// and number of restarts they arrive.
#include "dpf_world.h"
#include "inst_dpf.h"
#include "mutate.h"
#include "sim.h"

namespace sim {
namespace {
namespace d = distributed_point_functions;
Flat Plus(const DpfType& t, const Flat& a, const Flat& b) {
  Flat r;
  for (size_t i = 0; i < a.size(); i++) r.push_back(LeafAdd(t.leaves[i], a[i], b[i]));
  return r;
}
Flat Negated(const DpfType& t, const Flat& a) {
  Flat r;
  for (size_t i = 0; i < a.size(); i++) r.push_back(LeafNeg(t.leaves[i], a[i]));
  return r;
}
// Every result of the library is checked against arithmetic that is not its own.
Flat Op(const DpfType& t, int op, const Flat& a, const Flat& b) {
  static const char* kName[] = {"a + b", "a - b", "a += b", "a -= b", "-a", "a += a", "a -= a", "a + a"};
  Flat got = t.Combine(op, a.data(), b.data()), want;
  switch (op) {
    case 0: case 2: want = Plus(t, a, b); break;
    case 1: case 3: want = Plus(t, a, Negated(t, b)); break;
    case 4: want = Negated(t, a); break;
    case 6: want = Plus(t, a, Negated(t, a)); break;
    default: want = Plus(t, a, a);
  }
  if (got != want) Violate("group-value", "%s: %s with a = %s, b = %s is %s instead of %s", t.name.c_str(), kName[op], ShowFlat(a).c_str(), ShowFlat(b).c_str(), ShowFlat(got).c_str(), ShowFlat(want).c_str());
  bool eq = a == b;
  int same = t.Same(a.data(), b.data());
  if (same != int(eq)) Violate("group-equal", "%s: comparing %s with %s says %d", t.name.c_str(), ShowFlat(a).c_str(), ShowFlat(b).c_str(), same);
  return got;
}
Flat DrawLeaves(const DpfType& t, Stream& st) {
  Flat f = RandomLeaves(t, st, Chance(1, 3) ? Range(1, 3) : 0);
  if (Chance(1, 4)) {  // close to a carry or to the modulus
    size_t i = Draw(f.size());
    U128 max = t.leaves[i].mod != 0 ? t.leaves[i].mod - 1 : t.leaves[i].bits == 128 ? absl::Uint128Max() : Pow2(t.leaves[i].bits) - 1;
    f[i] = std::min<U128>(max, Chance(1, 2) ? max - std::min<U128>(max, Draw(3)) : (max >> 1) + Draw(3));
  }
  return f;
}
std::string Store(const DpfType& t, const Flat& f) {
  std::string s = t.Save(f.data()).SerializeAsString();
  d::Value v;
  if (!v.ParseFromString(s)) Violate("value-bytes", "%s: a stored value does not parse", t.name.c_str());
  auto back = t.Load(v);
  if (!back.ok() || *back != f)
    Violate("value-roundtrip", "%s: %s was stored and read back as %s", t.name.c_str(), ShowFlat(f).c_str(), back.ok() ? ShowFlat(*back).c_str() : back.status().ToString().c_str());
  return s;
}
Flat Restore(const DpfType& t, const std::string& s) {
  d::Value v;
  SIM_ASSERT(v.ParseFromString(s));
  auto r = t.Load(v);
  if (!r.ok()) Violate("value-refused", "%s: a stored value is refused: %s", t.name.c_str(), r.status().ToString().c_str());
  return *r;
}
struct Worker {
  Flat acc;
  std::string disk;                 // last checkpoint
  std::set<int> seen, disk_seen;    // contributions in acc and on disk
};
struct Message {
  int client, server, kind;  // kind 0: share, 1: withdrawal
};
// What a leaf of a value message says, or nothing when it says nothing sensible.
bool Sensible(const DpfType& t, size_t& leaf, const d::ValueType& vt, const d::Value& v, Flat& out) {
  auto integer = [&](const d::Value::Integer& i, U128* x) {
    if (i.has_value_uint64()) *x = i.value_uint64();
    else if (i.has_value_uint128()) *x = absl::MakeUint128(i.value_uint128().high(), i.value_uint128().low());
    else return false;
    const Leaf& l = t.leaves[leaf];
    if (l.mod != 0) return *x < l.mod;
    return l.bits == 128 || *x < Pow2(l.bits);
  };
  U128 x = 0;
  switch (vt.type_case()) {
    case d::ValueType::kTuple: {
      if (!v.has_tuple() || v.tuple().elements_size() != vt.tuple().elements_size()) return false;
      for (int i = 0; i < vt.tuple().elements_size(); i++)
        if (!Sensible(t, leaf, vt.tuple().elements(i), v.tuple().elements(i), out)) return false;
      return true;
    }
    case d::ValueType::kInteger:
      if (!v.has_integer() || !integer(v.integer(), &x)) return false;
      break;
    case d::ValueType::kIntModN:
      if (!v.has_int_mod_n() || !integer(v.int_mod_n(), &x)) return false;
      break;
    default:
      if (!v.has_xor_wrapper() || !integer(v.xor_wrapper(), &x)) return false;
  }
  out.push_back(x);
  leaf++;
  return true;
}
// Damages one leaf of a stored value: another width, another kind, a bit flip.
void DamageValue(d::Value* v, Stream& st) {
  while (v->has_tuple() && v->tuple().elements_size() && !Chance(1, 8))
    v = v->mutable_tuple()->mutable_elements(Draw(v->tuple().elements_size()));
  if (v->has_tuple()) {
    auto* e = v->mutable_tuple()->mutable_elements();
    switch (Draw(3)) {
      case 0: if (e->size()) e->RemoveLast(); else e->Add(); return;
      case 1: *e->Add() = e->size() > 1 ? (*e)[0] : d::Value(); return;
      default: v->mutable_integer()->set_value_uint64(1); return;
    }
  }
  d::Value::Integer i = v->has_integer() ? v->integer() : v->has_int_mod_n() ? v->int_mod_n() : v->xor_wrapper();
  switch (Draw(6)) {
    case 0: {  // wider than the type
      U128 x = i.has_value_uint128() ? absl::MakeUint128(i.value_uint128().high(), i.value_uint128().low()) : U128(i.value_uint64());
      x |= Pow2(Draw(128));
      i.mutable_value_uint128()->set_high(absl::Uint128High64(x));
      i.mutable_value_uint128()->set_low(absl::Uint128Low64(x));
      break;
    }
    case 1: i.set_value_uint64(i.has_value_uint128() ? i.value_uint128().low() : i.value_uint64() ^ (1ull << Draw(64))); break;
    case 2: i.Clear(); break;
    case 3: i.mutable_value_uint128()->set_high(Draw(2)); i.mutable_value_uint128()->set_low(st.Below(300)); break;
    case 4: i.set_value_uint64(~0ull); break;
    default: break;  // another kind below
  }
  bool swap = Chance(1, 4);
  int kind = v->has_integer() ? 0 : v->has_int_mod_n() ? 1 : 2;
  if (swap) kind = (kind + 1 + Draw(2)) % 3;
  v->Clear();
  *(kind == 0 ? v->mutable_integer() : kind == 1 ? v->mutable_int_mod_n() : v->mutable_xor_wrapper()) = i;
}
}  // namespace

SCENARIO(P24, fleet, 3) {
  Stream st(24);
  const DpfType& t = *ArithmeticTypes()[Draw(ArithmeticTypes().size())];
  int clients = 1 + Draw(Chance(1, 4) ? 40 : 10), workers = 1 + Draw(4);
  Log("%s: %d clients, %d workers per server", t.name.c_str(), clients, workers);
  NonTrivial();
  Flat zero = t.Zero();
  if (zero != Flat(t.leaves.size(), U128(0))) Violate("group-zero", "%s: a fresh value is %s", t.name.c_str(), ShowFlat(zero).c_str());
  Flat want = zero;
  std::vector<Flat> value(clients), share[2];
  std::vector<bool> withdrawn(clients);
  for (int s = 0; s < 2; s++) share[s].resize(clients);
  std::vector<Message> net;
  for (int c = 0; c < clients; c++) {
    Span sp;
    value[c] = DrawLeaves(t, st);
    share[0][c] = DrawLeaves(t, st);
    share[1][c] = Chance(1, 2) ? Op(t, 1, value[c], share[0][c]) : Op(t, 0, Op(t, 4, share[0][c], share[0][c]), value[c]);
    withdrawn[c] = Chance(1, 6);
    if (!withdrawn[c]) want = Plus(t, want, value[c]);
    for (int s = 0; s < 2; s++) {
      net.push_back({c, s, 0});
      if (withdrawn[c]) net.push_back({c, s, 1});
    }
  }
  std::vector<Worker> w[2];
  for (auto& v : w) {
    v.resize(workers);
    for (auto& x : v) {
      x.acc = zero;
      x.disk = Store(t, zero);
    }
  }
  // Deliveries in any order; a message leaves the network once a checkpoint has it.
  auto home = [&](const Message& m) -> Worker& { return w[m.server][m.client % workers]; };
  auto id = [](const Message& m) { return m.client * 2 + m.kind; };
  auto checkpoint = [&](Worker& x) {
    x.disk = Store(t, x.acc);
    x.disk_seen = x.seen;
  };
  int steps = 0;
  while (!net.empty()) {
    Span sp;
    bool faults = ++steps < 600;
    size_t i = Draw(net.size());
    Message m = net[i];
    Worker& x = home(m);
    int what = faults ? Draw(12) : 0;
    if (what == 9) {
      Count("fault:crash");
      x.acc = Restore(t, x.disk);
      x.seen = x.disk_seen;
      Log("crash of a worker of server %d", m.server);
      continue;
    }
    if (what == 10) {
      Count("fault:loss");
      continue;  // sent again later
    }
    if (what == 11) Count("fault:duplicate");
    for (int k = what == 11 ? 2 : 1; k > 0; k--) {
      if (!x.seen.insert(id(m)).second) continue;
      const Flat& s = share[m.server][m.client];
      int how = Draw(3);
      if (m.kind == 0) x.acc = how == 0 ? Op(t, 2, x.acc, s) : how == 1 ? Op(t, 0, s, x.acc) : Op(t, 1, x.acc, Op(t, 4, s, s));
      else x.acc = how == 0 ? Op(t, 3, x.acc, s) : how == 1 ? Op(t, 0, Op(t, 4, s, s), x.acc) : Op(t, 1, x.acc, s);
    }
    if (!faults || Chance(1, 3)) {
      checkpoint(x);
      for (size_t j = net.size(); j-- > 0;)
        if (&home(net[j]) == &x && x.disk_seen.count(id(net[j]))) net.erase(net.begin() + j);
    }
  }
  // Partial sums are merged pairwise in any order.
  Flat total[2];
  for (int s = 0; s < 2; s++) {
    std::vector<Flat> parts;
    for (auto& x : w[s]) parts.push_back(Restore(t, x.disk));
    while (parts.size() > 1) {
      Span sp;
      size_t a = Draw(parts.size()), b = Draw(parts.size() - 1);
      if (b >= a) b++;
      Flat m = Op(t, Chance(1, 2) ? 0 : 2, parts[a], parts[b]);
      parts.erase(parts.begin() + std::max(a, b));
      parts.erase(parts.begin() + std::min(a, b));
      parts.push_back(Restore(t, Store(t, m)));
    }
    total[s] = parts[0];
  }
  Flat sum = Op(t, 0, total[0], total[1]);
  if (sum != want) Violate("group-sum", "%s: %d contributions add up to %s instead of %s", t.name.c_str(), clients, ShowFlat(sum).c_str(), ShowFlat(want).c_str());
  for (int op : {5, 6, 7}) Op(t, op, sum, sum);
  State(Mix(HashStr(t.name), clients));
}

// Stored values that were damaged, or belong to another type, are read as what
// they say or refused.
SCENARIO(P24, damaged_values, 1) {
  Stream st(240);
  NonTrivial();
  for (int k = 1 + Draw(20); k > 0; k--) {
    Span sp;
    const DpfType& t = *ArithmeticTypes()[Draw(ArithmeticTypes().size())];
    const DpfType& o = Chance(1, 5) ? *ArithmeticTypes()[Draw(ArithmeticTypes().size())] : t;
    d::Value v = o.Save(DrawLeaves(o, st).data());
    if (&o == &t || Chance(1, 2)) DamageValue(&v, st);
    Count("fault:damaged-value");
    Flat want;
    size_t leaf = 0;
    bool ok = Sensible(t, leaf, t.vt, v, want);
    auto got = t.Load(v);
    if (!ok && got.ok()) Violate("value-accepted", "%s: %s is read as %s", t.name.c_str(), v.ShortDebugString().c_str(), ShowFlat(*got).c_str());
    if (!ok && got.status().code() != absl::StatusCode::kInvalidArgument) Violate("value-error", "%s: %s gives %s", t.name.c_str(), v.ShortDebugString().c_str(), got.status().ToString().c_str());
    if (ok && (!got.ok() || *got != want)) Violate("value-misread", "%s: %s is read as %s", t.name.c_str(), v.ShortDebugString().c_str(), got.ok() ? ShowFlat(*got).c_str() : got.status().ToString().c_str());
  }
}
}  // namespace sim
