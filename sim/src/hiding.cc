// P27: what one party holds says nothing about what was programmed.
//
// A dealer makes many keys for two secrets that differ in a drawn way (one bit
// of the point, only the value, everything), on fresh simulated entropy, with
// restarts and with other dealers in between.  Each party's keys are compared
// across the two secrets: same shape, every bit and simple relations between
// parts (sum, difference, XOR) equally distributed, secret seeds never shared.
#include <string.h>

#include <array>
#include <set>

#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dpf_world.h"
#include "pir_world.h"

namespace sim {
namespace {
namespace pb = google::protobuf;
namespace g = d::fss_gates;

// The scalars of a message, in order; `shape` is what is there at all.
void Flatten(const pb::Message& m, const std::string& path, std::vector<uint64_t>* out, std::vector<std::string>* names, uint64_t* shape) {
  const auto* desc = m.GetDescriptor();
  const auto* ref = m.GetReflection();
  for (int i = 0; i < desc->field_count(); i++) {
    const auto* f = desc->field(i);
    int n = f->is_repeated() ? ref->FieldSize(m, f) : 1;
    bool present = f->is_repeated() || f->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE || f->containing_oneof() ? f->is_repeated() || ref->HasField(m, f) : true;
    *shape = Mix(Mix(*shape, f->number()), present ? n : ~0ull);
    if (!present) continue;
    for (int k = 0; k < n; k++) {
      std::string p;
      if (names) p = path + "." + std::string(f->name()) + (f->is_repeated() ? "[" + std::to_string(k) + "]" : "");
      uint64_t v = 0;
      switch (f->cpp_type()) {
        case pb::FieldDescriptor::CPPTYPE_MESSAGE:
          Flatten(f->is_repeated() ? ref->GetRepeatedMessage(m, f, k) : ref->GetMessage(m, f), p, out, names, shape);
          continue;
        case pb::FieldDescriptor::CPPTYPE_UINT64: v = f->is_repeated() ? ref->GetRepeatedUInt64(m, f, k) : ref->GetUInt64(m, f); break;
        case pb::FieldDescriptor::CPPTYPE_UINT32: v = f->is_repeated() ? ref->GetRepeatedUInt32(m, f, k) : ref->GetUInt32(m, f); break;
        case pb::FieldDescriptor::CPPTYPE_INT32: v = (uint32_t)(f->is_repeated() ? ref->GetRepeatedInt32(m, f, k) : ref->GetInt32(m, f)); break;
        case pb::FieldDescriptor::CPPTYPE_INT64: v = f->is_repeated() ? ref->GetRepeatedInt64(m, f, k) : ref->GetInt64(m, f); break;
        case pb::FieldDescriptor::CPPTYPE_BOOL: v = f->is_repeated() ? ref->GetRepeatedBool(m, f, k) : ref->GetBool(m, f); break;
        case pb::FieldDescriptor::CPPTYPE_STRING: {
          std::string s = f->is_repeated() ? ref->GetRepeatedString(m, f, k) : ref->GetString(m, f);
          *shape = Mix(*shape, s.size());
          v = HashStr(s);
          break;
        }
        default: continue;
      }
      out->push_back(v);
      if (names) names->push_back(p);
    }
  }
}
const int kPer = 64;  // keys per secret
struct View {  // one party's keys
  std::vector<std::string> names;
  uint64_t shape = 0;
  int seen = 0;
  std::vector<std::array<uint16_t, 64>> ones[2];
  std::vector<std::pair<int, int>> pairs;
  std::vector<int> roots;  // scalars of the root seed
  std::vector<uint64_t> all_or, all_and;
};
struct Hiding {
  View view[2];
  std::set<std::pair<uint64_t, uint64_t>> seeds;
  std::string what;
  Stream st{27, 3};
  int mask_bits = 0;  // randomness a key needs besides its two seeds
  std::vector<Node*> dealers;

  void Note(int party, int secret, const pb::Message& key, std::vector<uint64_t>* out) {
    NoPreempt np;
    View& v = view[party];
    std::vector<uint64_t> s;
    uint64_t shape = 1;
    Flatten(key, "", &s, v.seen ? nullptr : &v.names, &shape);
    if (!v.seen) {
      v.shape = shape;
      int n = s.size();
      // Neighbours (values of one or two words, alone or in tuples) near the
      // start, the end and somewhere, and any two words.
      std::set<std::pair<int, int>> pick;
      int from[3] = {0, std::max(0, n - 80), (int)st.Below(n)}, len[3] = {40, 80, 40};
      for (int w = 0; w < 3; w++)
        for (int i = from[w]; i < from[w] + len[w]; i++)
          for (int step : {1, 2, 4})
            if (i + step < n) pick.emplace(i, i + step);
      for (int i = 0; i < 100 && n > 1; i++) pick.emplace(st.Below(n), st.Below(n));
      v.pairs.assign(pick.begin(), pick.end());
      for (auto& o : v.ones) o.resize(n + 3 * v.pairs.size());
      for (int i = 0; i < n; i++) {
        const std::string& p = v.names[i];
        if (p == ".seed.high" || p == ".seed.low" || p == ".key.seed.high" || p == ".key.seed.low" || p == ".dcfkey.key.seed.high" || p == ".dcfkey.key.seed.low")
          v.roots.push_back(i);
      }
      v.all_or.assign(v.roots.size(), 0);
      v.all_and.assign(v.roots.size(), ~0ull);
    }
    if (shape != v.shape) Violate("key-shape", "%s: party %d's key for one secret has another shape than for another", what.c_str(), party);
    v.seen++;
    auto& o = v.ones[secret];
    auto tally = [&](size_t f, uint64_t x) {
      uint16_t* c = o[f].data();
      for (int k = 0; k < 64; k++) c[k] += x >> k & 1;
    };
    size_t f = 0;
    for (uint64_t x : s) tally(f++, x);
    for (auto& [i, j] : v.pairs) {
      tally(f++, s[i] ^ s[j]);
      tally(f++, s[i] - s[j]);
      tally(f++, s[i] + s[j]);
    }
    for (size_t i = 0; i < v.roots.size(); i++) v.all_or[i] |= s[v.roots[i]], v.all_and[i] &= s[v.roots[i]];
    if (v.roots.size() == 2) {
      auto seed = std::make_pair(s[v.roots[0]], s[v.roots[1]]);
      if (!seeds.insert(seed).second) Violate("seed-repeated", "%s: a secret seed was handed out twice", what.c_str());
    }
    *out = s;
  }
  void Pair(int secret, const pb::Message& k0, const pb::Message& k1) {
    std::vector<uint64_t> s[2];
    Note(0, secret, k0, &s[0]);
    Note(1, secret, k1, &s[1]);
    // Neither key holds the other's secret seed.
    for (int b = 0; b < 2; b++) {
      auto& roots = view[1 - b].roots;
      if (roots.size() != 2) continue;
      for (size_t i = 0; i + 1 < s[b].size(); i++)
        if (s[b][i] == s[1 - b][roots[0]] && s[b][i + 1] == s[1 - b][roots[1]])
          Violate("seed-of-other-party", "%s: party %d's key contains party %d's seed", what.c_str(), b, 1 - b);
    }
  }
  std::string Name(View& v, size_t f) {
    size_t n = v.names.size();
    if (f < n) return v.names[f];
    f -= n;
    const char* op[] = {" xor ", " - ", " + "};
    return v.names[v.pairs[f / 3].first] + op[f % 3] + v.names[v.pairs[f / 3].second];
  }
  void Finish() {
    // Independent seeds and masks cannot come from less entropy than this.
    uint64_t drawn = 0;
    for (Node* n : dealers) drawn += n->rand_bytes;
    uint64_t need = 2 * kPer * (256 + (uint64_t)mask_bits) / 8;
    if (drawn < need)
      Violate("too-little-entropy", "%s: %d key pairs were made from %llu bytes of entropy, their secrets need %llu", what.c_str(), 2 * kPer,
              (unsigned long long)drawn, (unsigned long long)need);
    for (int b = 0; b < 2; b++) {
      View& v = view[b];
      SIM_ASSERT(v.seen == 2 * kPer);
      for (size_t f = 0; f < v.ones[0].size(); f++)
        for (int k = 0; k < 64; k++) {
          // 48 of 64 is 8.5 standard deviations for independent fair bits.
          if (abs((int)v.ones[0][f][k] - (int)v.ones[1][f][k]) >= 48)
            Violate("key-follows-secret", "%s: bit %d of party %d's %s is set in %d of %d keys for one secret and in %d for the other", what.c_str(), k, b,
                    Name(v, f).c_str(), v.ones[0][f][k], kPer, v.ones[1][f][k]);
        }
      for (size_t i = 0; i < v.roots.size(); i++)
        if (~v.all_or[i] | v.all_and[i])
          Violate("seed-constant-bits", "%s: some bits of party %d's secret seed are the same in all of %d keys (%016llx)", what.c_str(), b, v.seen,
                  (unsigned long long)(~v.all_or[i] | v.all_and[i]));
      Count("probe:key-bits-compared", v.ones[0].size() * 64);
      State(Mix(v.names.size(), v.shape));
    }
  }
};
// Two secrets that differ in a drawn way.
void DrawTwoPoints(Stream& st, int log, U128 a[2], bool* value_differs) {
  a[0] = a[1] = log ? Rand128(st, log) : U128(0);
  *value_differs = true;
  switch (Draw(6)) {
    case 0: break;  // only the value
    case 1: *value_differs = false;  // fall through: one bit
    case 2: if (log) a[1] ^= Pow2(Draw(log)); break;
    case 3: a[0] = 0, a[1] = MaxOf(log); break;
    case 4: a[0] = 0, a[1] = MaxOf(log), *value_differs = false; break;
    case 5: a[1] = log ? Rand128(st, log) : U128(0); break;
  }
}
Flat Other(const DpfType& t, Stream& st, const Flat& a) {
  if (Draw(2)) return RandomLeaves(t, st, Draw(4));
  Flat b = a;  // one leaf
  size_t i = st.Below(b.size());
  b[i] = RandomLeaves(t, st, 0)[i];
  return b;
}
// Deals kPer keys for either secret, from one or two tasks, restarting at times.
void Deal(Hiding* h, const std::function<std::shared_ptr<void>()>& open, const std::function<void(void*, int secret)>& deal) {
  int tasks = 1 + Draw(2);
  auto left = std::make_shared<std::array<int, 2>>(std::array<int, 2>{kPer, kPer});
  NonTrivial();
  int style = Draw(2);
  for (int t = 0; t < tasks; t++) {
    Node* n = NewNode("dealer");
    h->dealers.push_back(n);
    n->rng_yields = tasks > 1 && Draw(2);
    n->simd = Draw(SimdTargets());
    int restart_every = Draw(3) ? 0 : 1 + Draw(40);
    Spawn("dealer", n, [=] {
      auto obj = open();
      Stream st(t, 277);
      for (int i = 0; (*left)[0] + (*left)[1] > 0; i++) {
        Span sp;
        if (restart_every && i % restart_every == restart_every - 1) {
          Count("fault:crash-restart");
          CurNode()->simd = st.Below(SimdTargets());
          Node* again = NewNode("dealer");  // fresh entropy
          memcpy(CurNode()->rng, again->rng, sizeof again->rng);
          ApplySimd();
          obj = open();
        }
        int secret = style ? (*left)[0] == 0 : (int)st.Below(2);  // one after the other, or mixed
        if (!(*left)[secret]) secret = 1 - secret;
        (*left)[secret]--;
        deal(obj.get(), secret);
        if (tasks > 1) Yield();
      }
    });
  }
  RunAll();
  h->Finish();
}
}  // namespace

SCENARIO(P27, points, 4) {
  auto h = std::make_shared<Hiding>();
  Stream st(27);
  DpfOpts o;
  DpfSetup s = DrawDpfSetup(o);
  U128 a[2];
  bool vd;
  DrawTwoPoints(st, s.logs.back(), a, &vd);
  std::vector<Flat> betas[2];
  size_t only = Draw(2) ? s.types.size() : st.Below(s.types.size());
  for (size_t i = 0; i < s.types.size(); i++) {
    betas[0].push_back(RandomLeaves(*s.types[i], st, Draw(4)));
    betas[1].push_back(vd && (only == s.types.size() || only == i) ? Other(*s.types[i], st, betas[0][i]) : betas[0][i]);
  }
  h->what = "point function " + s.Describe();
  Log("%s points %s %s", h->what.c_str(), Show(a[0]).c_str(), Show(a[1]).c_str());
  bool typed = s.levels() == 1 && Draw(2);
  Deal(
      h.get(), [&] { return std::shared_ptr<void>(OpenDpf(s, true)); },
      [&](void* obj, int secret) {
        auto* dpf = (d::DistributedPointFunction*)obj;
        absl::StatusOr<std::pair<d::DpfKey, d::DpfKey>> k = absl::InternalError("");
        if (typed) {
          k = s.types[0]->Gen(*dpf, a[secret], betas[secret][0].data());
        } else {
          std::vector<d::Value> v;
          for (int i = 0; i < s.levels(); i++) v.push_back(s.types[i]->MakeValue(betas[secret][i].data()));
          k = dpf->GenerateKeysIncremental(a[secret], absl::MakeConstSpan(v));
        }
        if (!k.ok()) Violate("dpf-gen", "key generation for valid input failed (%s): %s", s.Describe().c_str(), k.status().ToString().c_str());
        h->Pair(secret, k->first, k->second);
      });
}

SCENARIO(P27, comparisons, 2) {
  auto h = std::make_shared<Hiding>();
  Stream st(28);
  int log = Draw(2) ? 1 + Draw(10) : 1 + Draw(128);
  const DpfType* t;
  do t = Types()[Draw(Types().size())];
  while (t->max_domain < log);
  d::DcfParameters params;
  params.mutable_parameters()->set_log_domain_size(log);
  *params.mutable_parameters()->mutable_value_type() = t->vt;
  U128 a[2];
  bool vd;
  DrawTwoPoints(st, log, a, &vd);
  Flat b[2];
  b[0] = RandomLeaves(*t, st, Draw(4));
  b[1] = vd ? Other(*t, st, b[0]) : b[0];
  h->what = "comparison function " + std::to_string(log) + ":" + t->name;
  Log("%s thresholds %s %s", h->what.c_str(), Show(a[0]).c_str(), Show(a[1]).c_str());
  Deal(
      h.get(),
      [&] {
        auto r = d::DistributedComparisonFunction::Create(params);
        if (!r.ok()) Violate("dcf-create", "valid parameters refused (%s): %s", h->what.c_str(), r.status().ToString().c_str());
        return std::shared_ptr<void>(std::move(*r));
      },
      [&](void* obj, int secret) {
        auto k = t->DcfGen(*(d::DistributedComparisonFunction*)obj, a[secret], b[secret].data());
        if (!k.ok()) Violate("dcf-gen", "key generation failed (%s): %s", h->what.c_str(), k.status().ToString().c_str());
        h->Pair(secret, k->first, k->second);
      });
}

SCENARIO(P27, gates, 2) {
  auto h = std::make_shared<Hiding>();
  Stream st(29);
  int log = Draw(2) ? 1 + Draw(10) : 1 + Draw(127);
  g::MicParameters params;
  params.set_log_group_size(log);
  int ni = Draw(8) ? 1 + Draw(4) : 0;
  auto set = [&](d::Value::Integer* v, U128 x) {
    v->mutable_value_uint128()->set_high(absl::Uint128High64(x));
    v->mutable_value_uint128()->set_low(absl::Uint128Low64(x));
  };
  for (int i = 0; i < ni; i++) {
    U128 lo = Rand128(st, log), hi = Rand128(st, log);
    if (lo > hi) std::swap(lo, hi);
    if (Chance(1, 5)) lo = 0;
    auto* in = params.add_intervals();
    set(in->mutable_lower_bound(), lo);
    set(in->mutable_upper_bound(), hi);
  }
  U128 rin[2];
  bool vd;
  DrawTwoPoints(st, log, rin, &vd);
  std::vector<U128> rout[2];
  for (int i = 0; i < ni; i++) {
    rout[0].push_back(Draw(3) ? Rand128(st, log) : U128(0));
    rout[1].push_back(vd ? (Draw(2) ? MaxOf(log) : Rand128(st, log)) : rout[0][i]);
  }
  h->mask_bits = ni * log;
  h->what = "interval gate over 2^" + std::to_string(log) + " with " + std::to_string(ni) + " intervals";
  Log("%s masks %s %s", h->what.c_str(), Show(rin[0]).c_str(), Show(rin[1]).c_str());
  Deal(
      h.get(),
      [&] {
        auto r = g::MultipleIntervalContainmentGate::Create(params);
        if (!r.ok()) Violate("mic-create", "valid parameters refused: %s", r.status().ToString().c_str());
        return std::shared_ptr<void>(std::move(*r));
      },
      [&](void* obj, int secret) {
        auto k = ((g::MultipleIntervalContainmentGate*)obj)->Gen(rin[secret], rout[secret]);
        if (!k.ok()) Violate("mic-gen", "key generation failed (%s): %s", h->what.c_str(), k.status().ToString().c_str());
        h->Pair(secret, k->first, k->second);
      });
}
}  // namespace sim
