#include "inst_dpf.h"

#include <cmath>

#include "dpf/int_mod_n.h"
#include "dpf/tuple.h"
#include "dpf/xor_wrapper.h"

using namespace distributed_point_functions;

namespace {
template <class T, class = void>
struct Fl;
template <class T>
struct Fl<T, std::enable_if_t<std::is_integral<T>::value || std::is_same<T, U128>::value>> {
  static constexpr int kLeaves = 1;
  static void Put(const T& v, U128* o) { *o = U128(v); }
  static T Get(const U128* i) { return static_cast<T>(*i); }
  static void Desc(std::vector<Leaf>& l) { l.push_back({int(8 * sizeof(T)), 0, false}); }
};
template <class T>
struct Fl<XorWrapper<T>, void> {
  static constexpr int kLeaves = 1;
  static void Put(const XorWrapper<T>& v, U128* o) { *o = U128(v.value()); }
  static XorWrapper<T> Get(const U128* i) { return XorWrapper<T>(static_cast<T>(*i)); }
  static void Desc(std::vector<Leaf>& l) { l.push_back({int(8 * sizeof(T)), 0, true}); }
};
template <class B, class M, M N>
struct Fl<dpf_internal::IntModNImpl<B, M, N>, void> {
  typedef dpf_internal::IntModNImpl<B, M, N> T;
  static constexpr int kLeaves = 1;
  static void Put(const T& v, U128* o) { *o = U128(v.value()); }
  static T Get(const U128* i) { return T(static_cast<B>(*i)); }
  static void Desc(std::vector<Leaf>& l) { l.push_back({int(8 * sizeof(B)), U128(N), false}); }
};
template <class... E>
struct Fl<Tuple<E...>, void> {
  static constexpr int kLeaves = (Fl<E>::kLeaves + ...);
  static void Put(const Tuple<E...>& v, U128* o) {
    std::apply([&](const E&... e) { ((Fl<E>::Put(e, o), o += Fl<E>::kLeaves), ...); }, v.value());
  }
  static Tuple<E...> Get(const U128* i) {
    return Tuple<E...>{[&] {
      E e = Fl<E>::Get(i);
      i += Fl<E>::kLeaves;
      return e;
    }()...};
  }
  static void Desc(std::vector<Leaf>& l) { (Fl<E>::Desc(l), ...); }
};

template <class T>
Flat ToFlat(absl::Span<const T> v) {
  Flat r(v.size() * Fl<T>::kLeaves);
  for (size_t i = 0; i < v.size(); i++) Fl<T>::Put(v[i], &r[i * Fl<T>::kLeaves]);
  return r;
}
template <class T>
absl::StatusOr<Flat> ToFlat(const absl::StatusOr<std::vector<T>>& v) {
  if (!v.ok()) return v.status();
  return ToFlat<T>(absl::MakeConstSpan(*v));
}

template <class T>
struct Impl : DpfType {
  explicit Impl(const char* n, int max_dom = 128) {
    name = n;
    max_domain = max_dom;
    Fl<T>::Desc(leaves);
    vt = ToValueType<T>();
  }
  Value MakeValue(const U128* l) const override { return ToValue<T>(Fl<T>::Get(l)); }
  absl::Status Register(DistributedPointFunction& d) const override { return d.RegisterValueType<T>(); }
  absl::StatusOr<Flat> Until(const DistributedPointFunction& d, int level, absl::Span<const U128> p,
                             EvaluationContext& ctx) const override {
    return ToFlat<T>(d.EvaluateUntil<T>(level, p, ctx));
  }
  absl::StatusOr<Flat> Next(const DistributedPointFunction& d, absl::Span<const U128> p,
                            EvaluationContext& ctx) const override {
    return ToFlat<T>(d.EvaluateNext<T>(p, ctx));
  }
  absl::StatusOr<Flat> At(const DistributedPointFunction& d, const DpfKey& key, int level,
                          absl::Span<const U128> p) const override {
    return ToFlat<T>(d.EvaluateAt<T>(key, level, p));
  }
  absl::StatusOr<Flat> AtCtx(const DistributedPointFunction& d, int level, absl::Span<const U128> p,
                             EvaluationContext& ctx) const override {
    return ToFlat<T>(d.EvaluateAt<T>(level, p, ctx));
  }
  absl::Status Apply(const DistributedPointFunction& d, const std::vector<const DpfKey*>& pk, bool ptrs,
                     absl::Span<const U128> p, std::function<bool(const Flat&)> op, int rightshift) const override {
    auto f = [&](absl::Span<const T> v) { return op(ToFlat<T>(v)); };
    if (!ptrs) {
      std::vector<DpfKey> keys;
      for (auto* k : pk) keys.push_back(*k);
      return d.EvaluateAndApply<T>(absl::MakeConstSpan(keys), p, f, rightshift);
    }
    return d.EvaluateAndApply<T>(absl::MakeConstSpan(pk), p, f, rightshift);
  }
  absl::StatusOr<std::pair<DpfKey, DpfKey>> Gen(DistributedPointFunction& d, U128 alpha,
                                                const U128* l) const override {
    return d.GenerateKeys(alpha, Fl<T>::Get(l));
  }
  absl::StatusOr<std::pair<DcfKey, DcfKey>> DcfGen(DistributedComparisonFunction& d, U128 alpha,
                                                   const U128* l) const override {
    return d.GenerateKeys(alpha, Fl<T>::Get(l));
  }
  absl::StatusOr<Flat> DcfEval(DistributedComparisonFunction& d, const DcfKey& key, U128 x) const override {
    auto r = d.Evaluate<T>(key, x);
    if (!r.ok()) return r.status();
    return ToFlat<T>(absl::MakeConstSpan(&*r, 1));
  }
  static Flat One(const T& v) { return ToFlat<T>(absl::MakeConstSpan(&v, 1)); }
  Flat Combine(int op, const U128* a, const U128* b) const override {
    T x = Fl<T>::Get(a), y = Fl<T>::Get(b);
    switch (op) {
      case 0: return One(T(x + y));
      case 1: return One(T(x - y));
      case 2: x += y; return One(x);
      case 3: x -= y; return One(x);
      case 4: return One(T(-x));
      case 5: x += x; return One(x);
      case 6: x -= x; return One(x);
      default: return One(T(x + x));
    }
  }
  int Same(const U128* a, const U128* b) const override {
    T x = Fl<T>::Get(a), y = Fl<T>::Get(b);
    bool eq = x == y, ne = x != y;
    return eq == ne ? 2 : eq;
  }
  Flat Zero() const override { return One(T{}); }
  Value Save(const U128* l) const override { return ToValue<T>(Fl<T>::Get(l)); }
  absl::StatusOr<Flat> Load(const Value& v) const override {
    auto r = FromValue<T>(v);
    if (!r.ok()) return r.status();
    return One(*r);
  }
  absl::StatusOr<Flat> DcfBatch(DistributedComparisonFunction& d, const std::vector<const DcfKey*>& pk, int mode,
                                absl::Span<const U128> p) const override {
    if (mode == 0) {
      std::vector<DcfKey> keys;
      for (auto* k : pk) keys.push_back(*k);
      return ToFlat<T>(d.BatchEvaluate<T>(absl::MakeConstSpan(keys), p));
    }
    if (mode == 1) return ToFlat<T>(d.BatchEvaluate<T>(absl::MakeConstSpan(pk), p));
    // The output buffer holds old values.
    Flat junk(Fl<T>::kLeaves, U128(1));
    std::vector<T> out(mode == 3 ? pk.size() - 1 : mode == 4 ? pk.size() + 1 : pk.size(), Fl<T>::Get(junk.data()));
    auto s = d.BatchEvaluate<T>(absl::MakeConstSpan(pk), p, absl::MakeSpan(out));
    if (!s.ok()) return s;
    return ToFlat<T>(absl::MakeConstSpan(out));
  }
};
}  // namespace

const std::vector<DpfType*>& Types() {
  // Domain limits: the security level 40 + log_domain must be reachable when
  // sampling modulo N from 128-bit blocks.
  using M32 = IntModN<uint32_t, 4294967291u>;
  using M32s = IntModN<uint32_t, 3>;
  using M64 = IntModN<uint64_t, 18446744073709551557ull>;
  using M8 = IntModN<uint8_t, 251>;
  using M80 = IntModN<U128, (((unsigned __int128)1) << 80) - 65>;
  static auto* v = new std::vector<DpfType*>{
      new Impl<U128>("u128"),
      new Impl<uint64_t>("u64"),
      new Impl<uint32_t>("u32"),
      new Impl<uint16_t>("u16"),
      new Impl<uint8_t>("u8"),
      new Impl<XorWrapper<U128>>("xor128"),
      new Impl<XorWrapper<uint32_t>>("xor32"),
      new Impl<XorWrapper<uint8_t>>("xor8"),
      new Impl<M32>("mod32", 58),
      new Impl<M32s>("mod3", 88),
      new Impl<M64>("mod64", 25),
      new Impl<Tuple<uint32_t, uint64_t>>("t(u32,u64)"),
      new Impl<Tuple<uint8_t, uint16_t>>("t(u8,u16)"),
      new Impl<Tuple<uint64_t, U128, uint8_t>>("t(u64,u128,u8)"),
      new Impl<Tuple<M32, M32, M32>>("t(mod32 x3)", 54),
      new Impl<Tuple<uint32_t, M64>>("t(u32,mod64)", 24),
      new Impl<Tuple<M32, Tuple<U128, U128>>>("t(mod32,t(u128,u128))", 54),
      new Impl<Tuple<M64, uint64_t, uint32_t, uint32_t>>("t(mod64,u64,u32,u32)", 22),
      new Impl<Tuple<Tuple<uint8_t, XorWrapper<uint16_t>>, uint8_t>>("t(t(u8,xor16),u8)"),
      new Impl<Tuple<XorWrapper<uint64_t>, uint64_t>>("t(xor64,u64)"),
      new Impl<Tuple<M8, M8>>("t(mod8,mod8)", 79),
      new Impl<Tuple<M80, uint8_t>>("t(mod80,u8)", 9),
  };
  return *v;
}

const std::vector<DpfType*>& ArithmeticTypes() {
  using M2 = IntModN<uint8_t, 2>;
  using M16 = IntModN<uint16_t, 65535>;
  using M63 = IntModN<uint64_t, (uint64_t{1} << 63)>;
  using M128 = IntModN<U128, ~(unsigned __int128)0 - 158>;
  using M128b = IntModN<U128, ((unsigned __int128)1 << 127) + 3>;
  static auto* v = [] {
    auto* r = new std::vector<DpfType*>(Types());
    r->push_back(new Impl<M2>("mod2", 0));
    r->push_back(new Impl<M16>("mod65535", 0));
    r->push_back(new Impl<M63>("mod2^63", 0));
    r->push_back(new Impl<M128>("mod2^128-159", 0));
    r->push_back(new Impl<M128b>("mod2^127+3", 0));
    r->push_back(new Impl<XorWrapper<uint16_t>>("xor16"));
    r->push_back(new Impl<Tuple<M128, XorWrapper<U128>, uint16_t, M2>>("t(mod128,xor128,u16,mod2)", 0));
    r->push_back(new Impl<Tuple<Tuple<M16, Tuple<uint8_t>>, Tuple<M63, M128b>>>("t(t(mod16,t(u8)),t(mod63,mod127))", 0));
    return r;
  }();
  return *v;
}

U128 LeafAdd(const Leaf& l, U128 a, U128 b) {
  if (l.xored) return a ^ b;
  if (l.mod != 0) {
    return a >= l.mod - b ? a - (l.mod - b) : a + b;
  }
  U128 r = a + b;
  return l.bits == 128 ? r : r & (Pow2(l.bits) - 1);
}
U128 LeafNeg(const Leaf& l, U128 a) {
  if (l.xored) return a;
  if (l.mod != 0) return a == 0 ? a : l.mod - a;
  U128 r = U128(0) - a;
  return l.bits == 128 ? r : r & (Pow2(l.bits) - 1);
}
U128 Rand128(sim::Stream& st, int bits) {
  uint64_t hi = st.Next(), lo = st.Next();
  U128 v = absl::MakeUint128(hi, lo);
  return bits >= 128 ? v : v & (Pow2(bits) - 1);
}
Flat RandomLeaves(const DpfType& t, sim::Stream& st, int mode) {
  Flat f;
  for (auto& l : t.leaves) {
    U128 max = l.mod != 0 ? l.mod - 1 : l.bits == 128 ? absl::Uint128Max() : Pow2(l.bits) - 1;
    U128 v = Rand128(st, l.bits);
    if (mode == 1) v = 1;
    if (mode == 2) v = max;
    if (mode == 3) v = 0;
    if (v > max) v = v % (max + 1);
    f.push_back(v);
  }
  return f;
}
std::string Show(U128 v) {
  char b[48];
  uint64_t hi = absl::Uint128High64(v), lo = absl::Uint128Low64(v);
  if (hi) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)hi, (unsigned long long)lo);
  else snprintf(b, sizeof b, "%llu", (unsigned long long)lo);
  return b;
}
