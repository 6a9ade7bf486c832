// P25: integers modulo N drawn from pseudorandom bytes.
#include <cmath>
#include <functional>
#include <memory>

#include "dpf/int_mod_n.h"
#include "dpf/internal/value_type_helpers.h"
#include "dpf_world.h"
#include "openssl/rand.h"
#include "pir_world.h"

namespace sim {
namespace {
struct Sampler {
  std::string name;
  int bits;
  U128 mod;
  std::function<absl::StatusOr<int>(int n, double sec)> need;
  // mode 0: checked, 1: unchecked, 2: unchecked with compile-time count
  std::function<absl::Status(const std::string& bytes, double sec, int n, int mode, std::vector<U128>* out)> sample;
  // The evaluation paths' way, for tuples of 1..4 and with another type in between.
  std::function<std::vector<U128>(const std::string& bytes, int n)> evaluate;
};
template <class T>
U128 Up(T v) {
  return U128(v.value());
}
template <class M, class B, M kN>
Sampler Make(const char* name) {
  typedef d::dpf_internal::IntModNImpl<B, M, kN> T;
  Sampler s;
  s.name = name;
  s.bits = 8 * sizeof(B);
  s.mod = U128(T::modulus());
  s.need = [](int n, double sec) { return T::GetNumBytesRequired(n, sec); };
  s.sample = [](const std::string& bytes, double sec, int n, int mode, std::vector<U128>* out) {
    // Old values in the output must not matter.
    std::vector<T> v(n, T(B(1)));
    absl::Status r;
    if (mode == 0) r = T::SampleFromBytes(bytes, sec, absl::MakeSpan(v));
    else if (mode == 1) T::UnsafeSampleFromBytes(bytes, sec, absl::MakeSpan(v));
    else T::template UnsafeSampleFromBytes<4>(bytes, sec, absl::MakeSpan(v));
    for (auto& x : v) out->push_back(Up(x));
    return r;
  };
  s.evaluate = [](const std::string& b, int n) -> std::vector<U128> {
    using d::dpf_internal::FromBytes;
    switch (n) {
      case 1: return {Up(FromBytes<T>(b))};
      case 2: {
        auto t = FromBytes<d::Tuple<T, T>>(b).value();
        return {Up(std::get<0>(t)), Up(std::get<1>(t))};
      }
      case 3: {
        auto t = FromBytes<d::Tuple<T, d::Tuple<T, T>>>(b).value();
        auto u = std::get<1>(t).value();
        return {Up(std::get<0>(t)), Up(std::get<0>(u)), Up(std::get<1>(u))};
      }
      case 4: {
        auto t = FromBytes<d::Tuple<T, T, T, T>>(b).value();
        return {Up(std::get<0>(t)), Up(std::get<1>(t)), Up(std::get<2>(t)), Up(std::get<3>(t))};
      }
    }
    return {};
  };
  return s;
}
#define SIM_MOD(B, N) Make<B, B, N>("mod " #N " over " #B)
#define SIM_MOD128(N, WHAT) Make<unsigned __int128, absl::uint128, N>("mod " WHAT " over uint128")
const std::vector<Sampler>& Samplers() {
  static auto* v = new std::vector<Sampler>{
      SIM_MOD(uint8_t, 251),
      SIM_MOD(uint8_t, 2),
      SIM_MOD(uint16_t, 65521),
      SIM_MOD(uint32_t, 4294967291u),
      SIM_MOD(uint32_t, 3),
      SIM_MOD(uint32_t, 2147483648u),
      SIM_MOD(uint64_t, 18446744073709551557ull),
      SIM_MOD(uint64_t, 1000000007ull),
      SIM_MOD128((((unsigned __int128)1) << 80) - 65, "2^80-65"),
      SIM_MOD128((((unsigned __int128)1) << 64) + 13, "2^64+13"),
      SIM_MOD128(5, "5"),
  };
  return *v;
}
U128 Le(const std::string& b, size_t at, size_t n) {
  U128 r = 0;
  for (size_t i = n; i-- > 0;) r = (r << 8) | (uint8_t)b[at + i];
  return r;
}
// The documented procedure: the first sample is taken from a 128-bit block; for
// each further one, what is left of the block after division makes room for the
// next bytes.
std::vector<U128> Documented(const Sampler& s, const std::string& b, int n) {
  std::vector<U128> out;
  U128 r = Le(b, 0, 16);
  int w = s.bits / 8;
  for (int i = 0; i < n; i++) {
    out.push_back(r % s.mod);
    if (i + 1 < n) r = Shl(r / s.mod, s.bits) | Le(b, 16 + i * w, w);
  }
  return out;
}
double Level(const Sampler& s, int n) { return 131 - std::log2((double)s.mod) - std::log2((double)n) - std::log2((double)n + 1); }
// Counts values by class; a class is as likely as any other.
struct Spread {
  std::vector<uint64_t> c = std::vector<uint64_t>(16);
  uint64_t n = 0;
  void Add(unsigned k) {
    c[k & 15]++;
    n++;
  }
  double Chi2() const {
    double e = n / 16.0, r = 0;
    for (uint64_t x : c) r += (x - e) * (x - e) / e;
    return r;
  }
};
}  // namespace

SCENARIO(P25, samplers, 4) {
  auto st = std::make_shared<Stream>(25);
  const Sampler& s = Samplers()[Draw(Samplers().size())];
  int machines = 1 + Draw(3);
  int n = 1 + Draw(Chance(1, 3) ? 40 : 5);
  double level = Level(s, n);
  while (n > 1 && level < 12) level = Level(s, --n);
  double sec = Chance(1, 3) ? level - 0.01 : std::max(1.0, level - 1 - Draw(60));
  size_t want_bytes = 16 + (size_t)s.bits / 8 * (n - 1);
  bool fine = s.mod > 4096;  // low bits of residues spread evenly
  Log("%s: %d samples at security %.2f", s.name.c_str(), n, sec);
  auto high = std::make_shared<std::vector<Spread>>(n), low = std::make_shared<std::vector<Spread>>(n), rel = std::make_shared<std::vector<Spread>>(n);
  int rounds = 600 / machines;
  NonTrivial();
  for (int m = 0; m < machines; m++) {
    Node* node = NewNode("sampler");
    Spawn("sampler", node, [=, &s] {
      for (int k = 0; k < rounds; k++) {
        if (k % 97 == 0) {
          Span sp;
          Yield();
        }
        auto need = s.need(n, sec);
        if (!need.ok()) Violate("sample-refused", "%s: %d samples at security %.2f (reachable: %.2f) are refused: %s", s.name.c_str(), n, sec, Level(s, n), need.status().ToString().c_str());
        if ((size_t)*need != want_bytes) Violate("sample-bytes", "%s: %d samples are said to take %d bytes instead of %zu", s.name.c_str(), n, *need, want_bytes);
        std::string b(*need, 0);
        SIM_ASSERT(RAND_bytes((uint8_t*)&b[0], b.size()) == 1);
        if (st->Below(4) == 0) b += st->Bytes(st->Below(20));  // longer buffers are fine
        std::vector<U128> got, again;
        int mode = st->Below(n <= 4 ? 3 : 2);
        absl::Status r = s.sample(b, sec, n, mode, &got);
        if (!r.ok()) Violate("sample-refused", "%s: %d samples from %zu bytes at security %.2f are refused: %s", s.name.c_str(), n, b.size(), sec, r.ToString().c_str());
        std::vector<U128> want = Documented(s, b, n);
        if (got != want) Violate("sample-value", "%s: %d samples of %s are %s instead of %s", s.name.c_str(), n, Hex(b).c_str(), ShowFlat(got).c_str(), ShowFlat(want).c_str());
        if (n <= 4 && s.evaluate(b, n) != want) Violate("sample-paths", "%s: evaluation derives other values from the same bytes than sampling does", s.name.c_str());
        for (int i = 0; i < n; i++) {
          if (got[i] >= s.mod) Violate("sample-range", "%s: sample %d is %s", s.name.c_str(), i, Show(got[i]).c_str());
          double f = (double)got[i] / (double)s.mod;
          if (fine) {
            (*high)[i].Add((unsigned)(f * 16));
            (*low)[i].Add((unsigned)absl::Uint128Low64(got[i]));
            if (i) (*rel)[i].Add((unsigned)absl::Uint128Low64(got[i] ^ got[i - 1]));
          }
        }
      }
    });
  }
  RunAll();
  for (int i = 0; i < n && fine; i++)
    for (auto* v : {&high, &low, &rel}) {
      const Spread& x = (**v)[i];
      if (x.n > 300 && x.Chi2() > 160)
        Violate("sample-bias", "%s: sample %d of %d is not uniform over %llu draws (chi-square %.0f over 16 classes)", s.name.c_str(), i, n, (unsigned long long)x.n, x.Chi2());
    }
  State(Mix(s.bits, n));
}

// What cannot be met is refused.
SCENARIO(P25, refusals, 1) {
  Stream st(251);
  NonTrivial();
  for (int k = 1 + Draw(20); k > 0; k--) {
    Span sp;
    const Sampler& s = Samplers()[Draw(Samplers().size())];
    int n = 1 + Draw(60);
    double level = Level(s, n), sec = level + (Chance(1, 2) ? 0.01 : 1 + Draw(80));
    auto r = s.need(n, sec);
    Count("fault:bad-argument");
    if (r.status().code() != absl::StatusCode::kInvalidArgument)
      Violate("sample-overclaim", "%s: %d samples at security %.2f, although only %.2f can be reached: %s", s.name.c_str(), n, sec, level, r.status().ToString().c_str());
    std::vector<U128> out;
    if (s.sample(st.Bytes(2000), sec, n, 0, &out).code() != absl::StatusCode::kInvalidArgument)
      Violate("sample-overclaim", "%s: sampling %d values at security %.2f goes ahead although only %.2f can be reached", s.name.c_str(), n, sec, level);
    // A short read of entropy.
    size_t need = 16 + (size_t)s.bits / 8 * (n - 1);
    std::string b = st.Bytes(Chance(1, 2) ? need - 1 : st.Below(need));
    Count("fault:short-read");
    out.clear();
    if (level > 3 && s.sample(b, level - 1, n, 0, &out).code() != absl::StatusCode::kInvalidArgument)
      Violate("sample-short", "%s: %d samples are drawn from %zu bytes where %zu are needed", s.name.c_str(), n, b.size(), need);
    out.clear();
    if (s.sample(b, 1, 0, 0, &out).code() != absl::StatusCode::kInvalidArgument) Violate("sample-none", "%s: sampling no values is not refused", s.name.c_str());
    if (s.need(-(int)Draw(3), 1).status().code() != absl::StatusCode::kInvalidArgument) Violate("sample-none", "%s: a number of samples below one is not refused", s.name.c_str());
    // Base integers that do not exist, or cannot hold the residues.
    {
      int bits = 8 << Draw(5);
      U128 m = Chance(1, 2) ? 2 + st.Below(200) : bits < 128 ? Shl(U128(1), bits) : ~U128(0);
      bool ok = true;
      switch (Draw(4)) {
        case 0: break;
        case 1: bits = -(int)Draw(130); ok = false; break;
        case 2: bits = 129 + Draw(1000); ok = false; break;
        case 3:
          if (bits == 128) break;
          m = Chance(1, 2) ? Shl(U128(1), bits) + 1 : Shl(U128(1), bits + Draw(128 - bits)) + 1 + st.Below(1000);
          ok = false;
          break;
      }
      typedef d::dpf_internal::IntModNBase Base;
      auto need_bytes = Base::GetNumBytesRequired(1, bits, m, 1);
      auto code = ok ? absl::StatusCode::kOk : absl::StatusCode::kInvalidArgument;
      if (need_bytes.status().code() != code || Base::CheckParameters(1, bits, m, 1).code() != code)
        Violate("sample-type", "residues modulo %s in a base integer of %d bits: %s", Show(m).c_str(), bits, need_bytes.status().ToString().c_str());
    }
    // A type that asks for it inside a point function.
    d::DpfParameters p;
    const DpfType* t;
    do t = Types()[Draw(Types().size())];
    while (t->max_domain == 128);
    p.set_log_domain_size(1 + Draw(20));
    *p.mutable_value_type() = t->vt;
    int mods = 0;
    U128 mod = 0;
    std::function<bool(const d::ValueType&)> scan = [&](const d::ValueType& v) {
      if (v.has_int_mod_n()) {
        mods++;
        auto& m = v.int_mod_n().modulus();
        mod = m.has_value_uint128() ? absl::MakeUint128(m.value_uint128().high(), m.value_uint128().low()) : U128(m.value_uint64());
      }
      return true;
    };
    scan(t->vt);
    if (mods != 1) continue;
    double top = 131 - std::log2((double)mod) - 1;
    bool within = Chance(1, 2) || top >= 127.9;
    p.set_security_parameter(within ? std::min(127.0, top - 0.01) : std::min(128.0, top + 0.01 + Draw(20)));
    bool got = d::DistributedPointFunction::Create(p).ok();
    if (got != within)
      Violate("sample-overclaim", "a point function over %s at security %.2f is %s; %.2f can be reached", t->name.c_str(), p.security_parameter(), got ? "accepted" : "refused", top);
  }
}
}  // namespace sim
