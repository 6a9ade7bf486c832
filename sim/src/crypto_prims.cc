// P12 seeded generator, P13 fixed-key hash, P22 system-entropy generator.
#include <string.h>

#include <algorithm>
#include <array>
#include <memory>
#include <set>

#include "dpf/aes_128_fixed_key_hash.h"
#include "inst_rng.h"
#include "openssl/aes.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"
#include "sim.h"
#include "util.h"

using namespace distributed_point_functions;
using namespace sim;

namespace {
// Block-wise AES-128-CTR with a 128-bit big-endian counter.
struct RefStream {
  AES_KEY key;
  uint8_t ctr[16], block[16];
  int used = 16;
  RefStream(const std::string& seed, const std::string& nonce) {
    memcpy(ctr, nonce.data(), 16);
    AES_set_encrypt_key((const uint8_t*)seed.data(), 128, &key);
  }
  std::string Read(size_t n) {
    std::string s(n, 0);
    for (auto& c : s) {
      if (used == 16) {
        AES_encrypt(ctr, block, &key);
        for (int i = 15; i >= 0; i--)
          if (++ctr[i]) break;
        used = 0;
      }
      c = block[used++];
    }
    return s;
  }
};

struct Consumer {
  std::string seed, nonce, got;  // got: everything read since (re)creation
  bool with_nonce;
  std::unique_ptr<Aes128CtrSeededPrng> g;
  void Open() {
    // The inputs are caller-owned and gone after the call.
    auto s = std::make_unique<std::string>(seed), n = std::make_unique<std::string>(nonce);
    auto r = with_nonce ? Aes128CtrSeededPrng::CreateWithNonce(*s, *n) : Aes128CtrSeededPrng::Create(*s);
    if (!r.ok()) Violate("prng-create", "%s", r.status().ToString().c_str());
    g = std::move(*r);
    got.clear();
  }
};
std::string DrawNonce(Stream& st) {
  std::string n = st.Bytes(16);
  switch (Draw(5)) {
    case 0: n.assign(16, 0); break;
    case 1: {  // about to carry across k bytes
      int k = 1 + Draw(16);
      for (int i = 16 - k; i < 16; i++) n[i] = (char)0xff;
      n[15] = (char)(0xff - Draw(4));
      break;
    }
    case 2: n.assign(16, (char)0xff); break;
    default: break;
  }
  return n;
}
size_t DrawLen() {
  switch (Draw(6)) {
    case 0: return 16;
    case 1: return Draw(17);
    case 2: return 16 * Draw(12);
    case 3: return Draw(80);
    case 4: return 16 * (1 + Draw(20)) + Draw(3) - 1;
    default: return Chance(1, 20) ? Draw(140000) : Draw(5000);
  }
}
}  // namespace

SCENARIO(P12, streams, 4, true) {
  DrawPreempt();
  Stream st(1);
  int ntasks = 1 + Draw(4), nseeds = 1 + Draw(3);
  std::vector<std::pair<std::string, std::string>> ids;
  for (int i = 0; i < nseeds; i++) ids.emplace_back(i && Chance(1, 3) ? ids[0].first : st.Bytes(16), std::string());
  for (auto& p : ids) p.second = DrawNonce(st);
  Node* host = NewNode("host");
  if (ntasks > 1) NonTrivial();
  for (int t = 0; t < ntasks; t++) {
    std::vector<Consumer> cs(1 + Draw(3));
    for (auto& c : cs) {
      auto& id = ids[Draw(ids.size())];
      c.seed = id.first;
      c.with_nonce = Chance(2, 3);
      c.nonce = c.with_nonce ? id.second : std::string(16, 0);
    }
    int nops = Range(1, 40);
    auto csp = std::make_shared<std::vector<Consumer>>(std::move(cs));
    Spawn("consumer", host, [csp, nops, t] {
      for (auto& c : *csp) c.Open();
      for (int op = 0; op < nops; op++) {
        Span sp;
        int which = Draw(csp->size());
        Consumer& c = (*csp)[which];
        if (Chance(1, 12)) {  // the process holding it restarts
          Count("fault:crash-restart");
          NonTrivial();
          c.Open();
        } else if (Chance(1, 12)) {  // moved to another owner
          auto g = std::move(c.g);
          c.g = std::move(g);
        }
        size_t n = DrawLen();
        std::string out = c.g->GetRandomBytes(n);
        if (out.size() != n) Violate("prng-length", "asked for %zu bytes, got %zu", n, out.size());
        std::string want = RefStream(c.seed, c.nonce).Read(c.got.size() + n).substr(c.got.size());
        if (out != want) {
          size_t d = 0;
          while (out[d] == want[d]) d++;
          Violate("prng-stream", "read of %zu bytes at offset %zu (nonce %s) differs from the AES-128-CTR stream at byte %zu", n, c.got.size(), Hex(c.nonce).c_str(), d);
        }
        c.got += out;
        Log("T%d g%d read %zu", t, which, n);
        State(Mix(c.got.size() % 16, n % 16));
        Yield();
      }
    });
  }
  RunAll();
}

SCENARIO(P12, seeds, 2, true) {
  DrawPreempt();
  // Several processes and threads generate seeds; processes restart.
  int nproc = 1 + Draw(3);
  auto all = std::make_shared<std::map<std::string, int>>();
  auto ones = std::make_shared<std::vector<std::string>>();
  for (int p = 0; p < nproc; p++) {
    int gens = 1 + Draw(2);
    for (int g = 0; g < gens; g++) {
      Node* n = NewNode("proc");
      n->rng_yields = Chance(1, 2);
      int k = Range(1, 40), threads = 1 + Draw(2);
      if (threads > 1 || nproc > 1) NonTrivial();
      if (g) Count("fault:crash-restart");
      for (int th = 0; th < threads; th++)
        Spawn("gen", n, [=] {
          for (int i = 0; i < k; i++) {
            auto s = Aes128CtrSeededPrng::GenerateSeed();
            if (!s.ok()) Violate("seed-status", "%s", s.status().ToString().c_str());
            if (s->size() != Aes128CtrSeededPrng::SeedSize() || s->size() != 16)
              Violate("seed-length", "seed of %zu bytes", s->size());
            {
              NoPreempt np;
              if ((*all)[*s]++) Violate("seed-repeats", "seed %s generated twice (process %d)", Hex(*s).c_str(), p);
              ones->push_back(*s);
            }
            auto g1 = Aes128CtrSeededPrng::Create(*s);
            if (!g1.ok()) Violate("seed-unusable", "%s", g1.status().ToString().c_str());
            Log("P%d seed %s", p, Hex(*s).c_str());
          }
        });
    }
  }
  RunAll();
  // Every 32-bit aligned part is fresh entropy too.
  for (int off = 0; off < 16; off += 4) {
    std::map<std::string, int> m;
    int dup = 0;
    for (auto& s : *ones) dup += m[s.substr(off, 4)]++ > 0;
    if (dup > 3) Violate("seed-part-repeats", "bytes %d..%d of %zu seeds repeat %d times", off, off + 3, ones->size(), dup);
  }
  State(ones->size());
}

SCENARIO(P12, bad_arguments, 1) {
  Stream st(2);
  for (int i = 0; i < 12; i++) {
    Span sp;
    size_t a = Chance(1, 2) ? 16 : Draw(40), b = Chance(1, 2) ? 16 : (Chance(1, 2) ? a : Draw(40));
    std::string seed = st.Bytes(a), nonce = st.Bytes(b);
    auto r = Aes128CtrSeededPrng::CreateWithNonce(seed, nonce);
    auto r2 = Aes128CtrSeededPrng::Create(seed);
    if (r.ok() != (a == 16 && b == 16) || (!r.ok() && r.status().code() != absl::StatusCode::kInvalidArgument))
      Violate("prng-sizes", "CreateWithNonce(seed %zu bytes, nonce %zu bytes): %s", a, b, r.status().ToString().c_str());
    if (r2.ok() != (a == 16) || (!r2.ok() && r2.status().code() != absl::StatusCode::kInvalidArgument))
      Violate("prng-sizes", "Create(seed %zu bytes): %s", a, r2.status().ToString().c_str());
    if (!r.ok()) Count("fault:bad-argument"), NonTrivial();
    if (r.ok() && Chance(1, 2)) {  // the AES provider refuses the key
      Node* n = CurNode();
      n->cipher_calls = 0;
      n->cipher_fail_at = 1;
      auto f = Chance(1, 2) ? Aes128CtrSeededPrng::Create(seed) : Aes128CtrSeededPrng::CreateWithNonce(seed, nonce);
      n->cipher_fail_at = 0;
      NonTrivial();
      if (n->cipher_failures && f.status().code() != absl::StatusCode::kInternal)
        Violate("prng-key-failure", "the key could not be set up, but the call returned %s", f.status().ToString().c_str());
      n->cipher_failures = 0;
    }
    Log("seed %zu nonce %zu", a, b);
    State(Mix(a, b));
  }
}

// ------------------------------------------------------------------- P13
namespace {
absl::uint128 RefHash(absl::uint128 key, absl::uint128 x) {
  AES_KEY k;
  uint8_t kb[16], in[16], out[16];
  auto put = [](absl::uint128 v, uint8_t* p) {
    for (int i = 0; i < 16; i++) p[i] = (uint8_t)(absl::Uint128Low64(v >> (8 * i)) & 0xff);
  };
  put(key, kb);
  AES_set_encrypt_key(kb, 128, &k);
  uint64_t hi = absl::Uint128High64(x), lo = absl::Uint128Low64(x);
  absl::uint128 sigma = absl::MakeUint128(hi ^ lo, hi);
  put(sigma, in);
  AES_encrypt(in, out, &k);
  absl::uint128 r = 0;
  for (int i = 15; i >= 0; i--) r = (r << 8) | out[i];
  return r ^ sigma;
}
absl::uint128 DrawBlock(Stream& st, int mode) {
  uint64_t a = st.Next(), b = st.Next();
  switch (mode) {
    case 1: return absl::MakeUint128(0, a % 3);
    case 2: return absl::MakeUint128(a % 3, 0);
    case 3: return absl::Uint128Max() - a % 3;
    case 4: return absl::MakeUint128(a, a);
    default: return absl::MakeUint128(a, b);
  }
}
int DrawBatch() {
  switch (Draw(6)) {
    case 0: return 1 + Draw(4);
    case 1: return Draw(3);
    case 2: return 63 + Draw(3);
    case 3: return 64 * (1 + Draw(4)) + Draw(3) - 1;
    case 4: return Draw(64);
    default: return Draw(3) ? Draw(400) : Chance(1, 15) ? Draw(40000) : Draw(2200);
  }
}
}  // namespace

SCENARIO(P13, hash, 4, true) {
  DrawPreempt();
  Stream st(3);
  int nkeys = 1 + Draw(3), ntasks = 1 + Draw(4);
  auto hs = std::make_shared<std::vector<Aes128FixedKeyHash>>();
  auto keys = std::make_shared<std::vector<absl::uint128>>();
  for (int i = 0; i < nkeys; i++) {
    keys->push_back(DrawBlock(st, Draw(4)));
    auto k = std::make_unique<absl::uint128>(keys->back());
    auto h = Aes128FixedKeyHash::Create(*k);
    if (!h.ok()) Violate("hash-create", "%s", h.status().ToString().c_str());
    hs->push_back(std::move(*h));  // also moves the earlier ones when growing
  }
  for (int i = 0; i < nkeys; i++)
    if ((*hs)[i].key() != (*keys)[i]) Violate("hash-key", "key() is not the key it was created with");
  if (ntasks > 1) NonTrivial();
  for (int t = 0; t < ntasks; t++) {
    Node* n = NewNode("machine");
    n->simd = Draw(SimdTargets());
    int nops = Range(1, 8);
    Spawn("hasher", n, [=] {
      Stream st(20 + t);
      for (int op = 0; op < nops; op++) {
        Span sp;
        int k = Draw(keys->size());
        Aes128FixedKeyHash* h = &(*hs)[k];
        std::unique_ptr<Aes128FixedKeyHash> own;
        if (Chance(1, 12)) {  // the AES provider fails while an object is made
          Node* me = CurNode();
          uint64_t f0 = me->cipher_failures;
          me->cipher_calls = 0;
          me->cipher_fail_at = 1 + Draw(2);
          auto c = Aes128FixedKeyHash::Create((*keys)[k]);
          me->cipher_fail_at = 0;
          NonTrivial();
          if (me->cipher_failures != f0 && c.status().code() != absl::StatusCode::kInternal)
            Violate("hash-cipher-failure", "the AES provider failed, but Create returned %s", c.status().ToString().c_str());
        }
        if (Chance(1, 5)) {  // own object, moved around
          auto c = Aes128FixedKeyHash::Create((*keys)[k]);
          if (!c.ok()) Violate("hash-create", "%s", c.status().ToString().c_str());
          own = std::make_unique<Aes128FixedKeyHash>(std::move(*c));
          if (Chance(1, 2)) {
            auto c2 = Aes128FixedKeyHash::Create(DrawBlock(st, 0));
            *c2 = std::move(*own);
            own = std::make_unique<Aes128FixedKeyHash>(std::move(*c2));
          }
          h = own.get();
        }
        int n = DrawBatch(), mode = Draw(6);
        // 0 separate buffers, 1 in place, 2 out after in, 3 out before in, 4 wrong size
        int alias = Draw(5);
        int shift = (alias == 2 || alias == 3) ? (Chance(1, 3) ? 1 + Draw(2) : Draw(n + 2)) : 0;
        size_t total = alias == 0 || alias == 4 ? n : n + shift;
        // Exact-size heap buffers: any overrun is seen by AddressSanitizer.
        std::unique_ptr<absl::uint128[]> in(new absl::uint128[total]), out;
        for (size_t i = 0; i < total; i++) in[i] = DrawBlock(st, mode == 5 ? st.Below(5) : mode);
        std::vector<absl::uint128> orig(in.get(), in.get() + total);
        absl::uint128 *ip = in.get(), *op_;
        int out_n = n;
        if (alias == 0 || alias == 4) {
          if (alias == 4) out_n = Chance(1, 2) ? n + 1 + Draw(3) : std::max<int>(0, n - 1 - (int)Draw(3));
          out.reset(new absl::uint128[out_n]);
          for (int i = 0; i < out_n; i++) out[i] = 77;
          op_ = out.get();
        } else if (alias == 3) {
          op_ = ip;
          ip += shift;
        } else {
          op_ = ip + shift;
        }
        std::vector<absl::uint128> want(n);
        for (int i = 0; i < n; i++) want[i] = RefHash((*keys)[k], ip[i]);
        if (out_n == n && n && Chance(1, 8)) {
          // A call of the AES provider fails on the way: the caller is told,
          // and evaluating the same inputs again works.
          Node* me = CurNode();
          std::vector<absl::uint128> keep(ip, ip + n);
          uint64_t f0 = me->cipher_failures;
          me->cipher_calls = 0;
          me->cipher_fail_at = 1 + Draw(n > 64 ? 1 + n / 64 : 1);
          auto f = h->Evaluate(absl::MakeConstSpan(ip, n), absl::MakeSpan(op_, out_n));
          me->cipher_fail_at = 0;
          NonTrivial();
          if (me->cipher_failures != f0 && f.code() != absl::StatusCode::kInternal)
            Violate("hash-cipher-failure", "the AES provider failed, but the call returned %s", f.ToString().c_str());
          std::copy(keep.begin(), keep.end(), ip);
        }
        auto s = h->Evaluate(absl::MakeConstSpan(ip, n), absl::MakeSpan(op_, out_n));
        Log("T%d key %d n=%d alias=%d shift=%d -> %s", t, k, n, alias, shift, s.ToString().c_str());
        State(Mix(n, alias * 1000 + shift));
        if (out_n != n) {
          Count("fault:bad-argument");
          NonTrivial();
          if (s.code() != absl::StatusCode::kInvalidArgument)
            Violate("hash-size-mismatch", "in %d out %d: %s", n, out_n, s.ToString().c_str());
          for (int i = 0; i < out_n; i++)
            if (op_[i] != 77) Violate("hash-wrote-on-error", "output written on a size mismatch");
          continue;
        }
        if (!s.ok()) Violate("hash-failed", "%s", s.ToString().c_str());
        for (int i = 0; i < n; i++)
          if (op_[i] != want[i])
            Violate("hash-value", "block %d of %d (alias %d shift %d) is not the hash of its input", i, n, alias, shift);
        // Nothing else moved.
        for (size_t i = 0; i < total; i++) {
          absl::uint128* p = in.get() + i;
          bool written = (alias >= 1 && alias <= 3) && p >= op_ && p < op_ + n;
          if (!written && *p != orig[i]) Violate("hash-stray-write", "input block %zu changed", i);
        }
        if (Chance(1, 3)) Yield();
      }
    });
  }
  RunAll();
}

// ------------------------------------------------------------------- P22
namespace {
struct RngWorld {
  std::set<std::string> seen16;
};
}  // namespace
SCENARIO(P22, entropy, 4, true) {
  DrawPreempt();
  auto seen = std::make_shared<std::map<std::string, int>>();
  int nproc = 1 + Draw(3);
  for (int p = 0; p < nproc; p++) {
    int gens = 1 + Draw(2);
    for (int g = 0; g < gens; g++) {
      Node* n = NewNode("proc");
      n->record_rand = true;
      n->rng_yields = Chance(1, 2);
      if (g) Count("fault:crash-restart");
      auto shared = std::make_shared<std::vector<std::unique_ptr<SecurePrng>>>();
      int objs = 1 + Draw(2), threads = 1 + Draw(3);
      {
        NodeScope sc(n);
        for (int i = 0; i < objs; i++) {
          auto r = MakeBasicRng(Chance(1, 2) ? "" : "same seed");
          if (!r.ok()) Violate("rng-create", "%s", r.status().ToString().c_str());
          shared->push_back(std::move(*r));
        }
      }
      size_t created = n->rand_log.size();
      (void)created;
      if (threads > 1 || nproc > 1) NonTrivial();
      for (int th = 0; th < threads; th++) {
        int k = Range(1, 30);
        if (th == 0 && Chance(1, 15)) k = 100 + Draw(4000);
        Spawn("user", n, [=] {
          for (int i = 0; i < k; i++) {
            Span sp;
            size_t log0;
            SecurePrng* r;
            uint64_t fail0;
            absl::Status s;
            std::string v;
            int width;
            {
            NoPreempt np;
            r = (*shared)[Draw(shared->size())].get();
            if (Chance(1, 5)) {
              // Entropy fails at the next call or after a few more draws, of any thread.
              n->rng_fail_after = Draw(3);
              n->rng_fail_forever = Chance(1, 4);
            } else if (n->rng_fail_forever && Chance(1, 2)) {
              n->rng_fail_forever = false;
              n->rng_fail_after = -1;
            }
            width = Draw(3);
            log0 = n->rand_log.size();
            fail0 = n->rng_failures;
            }
            auto put = [&](auto x) { v.assign((const char*)&x, sizeof x); };
            if (width == 0) {
              auto x = r->Rand8();
              s = x.status();
              if (x.ok()) put(*x);
            } else if (width == 1) {
              auto x = r->Rand64();
              s = x.status();
              if (x.ok()) put(*x);
            } else {
              auto x = r->Rand128();
              s = x.status();
              if (x.ok()) put(*x);
            }
            NoPreempt np;
            size_t want = width == 0 ? 1 : width == 1 ? 8 : 16;
            std::string drawn;
            for (size_t j = log0; j < n->rand_log.size(); j++)
              if (n->rand_task[j] == CurTask()) drawn += n->rand_log[j];
            Log("P%d.%d T%d width %zu -> %s", p, g, CurTask(), want, s.ToString().c_str());
            State(Mix(want, Mix(s.ok(), threads)));
            if (s.ok()) {
              if (v != drawn)
                Violate("rng-value", "returned %s, entropy source handed out %s for this call", Hex(v).c_str(), Hex(drawn).c_str());
              if (want >= 8 && (*seen)[v]++) Violate("rng-repeats", "value %s returned twice", Hex(v).c_str());
            } else {
              NonTrivial();
              if (s.code() != absl::StatusCode::kInternal)
                Violate("rng-error-code", "entropy failure reported as %s", s.ToString().c_str());
              if (n->rng_failures == fail0) Violate("rng-spurious-error", "call failed although entropy was available");
            }
          }
        });
      }
    }
  }
  RunAll();
}
