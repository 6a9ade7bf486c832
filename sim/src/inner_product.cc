// P09, one layer down: the inner product itself, over records the caller keeps
// wherever it likes.
#include <string.h>

#include <algorithm>
#include <new>

#include "pir/canonical_status_payload_uris.h"
#include "pir/internal/inner_product_hwy.h"
#include "sim.h"
#include "pir_world.h"
#include "util.h"

namespace sim {
namespace {
namespace d = ::distributed_point_functions;
typedef d::XorWrapper<absl::uint128> Block;

// A record at a chosen distance from an aligned address; ends where its
// allocation ends, so reading past it is noticed.
struct Placed {
  char* base;
  size_t off, size;
  Placed(size_t o, const std::string& s) : off(o), size(s.size()) {
    base = (char*)::operator new(off + size + (off + size == 0), std::align_val_t(64));
    memcpy(base + off, s.data(), size);
  }
  ~Placed() { ::operator delete(base, std::align_val_t(64)); }
  Placed(const Placed&) = delete;
  absl::string_view view() const { return absl::string_view(base + off, size); }
};

void Machine(const std::vector<std::string>& records, size_t longest, int ops, int id) {
  Stream st(90 + id);
  for (int op = 0; op < ops; op++) {
    Span sp;
    // Each machine maps the records differently.
    std::vector<std::unique_ptr<Placed>> mem;
    std::vector<absl::string_view> values;
    int place = Draw(4);
    for (auto& r : records) {
      size_t off = place == 0 ? 0 : place == 1 ? 16 * st.Below(4) : place == 2 ? st.Below(64) : st.Below(2) * st.Below(64);
      mem.push_back(std::make_unique<Placed>(off, r));
      values.push_back(mem.back()->view());
    }
    size_t n = values.size(), blocks = (n + 127) / 128 + (Chance(1, 4) ? Draw(3) : 0);
    int nsel = Chance(1, 10) ? 0 : 1 + Draw(6);
    std::vector<std::vector<Block>> sel;
    for (int k = 0; k < nsel; k++) {
      int style = Draw(5);
      std::vector<Block> v;
      for (size_t b = 0; b < blocks; b++) {
        absl::uint128 x = absl::MakeUint128(st.Next(), st.Next());
        if (style == 0) x = 0;
        if (style == 1) x = absl::Uint128Max();
        if (style == 2) x = absl::uint128(1) << st.Below(128);
        v.push_back(Block(x));
      }
      sel.push_back(v);
    }
    int64_t max = longest + (Chance(1, 3) ? Draw(70) : 0);
    bool bad = max == 0 && nsel, same_size = true;
    if (nsel && Chance(1, 6)) {
      Count("fault:bad-argument");
      NonTrivial();
      switch (Draw(4)) {
        case 0:
          if (longest == 0) break;
          max = Draw(longest);  // some record does not fit
          bad = true;
          break;
        case 1:
          max = -(int64_t)Draw(2) * 5;
          bad = true;
          break;
        case 2:
          if (blocks == 0 || n <= 128 * (blocks - 1)) break;
          sel[Draw(nsel)].pop_back();
          bad = true;
          same_size = false;
          break;
        case 3:
          if (nsel < 2) break;
          sel[Draw(nsel)].push_back(Block(1));
          bad = true;
          same_size = false;
          break;
      }
    }
    bool plain = !bad && nsel && Chance(1, 3);
    Node* me = CurNode();
    auto call = [&](bool fail, bool* failed) {
      uint64_t before = me->alloc_failures;
      me->alloc_fail_at = fail ? me->allocs + 1 + Draw(nsel) : 0;
      auto r = plain ? d::pir_internal::InnerProductNoHwy(values, sel, max) : d::pir_internal::InnerProduct(values, sel, max);
      me->alloc_fail_at = 0;
      *failed = me->alloc_failures != before;
      return r;
    };
    bool failed;
    auto r = call(nsel && !bad && Chance(1, 6), &failed);
    Log("M%d: %zu records, longest %zu, max %d, %d selections of %zu blocks, plain %d bad %d failed %d: %s", id, n, longest, (int)max, nsel, blocks, plain,
        bad, failed, StatusStr(r.status()).c_str());
    State(Mix(Mix(n, max), Mix(nsel, me->simd * 4 + place)));
    if (bad) {
      if (r.status().code() != absl::StatusCode::kInvalidArgument)
        Violate("inner-product-bad-argument", "%zu records, longest %zu, max_value_size %d, %d selections: %s", n, longest, (int)max, nsel,
                r.status().ToString().c_str());
      if (max <= 0 && same_size) {  // told apart from a wrong request
        auto payload = r.status().GetPayload(d::kPirInternalErrorUri);
        d::CanonicalPirError e;
        if (!payload || !e.ParseFromString(std::string(*payload)) || e.code() != d::CanonicalPirError::MAX_VALUE_SIZE_IS_ZERO)
          Violate("inner-product-payload", "records without content, but the error does not say so: %s", r.status().ToString().c_str());
        Count("probe:canonical-error");
      }
      continue;
    }
    if (failed && !r.ok()) {
      NonTrivial();
      if (r.status().code() != absl::StatusCode::kResourceExhausted) Violate("inner-product-alloc", "failed allocation reported as %s", r.status().ToString().c_str());
      r = call(false, &failed);
    }
    if (!r.ok()) Violate("inner-product-error", "valid call refused: %s", r.status().ToString().c_str());
    if ((int)r->size() != nsel) Violate("inner-product-count", "%zu results for %d selections", r->size(), nsel);
    for (int k = 0; k < nsel; k++) {
      std::string want(max, 0);
      for (size_t i = 0; i < n; i++) {
        uint64_t half = i % 128 < 64 ? absl::Uint128Low64(sel[k][i / 128].value()) : absl::Uint128High64(sel[k][i / 128].value());
        if (half >> (i % 64) & 1)
          for (size_t j = 0; j < values[i].size(); j++) want[j] ^= values[i][j];
      }
      if ((*r)[k] != want)
        Violate("inner-product-wrong", "%s: %zu records, longest %zu, width %d, selection %d of %d: got %s, expected %s", plain ? "plain" : "vectorised", n, longest,
                (int)max, k, nsel, Hex((*r)[k], 40).c_str(), Hex(want, 40).c_str());
    }
    for (size_t i = 0; i < n; i++)
      if (values[i] != records[i]) Violate("inner-product-wrote", "record %zu changed", i);
    if (Chance(1, 2)) Yield();
  }
}
}  // namespace

SCENARIO(P09, placed_records, 36) {
  auto records = std::make_shared<std::vector<std::string>>();
  Stream st(9);
  int n = Chance(1, 10) ? 0 : Chance(1, 3) ? 126 + Draw(6) : 1 + Draw(300);
  size_t len = Chance(1, 3) ? Draw(20) : Draw(200);
  size_t longest = 0;
  bool even = Chance(1, 2);
  for (int i = 0; i < n; i++) {
    records->push_back(st.Bytes(even ? len : st.Below(len + 1)));
    longest = std::max(longest, records->back().size());
  }
  int machines = 1 + Draw(3);
  if (machines > 1) NonTrivial();
  for (int m = 0; m < machines; m++) {
    Node* node = NewNode("machine");
    node->simd = Draw(SimdTargets());
    int ops = 1 + Draw(5);
    Spawn("machine", node, [=] { Machine(*records, longest, ops, m); });
  }
  RunAll();
}
}  // namespace sim
