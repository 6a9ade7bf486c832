#include "inst_rng.h"

#include "dcf/fss_gates/prng/basic_rng.h"
absl::StatusOr<std::unique_ptr<distributed_point_functions::SecurePrng>> MakeBasicRng(absl::string_view seed) {
  auto r = distributed_point_functions::BasicRng::Create(seed);
  if (!r.ok()) return r.status();
  return std::unique_ptr<distributed_point_functions::SecurePrng>(std::move(*r));
}
