#ifndef SIM_INST_RNG_H_
#define SIM_INST_RNG_H_
#include <memory>

#include "dcf/fss_gates/prng/prng.h"
// Compiled in an instrumented file so that the header-only generator is preemptible.
absl::StatusOr<std::unique_ptr<distributed_point_functions::SecurePrng>> MakeBasicRng(absl::string_view seed);
#endif
