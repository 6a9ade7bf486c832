#ifndef SIM_UTIL_H_
#define SIM_UTIL_H_
#include <memory>
#include <string>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "sim.h"
#define SIM_CAT_(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT_(a, b)
#define SIM_ASSIGN_(tmp, lhs, ...)       \
  auto tmp = (__VA_ARGS__);              \
  if (!tmp.ok()) return tmp.status();    \
  lhs = std::move(*tmp)
#define SIM_ASSIGN(lhs, ...) SIM_ASSIGN_(SIM_CAT(sim_tmp_, __COUNTER__), lhs, __VA_ARGS__)
#endif
