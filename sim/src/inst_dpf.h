// Type-erased access to the templated evaluation paths.  The templates are
// instantiated in inst_dpf.cc so that they are preemptible in the sched build.
#ifndef SIM_INST_DPF_H_
#define SIM_INST_DPF_H_
#include <functional>
#include <string>
#include <vector>

#include "dcf/distributed_comparison_function.h"
#include "dpf/distributed_point_function.h"
#include "sim.h"

typedef absl::uint128 U128;
typedef std::vector<U128> Flat;  // elements x leaves, in order

// How one leaf of a value adds up; independent of the library's operators.
struct Leaf {
  int bits;
  U128 mod;  // 0: 2^bits
  bool xored;
};
struct DpfType {
  std::string name;
  std::vector<Leaf> leaves;
  distributed_point_functions::ValueType vt;
  int max_domain = 128;  // largest log domain size at the default security parameter
  virtual ~DpfType() {}
  virtual distributed_point_functions::Value MakeValue(const U128* leaves) const = 0;
  virtual absl::Status Register(distributed_point_functions::DistributedPointFunction& d) const = 0;
  virtual absl::StatusOr<Flat> Until(const distributed_point_functions::DistributedPointFunction& d, int level,
                                     absl::Span<const U128> prefixes,
                                     distributed_point_functions::EvaluationContext& ctx) const = 0;
  virtual absl::StatusOr<Flat> Next(const distributed_point_functions::DistributedPointFunction& d,
                                    absl::Span<const U128> prefixes,
                                    distributed_point_functions::EvaluationContext& ctx) const = 0;
  virtual absl::StatusOr<Flat> At(const distributed_point_functions::DistributedPointFunction& d,
                                  const distributed_point_functions::DpfKey& key, int level,
                                  absl::Span<const U128> points) const = 0;
  virtual absl::StatusOr<Flat> AtCtx(const distributed_point_functions::DistributedPointFunction& d, int level,
                                     absl::Span<const U128> points,
                                     distributed_point_functions::EvaluationContext& ctx) const = 0;
  // ptrs: pass pointers to keys instead of a contiguous array.
  virtual absl::Status Apply(const distributed_point_functions::DistributedPointFunction& d,
                             const std::vector<const distributed_point_functions::DpfKey*>& keys, bool ptrs,
                             absl::Span<const U128> points, std::function<bool(const Flat&)> op,
                             int rightshift) const = 0;
  absl::Status Apply(const distributed_point_functions::DistributedPointFunction& d,
                     const std::vector<distributed_point_functions::DpfKey>& keys, bool ptrs, absl::Span<const U128> points,
                     std::function<bool(const Flat&)> op, int rightshift) const {
    std::vector<const distributed_point_functions::DpfKey*> pk;
    for (auto& k : keys) pk.push_back(&k);
    return Apply(d, pk, ptrs, points, std::move(op), rightshift);
  }
  virtual absl::StatusOr<std::pair<distributed_point_functions::DpfKey, distributed_point_functions::DpfKey>> Gen(
      distributed_point_functions::DistributedPointFunction& d, U128 alpha, const U128* leaves) const = 0;
  virtual absl::StatusOr<std::pair<distributed_point_functions::DcfKey, distributed_point_functions::DcfKey>> DcfGen(
      distributed_point_functions::DistributedComparisonFunction& d, U128 alpha, const U128* leaves) const = 0;
  virtual absl::StatusOr<Flat> DcfEval(distributed_point_functions::DistributedComparisonFunction& d,
                                       const distributed_point_functions::DcfKey& key, U128 x) const = 0;
  // mode 0: returns a vector, keys contiguous; 1: pointers; 2: writes to a caller-owned span,
  // 3, 4: one that is too short or too long.
  // The library's own arithmetic.  op 0: a + b, 1: a - b, 2: a += b, 3: a -= b,
  // 4: -a, 5: a += a, 6: a -= a, 7: a + a.
  virtual Flat Combine(int op, const U128* a, const U128* b) const = 0;
  // a == b and !(a != b), or neither; 2 if the operators contradict each other.
  virtual int Same(const U128* a, const U128* b) const = 0;
  virtual Flat Zero() const = 0;
  virtual distributed_point_functions::Value Save(const U128* leaves) const = 0;
  virtual absl::StatusOr<Flat> Load(const distributed_point_functions::Value& v) const = 0;
  virtual absl::StatusOr<Flat> DcfBatch(distributed_point_functions::DistributedComparisonFunction& d,
                                        const std::vector<const distributed_point_functions::DcfKey*>& keys, int mode,
                                        absl::Span<const U128> points) const = 0;
  absl::StatusOr<Flat> DcfBatch(distributed_point_functions::DistributedComparisonFunction& d,
                                const std::vector<distributed_point_functions::DcfKey>& keys, int mode,
                                absl::Span<const U128> points) const {
    std::vector<const distributed_point_functions::DcfKey*> pk;
    for (auto& k : keys) pk.push_back(&k);
    return DcfBatch(d, pk, mode, points);
  }
};
const std::vector<DpfType*>& Types();
// Types() and some more which are too wide to program a point function with.
const std::vector<DpfType*>& ArithmeticTypes();

// Reference arithmetic.
U128 LeafAdd(const Leaf& l, U128 a, U128 b);
U128 LeafNeg(const Leaf& l, U128 a);
Flat RandomLeaves(const DpfType& t, sim::Stream& st, int mode);
U128 Rand128(sim::Stream& st, int bits);
inline U128 Pow2(int b) { return U128(1) << b; }
std::string Show(U128 v);
#endif
