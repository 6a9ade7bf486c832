// Point functions under the simulator: parameters, programmed values, keys as
// stored bytes, and the mathematical definition they are checked against.
#ifndef SIM_DPF_WORLD_H_
#define SIM_DPF_WORLD_H_
#include <memory>
#include <string>
#include <vector>

#include "inst_dpf.h"
#include "sim.h"
#include "util.h"

namespace sim {
namespace d = ::distributed_point_functions;

struct DpfOpts {
  int max_levels = 6;
  int max_log = 128;
  bool same_type = false;
  bool any_security = true;  // sometimes set security_parameter explicitly
};
struct DpfSetup {
  std::vector<int> logs;
  std::vector<const DpfType*> types;
  std::vector<d::DpfParameters> params;
  int levels() const { return logs.size(); }
  std::string Describe() const;
};
struct DpfPair {
  U128 alpha;
  std::vector<Flat> betas;
  std::string key[2];  // as stored
};
DpfSetup DrawDpfSetup(const DpfOpts& o);
// A party's own object, built from the shared parameters.
std::unique_ptr<d::DistributedPointFunction> OpenDpf(const DpfSetup& s, bool register_types = false, int fault = 0);
// `fault`: calls on the way fail with probability 1/fault (0: never) and are repeated.
DpfPair DealDpf(const DpfSetup& s, d::DistributedPointFunction* dpf, Stream& st, int fault = 0);
d::DpfKey LoadKey(const std::string& bytes);
inline U128 Shr(U128 v, int n) { return n >= 128 ? U128(0) : v >> n; }
inline U128 Shl(U128 v, int n) { return n >= 128 ? U128(0) : v << n; }
inline U128 MaxOf(int log) { return log >= 128 ? absl::Uint128Max() : Pow2(log) - 1; }
// The programmed value at a point of a level.
Flat DpfExpect(const DpfSetup& s, const DpfPair& p, int level, U128 x);
Flat AddLeaves(const DpfType& t, const Flat& a, const Flat& b);
inline Flat Slice(const Flat& f, size_t i, size_t n) { return Flat(f.begin() + i * n, f.begin() + (i + 1) * n); }
std::string ShowFlat(const Flat& f);
// A point of a 2^log domain, often related to `hot`.
U128 DrawPoint(Stream& st, int log, U128 hot);
// A number that is no element of a domain of 2^log elements (log < 128), but may
// look like `inside` in its low or high bits.
U128 BeyondDomain(Stream& st, int log, U128 inside);
int DrawCount(int max);  // batch sizes, often around vector and batch boundaries
// While in scope (and on), the node's entropy source deals in extremes.
struct OddEntropy {
  explicit OddEntropy(bool on) : n(CurNode()), before(n->odd_entropy) {
    if (on) n->odd_entropy = true, Count("fault:odd-entropy");
  }
  ~OddEntropy() { n->odd_entropy = before; }
  Node* n;
  bool before;
};
// While in scope (and on), an aligned allocation or a call of the AES provider
// made on the node fails.
struct CallFault {
  explicit CallFault(Node* n, bool on);
  ~CallFault();
  bool fired() const;
  // The error has to be the one that was injected.
  void Check(const absl::Status& s, const char* what) const;
  Node* n;
  uint64_t before, cipher_before;
};
}  // namespace sim
#endif
