// A two-server PIR deployment under the simulator: clients, a Leader and a
// Helper (or two plain servers), talking over a lossy simulated network, each
// with its own disk, entropy, SIMD level and crash/restart history.
#ifndef SIM_PIR_WORLD_H_
#define SIM_PIR_WORLD_H_
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "absl/types/optional.h"
#include "pir/pir_client.h"
#include "pir/pir_database_interface.h"
#include "pir/pir_server.h"
#include "pir/dpf_pir_server.h"
#include "pir/dpf_pir_client.h"
#include "pir/private_information_retrieval.pb.h"
#include "sim.h"
#include "util.h"

namespace sim {
namespace d = ::distributed_point_functions;
using d::PirRequest;
using d::PirRequestClientState;
using d::PirResponse;

enum class Kind { kDense, kCuckoo, kSimple };
inline const char* KindName(Kind k) { return k == Kind::kDense ? "dense" : k == Kind::kCuckoo ? "cuckoo" : "simple"; }

// ------------------------------------------------ fake hybrid encryption
// Deterministic stand-in with the properties of the real primitive that the
// protocol uses: confidential, bound to a key pair and to the context info,
// and failing on any modification.
struct HybridKey {
  uint64_t secret;
};
std::string HybridEncrypt(const HybridKey& k, uint64_t nonce, absl::string_view plain, absl::string_view ctx);
absl::StatusOr<std::string> HybridDecrypt(const HybridKey& k, absl::string_view cipher, absl::string_view ctx);

// ------------------------------------------------------------ data model
struct Dataset {
  Kind kind;
  std::vector<std::pair<std::string, std::string>> records;  // key unused when dense
  size_t max_value = 0;
  std::map<std::string, std::string> by_key;
  bool all_values_empty() const { return max_value == 0; }
  // What a client must get for a query (dense: decimal index).
  absl::optional<std::string> Expect(const std::string& query) const;
  std::string PresentQuery(Stream& st) const;
  std::string AbsentQuery(Stream& st) const;
};
struct DataShape {
  int max_records = 300;
  int max_value = 80;
  bool allow_all_empty = false;
};
Dataset MakeDataset(Kind kind, uint64_t key, const DataShape& shape);

// Public parameters of a deployment epoch (what clients and servers share).
struct Params {
  Kind kind;
  d::PirConfig dense;
  d::CuckooHashingParams cuckoo;
  d::SimpleHashingParams simple;
};
// Generates parameters on `node` until both replicas can hold the data.
bool FitsParams(const Dataset& ds, const Params& p);
Params MakeParams(const Dataset& ds, bool from_server = true);

enum class Role { kPlain, kLeader, kHelper };
struct ServerDeps {
  d::DpfPirServer::ForwardHelperRequestFn sender;
  d::DpfPirServer::DecryptHelperRequestFn decrypter;
};
// Builds the database from records (in the given order) and the server on it.
absl::StatusOr<std::unique_ptr<d::PirServer>> MakeServer(const Params& p, const std::vector<std::pair<std::string, std::string>>& records,
                                                         Role role, ServerDeps deps);

// Type-erased client.
class AnyClient {
 public:
  virtual ~AnyClient() = default;
  virtual absl::StatusOr<std::pair<PirRequest, PirRequestClientState>> Create(const std::vector<std::string>& q) const = 0;
  virtual absl::StatusOr<std::tuple<d::DpfPirRequest::PlainRequest, d::DpfPirRequest::HelperRequest, PirRequestClientState>> CreatePlain(
      const std::vector<std::string>& q) const = 0;
  virtual absl::StatusOr<std::vector<absl::optional<std::string>>> Handle(const PirResponse& r, const PirRequestClientState& s) const = 0;
};
using EncryptFn = absl::AnyInvocable<absl::StatusOr<std::string>(absl::string_view, absl::string_view) const>;
absl::StatusOr<std::unique_ptr<AnyClient>> MakeClient(const Params& p, EncryptFn enc, const char* context = nullptr);

std::string Ctx(Kind k);  // the scheme's default context info

// --------------------------------------------------------------- network
struct NetCfg {
  unsigned drop = 0, dup = 0, slow = 0;  // per mille
  uint64_t min_us = 100, jitter_us = 2000, slow_us = 400000;
};
class Net {
 public:
  NetCfg cfg;
  bool faults_on = true;
  std::set<std::pair<std::string, std::string>> cut;  // partitioned pairs
  uint64_t sent = 0, delivered = 0;
  // Calls `deliver` zero, one or two times, later.
  void Send(const std::string& from, const std::string& to, std::function<void()> deliver);
};

std::string StatusStr(const absl::Status& s);
}  // namespace sim
#endif
