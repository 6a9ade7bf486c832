// Another release of the library: an independent implementation of the
// documented constructions and stored and wire formats, standing in for the
// binaries that keys, contexts, requests and replies are exchanged with during
// upgrades and rollbacks.  Slow and simple; shares no code with /repo except
// the message definitions.
#ifndef SIM_REF_RELEASE_H_
#define SIM_REF_RELEASE_H_
#include <map>
#include <string>
#include <utility>
#include <vector>

#include "dcf/fss_gates/multiple_interval_containment.pb.h"
#include "dpf_plan.h"
#include "pir_world.h"

namespace sim {
namespace ref {
// Messages as the other release reads and writes them: with the field numbers
// and types of the pinned message definitions.
bool ReadInto(const std::string& bytes, google::protobuf::Message* m);
std::string Write(const google::protobuf::Message& m);
template <class M>
M Read(const std::string& bytes) {
  M m;
  if (!ReadInto(bytes, &m)) Violate("release-parse", "another release cannot parse a %s written by this one", m.GetTypeName().c_str());
  return m;
}
// ------------------------------------------------------- point functions
d::Value MakeValue(const d::ValueType& t, const Flat& leaves);
class Fss {
 public:
  explicit Fss(const std::vector<d::DpfParameters>& params);
  void Gen(U128 alpha, const std::vector<d::Value>& betas, Stream& st, d::DpfKey out[2]) const;
  // One party's share at a point of a level.
  Flat At(const d::DpfKey& key, int level, U128 x) const;
  d::EvaluationContext Context(const d::DpfKey& key) const;
  // Executes a legal step on a stored context and updates it.
  Flat Run(const Step& s, d::EvaluationContext& ctx) const;
  int tree(int level) const { return g_[level].tree; }
  int blocks(int level) const { return g_[level].blocks; }
  int per_block(int level) const { return g_[level].per_block; }

 private:
  struct Level {
    int log, tree, blocks, per_block;
    d::ValueType vt;
    std::vector<Leaf> leaves;
  };
  struct Node {
    U128 seed;
    bool t;
  };
  // Partial evaluations known of a key, by (tree level, prefix).
  typedef std::map<std::pair<int, U128>, Node> Memo;
  Node Walk(const d::DpfKey& key, Memo& m, int tree_level, U128 prefix) const;
  Flat Share(const d::DpfKey& key, Memo& m, int level, U128 x) const;
  void Correction(int level, const Node n[2], U128 index, const d::Value& beta, google::protobuf::RepeatedPtrField<d::Value>* out) const;
  Flat Elements(const Level& l, U128 seed) const;
  std::vector<Level> g_;
  std::vector<d::DpfParameters> params_;
};
// ------------------------------------------------- comparison, intervals
class Cmp {
 public:
  explicit Cmp(const d::DpfParameters& p);
  void Gen(U128 alpha, const d::Value& beta, Stream& st, d::DcfKey out[2]) const;
  Flat At(const d::DcfKey& key, U128 x) const;

 private:
  int log_;
  std::vector<Leaf> leaves_;
  Fss fss_;
};
class Mic {
 public:
  explicit Mic(const d::fss_gates::MicParameters& p);
  void Gen(U128 r_in, const std::vector<U128>& r_out, Stream& st, d::fss_gates::MicKey out[2]) const;
  std::vector<U128> Eval(const d::fss_gates::MicKey& key, U128 x) const;

 private:
  U128 n_;
  std::vector<std::pair<U128, U128>> iv_;
  Cmp cmp_;
};
// --------------------------------------------------------------- hashing
int Sha256Bucket(const std::string& seed, const std::string& input, int upper_bound);
int BucketOf(const d::HashFamilyConfig& c, int function, const std::string& key, int num_buckets);
std::string Pad(const std::string& seed, size_t n);  // one-time-pad bytes

// -------------------------------------------------- information retrieval
struct Client {
  Params p;
  std::function<std::string(const std::string& plain, const std::string& context)> encrypt;
  std::pair<PirRequest, PirRequestClientState> Create(const std::vector<std::string>& q, Stream& st) const;
  std::vector<absl::optional<std::string>> Handle(const PirResponse& r, const PirRequestClientState& s) const;
};
struct Server {
  // False if the records cannot be laid out.
  bool Build(const Params& p, const std::vector<std::pair<std::string, std::string>>& records, Stream& st);
  PirResponse Plain(const d::DpfPirRequest::PlainRequest& r) const;
  PirResponse Helper(const d::DpfPirRequest::HelperRequest& r) const;
  static PirResponse Combine(const PirResponse& a, const PirResponse& b);
  Params p;
  std::vector<std::vector<std::string>> tables;  // one, or keys and values
  std::vector<size_t> width;
};
}  // namespace ref
}  // namespace sim
#endif
