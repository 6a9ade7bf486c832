// Storage and network damage to protobuf messages: byte-level (truncation, bit
// flips, torn and misdirected writes) and structural (a field lost, repeated,
// taken from another version, or set to an extreme value).
#ifndef SIM_MUTATE_H_
#define SIM_MUTATE_H_
#include <string>
#include <vector>

#include "google/protobuf/message.h"
#include "sim.h"

namespace sim {
// One damaged copy of `good`; `donors` are other stored byte strings.
std::string DamageBytes(std::string good, const std::vector<std::string>& donors);
// Changes one drawn field somewhere in *m.
void DamageField(google::protobuf::Message* m, const google::protobuf::Message* donor = nullptr);
// Reloads a damaged copy of `good` into *out (typed).  False if the bytes no
// longer parse, which any loader notices.
bool ReloadDamaged(const std::string& good, const std::vector<std::string>& donors, google::protobuf::Message* out);
}  // namespace sim
#endif
