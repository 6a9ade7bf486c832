From 5927ec540d33738d75b3dd3341bbe4cf2145bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 01/24] fix: keep inserted elements when a cuckoo insertion
 fails on a full stash

---
 pir/hashing/cuckoo_hash_table.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pir/hashing/cuckoo_hash_table.cc b/pir/hashing/cuckoo_hash_table.cc
index 4a81655..3cb47da 100644
--- a/pir/hashing/cuckoo_hash_table.cc
+++ b/pir/hashing/cuckoo_hash_table.cc
@@ -66,6 +66,8 @@ absl::StatusOr<std::unique_ptr<CuckooHashTable>> CuckooHashTable::Create(
 
 absl::Status CuckooHashTable::Insert(absl::string_view input) {
   std::string current_element(input);
+  // Buckets whose element was evicted during this call, in order.
+  std::vector<int> evictions;
   for (int i = 0; i < max_relocations_; i++) {
     // Choose a random hash function and hash the current element.
     int hash = hash_functions_[random_hash_function_(rng_)](current_element,
@@ -73,6 +75,7 @@ absl::Status CuckooHashTable::Insert(absl::string_view input) {
     if (table_[hash]) {
       // If bucket is full, evict element and re-insert it recursively.
       std::swap(current_element, *table_[hash]);
+      evictions.push_back(hash);
     } else {
       // Otherwise just insert our current element and return.
       table_[hash] = std::move(current_element);
@@ -82,6 +85,11 @@ absl::Status CuckooHashTable::Insert(absl::string_view input) {
   // If we're still here after max_relocations_, put current_element on the
   // stash.
   if (max_stash_size_ && stash_.size() >= *max_stash_size_) {
+    // Undo all evictions, so that a failed insertion only rejects `input`
+    // instead of dropping an element that was successfully inserted before.
+    for (auto it = evictions.rbegin(); it != evictions.rend(); ++it) {
+      std::swap(current_element, *table_[*it]);
+    }
     return absl::InternalError("Cannot insert element: stash is full");
   } else {
     stash_.push_back(std::move(current_element));
-- 
2.43.0


From fa1a3cd61c88d84764a16bd3e69eac8242884063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 02/24] fix: fail Build() instead of dropping records that do
 not fit the cuckoo table

---
 pir/cuckoo_hashed_dpf_pir_database.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pir/cuckoo_hashed_dpf_pir_database.cc b/pir/cuckoo_hashed_dpf_pir_database.cc
index 8331377..5c985b8 100644
--- a/pir/cuckoo_hashed_dpf_pir_database.cc
+++ b/pir/cuckoo_hashed_dpf_pir_database.cc
@@ -141,7 +141,8 @@ CuckooHashedDpfPirDatabase::Builder::Build() {
   DPF_ASSIGN_OR_RETURN(
       auto cuckoo_hasher,
       CuckooHashTable::Create(std::move(hash_family), params_.num_buckets(),
-                              params_.num_hash_functions(), num_records));
+                              params_.num_hash_functions(), num_records,
+                              /*max_stash_size=*/0));
   for (const auto& [key, _] : records_) {
     if (key.empty()) {
       return absl::InvalidArgumentError("Key cannot be empty");
-- 
2.43.0


From eb95bc59f4d797b7234e3c3b9e47f8eeb3902337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 03/24] fix: report absent keys longer than every stored key as
 absent

---
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 9ed0d3b..d8c4e66 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -44,6 +44,7 @@ namespace {
 // zero bytes.
 bool IsPrefixPaddedWithZeros(absl::string_view input,
                              absl::string_view prefix) {
+  if (prefix.size() > input.size()) return false;
   for (int i = 0; i < input.size(); ++i) {
     if (i < prefix.size()) {
       if (input[i] != prefix[i]) return false;
-- 
2.43.0


From 680bcaa8e86ec01c85276cdc431d1bef57661204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 04/24] fix: let a Helper server own its encryption context
 info

---
 pir/dpf_pir_server.cc | 3 ++-
 pir/dpf_pir_server.h  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pir/dpf_pir_server.cc b/pir/dpf_pir_server.cc
index e3c13dd..f104e25 100644
--- a/pir/dpf_pir_server.cc
+++ b/pir/dpf_pir_server.cc
@@ -47,7 +47,8 @@ absl::Status DpfPirServer::MakeHelper(
   if (decrypter == nullptr) {
     return absl::InvalidArgumentError("`decrypter` may not be null");
   }
-  role_storage_ = DpfPirHelper{std::move(decrypter), encryption_context_info};
+  role_storage_ =
+      DpfPirHelper{std::move(decrypter), std::string(encryption_context_info)};
   role_ = Role::kHelper;
   return absl::OkStatus();
 }
diff --git a/pir/dpf_pir_server.h b/pir/dpf_pir_server.h
index 7904246..3ce17db 100644
--- a/pir/dpf_pir_server.h
+++ b/pir/dpf_pir_server.h
@@ -160,7 +160,7 @@ class DpfPirServer : public PirServer {
   };
   struct DpfPirHelper {
     DecryptHelperRequestFn decrypter;
-    absl::string_view encryption_context_info;
+    std::string encryption_context_info;
   };
 
   virtual absl::StatusOr<PirResponse> HandleLeaderRequest(
-- 
2.43.0


From a2e4b3f8865c3a7b57fbf093a396926269d66b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 05/24] fix: count copies of the same element against a simple
 table's bucket limit

---
 pir/hashing/simple_hash_table.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pir/hashing/simple_hash_table.cc b/pir/hashing/simple_hash_table.cc
index b03c19e..7047442 100644
--- a/pir/hashing/simple_hash_table.cc
+++ b/pir/hashing/simple_hash_table.cc
@@ -14,6 +14,7 @@
 
 #include "pir/hashing/simple_hash_table.h"
 
+#include <algorithm>
 #include <memory>
 #include <string>
 #include <utility>
@@ -56,7 +57,11 @@ absl::Status SimpleHashTable::Insert(absl::string_view input) {
   std::vector<int> hashes(hash_functions_.size());
   for (int i = 0; i < hash_functions_.size(); i++) {
     hashes[i] = hash_functions_[i](input, num_buckets_);
-    if (max_bucket_size_ && table_[hashes[i]].size() >= *max_bucket_size_) {
+    // Also count the copies earlier hash functions put into the same bucket.
+    if (max_bucket_size_ &&
+        table_[hashes[i]].size() +
+                std::count(hashes.begin(), hashes.begin() + i, hashes[i]) >=
+            *max_bucket_size_) {
       return absl::InternalError(
           "Cannot insert element: maximum bucket size reached");
     }
-- 
2.43.0


From 35da65a005250d05cd665a247ebcb2c8d56b407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 06/24] fix: hash overlapping buffers correctly when out starts
 after in

---
 dpf/aes_128_fixed_key_hash.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dpf/aes_128_fixed_key_hash.cc b/dpf/aes_128_fixed_key_hash.cc
index f7df231..9d4681c 100644
--- a/dpf/aes_128_fixed_key_hash.cc
+++ b/dpf/aes_128_fixed_key_hash.cc
@@ -70,8 +70,13 @@ absl::Status Aes128FixedKeyHash::Evaluate(absl::Span<const absl::uint128> in,
   // at a time.
   auto in_size = static_cast<int64_t>(in.size());
   std::array<absl::uint128, kBatchSize> sigma_in;
-  for (int64_t start_block = 0; start_block < in_size;
-       start_block += kBatchSize) {
+  const int64_t num_batches = (in_size + kBatchSize - 1) / kBatchSize;
+  // If `out` starts after `in`, and the two overlap, writing a batch of outputs
+  // may overwrite inputs of later batches. So we start from the last batch.
+  const bool reverse = out.data() > in.data();
+  for (int64_t batch = 0; batch < num_batches; ++batch) {
+    const int64_t start_block =
+        (reverse ? num_batches - 1 - batch : batch) * kBatchSize;
     int64_t batch_size = std::min<int64_t>(in_size - start_block, kBatchSize);
     for (int i = 0; i < batch_size; ++i) {
       sigma_in[i] =
-- 
2.43.0


From adfaadae0089cbb09fae88c2c9d202f28e011d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 07/24] fix: count all elements when sizing tuples that mix
 IntModN with other types

---
 dpf/internal/value_type_helpers.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dpf/internal/value_type_helpers.cc b/dpf/internal/value_type_helpers.cc
index 0704cce..7763675 100644
--- a/dpf/internal/value_type_helpers.cc
+++ b/dpf/internal/value_type_helpers.cc
@@ -103,12 +103,14 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
       }
     }
     if (num_other > 0) {
-      for (int i = 0; i < num_other; ++i) {
-        double per_element_security_parameter =
-            security_parameter + std::log2(static_cast<double>(num_other));
+      double per_element_security_parameter =
+          security_parameter + std::log2(static_cast<double>(num_other));
+      for (const ValueType& el : value_type.tuple().elements()) {
+        if (el.type_case() == ValueType::kIntModN) {
+          continue;
+        }
         DPF_ASSIGN_OR_RETURN(int el_bitsize,
-                             BitsNeeded(value_type.tuple().elements(i),
-                                        per_element_security_parameter));
+                             BitsNeeded(el, per_element_security_parameter));
         bitsize_other += el_bitsize;
       }
     }
@@ -122,6 +124,11 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
               num_ints_mod_n, int_mod_n->int_mod_n().base_integer().bitsize(),
               modulus, security_parameter));
       bitsize_ints_mod_n = bytes_needed_ints_mod_n * 8;
+      if (num_other > 0) {
+        // Only the last element sampled doesn't consume additional bytes. If
+        // that is not an integer mod N, all `num_ints_mod_n` of them do.
+        bitsize_ints_mod_n += int_mod_n->int_mod_n().base_integer().bitsize();
+      }
     }
     return bitsize_ints_mod_n + bitsize_other;
   } else if (value_type.type_case() == ValueType::kIntModN) {
-- 
2.43.0


From f09cdecd24a37d63996c4dd317c85d4e6383f137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 08/24] fix: refuse out-of-range points in EvaluateAndApply as
 documented

---
 dpf/distributed_point_function.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 6cd1c56..d20845c 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1091,6 +1091,18 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     absl::Status status = proto_validator_->ValidateDpfKey(keys[i]);
     if (!status.ok()) return status;
   }
+  // Check if `evaluation_points` are inside the domain.
+  const int log_max_evaluation_point =
+      parameters_.back().log_domain_size() + evaluation_points_rightshift;
+  if (log_max_evaluation_point < 128) {
+    for (size_t i = 0; i < evaluation_points.size(); ++i) {
+      if (evaluation_points[i] >=
+          (absl::uint128{1} << log_max_evaluation_point)) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "`evaluation_points[", i, "]` larger than the domain size"));
+      }
+    }
+  }
 
   const int64_t num_keys = keys.size();
   const int num_hierarchy_levels = parameters_.size();
-- 
2.43.0


From de78dd7da047b19182b703a042332f4521c6c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 09/24] fix: do not abort on empty batches in EvaluateAndApply
 and BatchEval

---
 dcf/fss_gates/multiple_interval_containment.cc | 3 +++
 dpf/distributed_point_function.h               | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 174d546..817f178 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -229,6 +229,9 @@ MultipleIntervalContainmentGate::BatchEval(
   }
 
   int num_intervals = mic_parameters_.intervals_size();
+  if (keys.size() == 0 || num_intervals == 0) {
+    return std::vector<absl::uint128>{};  // Nothing to do.
+  }
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index d20845c..cba4411 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1103,6 +1103,9 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
       }
     }
   }
+  if (keys.size() == 0) {
+    return absl::OkStatus();  // Nothing to do.
+  }
 
   const int64_t num_keys = keys.size();
   const int num_hierarchy_levels = parameters_.size();
-- 
2.43.0


From d918da61a4b4b6a8e86e6f85fafabb2fa9a52281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 10/24] fix: comparison functions with XorWrapper values
 evaluate to zero above the threshold

---
 dcf/distributed_comparison_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index 40f9c36..db0250b 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -34,6 +34,8 @@ void SetToZero(Value& value) {
     value.mutable_integer()->set_value_uint64(0);
   } else if (value.value_case() == Value::kIntModN) {
     value.mutable_int_mod_n()->set_value_uint64(0);
+  } else if (value.value_case() == Value::kXorWrapper) {
+    value.mutable_xor_wrapper()->set_value_uint64(0);
   } else if (value.value_case() == Value::kTuple) {
     for (int i = 0; i < value.tuple().elements_size(); ++i) {
       SetToZero(*(value.mutable_tuple()->mutable_elements(i)));
-- 
2.43.0


From 95fa3399e0c5f103aadb1bd0a728806fc41671f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 11/24] fix: honour the security parameter of comparison
 functions

---
 dcf/distributed_comparison_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index db0250b..d99eca2 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -63,6 +63,8 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
     dpf_parameters[i].set_log_domain_size(i);
     *(dpf_parameters[i].mutable_value_type()) =
         parameters.parameters().value_type();
+    dpf_parameters[i].set_security_parameter(
+        parameters.parameters().security_parameter());
   }
 
   // Check that parameters are valid. We can use the DPF proto validator
-- 
2.43.0


From e7836bdff3569cbafce6313697b7c7cc559fd054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 12/24] fix: read interval bounds given as 64-bit integers

---
 .../multiple_interval_containment.cc          | 35 +++++++++----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 817f178..96a7903 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -29,6 +29,7 @@
 #include "dcf/fss_gates/prng/basic_rng.h"
 #include "dpf/distributed_point_function.pb.h"
 #include "dpf/internal/maybe_deref_span.h"
+#include "dpf/internal/value_type_helpers.h"
 #include "dpf/status_macros.h"
 
 namespace distributed_point_functions {
@@ -56,13 +57,13 @@ MultipleIntervalContainmentGate::Create(const MicParameters& mic_parameters) {
       return absl::InvalidArgumentError("Intervals should be non-empty");
     }
 
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 p,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters.intervals(i).lower_bound()));
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 q,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters.intervals(i).upper_bound()));
 
     // Return error if the intervals are not valid group elements.
     if (p < 0 || p >= N) {
@@ -154,13 +155,13 @@ absl::StatusOr<std::pair<MicKey, MicKey>> MultipleIntervalContainmentGate::Gen(
 
   // Line 3
   for (int i = 0; i < mic_parameters_.intervals_size(); i++) {
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 p,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).lower_bound()));
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 q,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).upper_bound()));
 
     // Line 4
     absl::uint128 q_prime = (q + 1) % N;
@@ -246,13 +247,11 @@ MultipleIntervalContainmentGate::BatchEval(
   // https://eprint.iacr.org/2020/1392 Fig. 14 Eval procedure.
   for (int i = 0; i < num_intervals; ++i) {
     // Line 2
-    p[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(p[i], dpf_internal::ValueIntegerToUint128(
+                                   mic_parameters_.intervals(i).lower_bound()));
 
-    q[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(q[i], dpf_internal::ValueIntegerToUint128(
+                                   mic_parameters_.intervals(i).upper_bound()));
 
     // Line 3
     q_prime[i] = (q[i] + 1) % N;
-- 
2.43.0


From 5952e150e07adeb1a0e0d83abfa819b5e5524876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 13/24] fix: concurrent request generation raced on the value
 type registry

---
 dpf/distributed_point_function.h | 6 ++++--
 pir/dense_dpf_pir_client.cc      | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index cba4411..1330e10 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -655,8 +655,10 @@ absl::Status DistributedPointFunction::RegisterValueTypeImpl(
   if (!serialized_value_type.ok()) {
     return serialized_value_type.status();
   }
-  value_correction_functions[*serialized_value_type] =
-      dpf_internal::ComputeValueCorrectionFor<T>;
+  // Does not modify the map if the value type is already registered.
+  value_correction_functions.try_emplace(
+      *std::move(serialized_value_type),
+      dpf_internal::ComputeValueCorrectionFor<T>);
   return absl::OkStatus();
 }
 
diff --git a/pir/dense_dpf_pir_client.cc b/pir/dense_dpf_pir_client.cc
index 12cdb08..0b12852 100644
--- a/pir/dense_dpf_pir_client.cc
+++ b/pir/dense_dpf_pir_client.cc
@@ -67,6 +67,9 @@ absl::StatusOr<std::unique_ptr<DenseDpfPirClient>> DenseDpfPirClient::Create(
   parameters.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(
       kBitsPerBlock);
   DPF_ASSIGN_OR_RETURN(auto dpf, DistributedPointFunction::Create(parameters));
+  // Register the value type up front, so that (const) request generation never
+  // modifies `dpf` and can be called concurrently.
+  DPF_RETURN_IF_ERROR(dpf->RegisterValueType<XorWrapper<absl::uint128>>());
 
   return absl::WrapUnique(
       new DenseDpfPirClient(std::move(dpf), std::move(encrypter),
-- 
2.43.0


From 753ff39597d2c8724992e4667b00153ffa26f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 14/24] fix: check a comparison function's domain size before
 allocating for it

---
 dcf/distributed_comparison_function.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index d99eca2..cb62b5c 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -55,6 +55,10 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
   if (parameters.parameters().log_domain_size() < 1) {
     return absl::InvalidArgumentError("A DCF must have log_domain_size >= 1");
   }
+  // Check the upper bound before allocating one DPF hierarchy level per bit.
+  if (parameters.parameters().log_domain_size() > 128) {
+    return absl::InvalidArgumentError("A DCF must have log_domain_size <= 128");
+  }
 
   // Create parameter vector for the incremental DPF.
   std::vector<DpfParameters> dpf_parameters(
-- 
2.43.0


From 98bd584729368884f50ba5afdefa95d7aa72df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 15/24] fix: refuse interval containment keys with missing
 output mask shares

---
 dcf/fss_gates/multiple_interval_containment.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 96a7903..abd6b6c 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -233,6 +233,15 @@ MultipleIntervalContainmentGate::BatchEval(
   if (keys.size() == 0 || num_intervals == 0) {
     return std::vector<absl::uint128>{};  // Nothing to do.
   }
+  // Checking whether each key has one output mask share per interval
+  for (int i = 0; i < keys.size(); i++) {
+    const MicKey& key = keys[i];
+    if (key.output_mask_share_size() != num_intervals) {
+      return absl::InvalidArgumentError(
+          "Count of output mask shares in each key should be equal to the "
+          "number of intervals");
+    }
+  }
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
-- 
2.43.0


From 64862853e774d376d2d79b3363e46d85032a687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 16/24] fix: refuse evaluations with a value type the
 parameters do not have

---
 dpf/distributed_point_function.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 1330e10..d19ac03 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -940,6 +940,14 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateAtImpl(
         "`hierarchy_level` must be less than the number of parameters passed "
         "at construction");
   }
+  absl::StatusOr<bool> types_are_equal = dpf_internal::ValueTypesAreEqual(
+      ToValueType<T>(), parameters_[hierarchy_level].value_type());
+  if (!types_are_equal.ok()) {
+    return types_are_equal.status();
+  } else if (!*types_are_equal) {
+    return absl::InvalidArgumentError(
+        "Value type T doesn't match parameters at `hierarchy_level`");
+  }
   const auto num_evaluation_points =
       static_cast<int64_t>(evaluation_points.size());
   const int log_domain_size = parameters_[hierarchy_level].log_domain_size();
@@ -1133,6 +1141,14 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
   int stop_level = hierarchy_to_tree_[0];
   for (int hierarchy_level = 0; hierarchy_level < num_hierarchy_levels;
        ++hierarchy_level) {
+    absl::StatusOr<bool> types_are_equal = dpf_internal::ValueTypesAreEqual(
+        ToValueType<T>(), parameters_[hierarchy_level].value_type());
+    if (!types_are_equal.ok()) {
+      return types_are_equal.status();
+    } else if (!*types_are_equal) {
+      return absl::InvalidArgumentError(
+          "Value type T doesn't match parameters at `hierarchy_level`");
+    }
     if (hierarchy_level > 0) {
       start_level = stop_level;
       stop_level = hierarchy_to_tree_[hierarchy_level];
-- 
2.43.0


From 3378c6df73ecfb904633aeb7595192fb7d661b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 17/24] fix: refuse contexts whose partial evaluations are of
 no hierarchy level

---
 dpf/distributed_point_function.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dpf/distributed_point_function.cc b/dpf/distributed_point_function.cc
index a3c42d0..20acebb 100644
--- a/dpf/distributed_point_function.cc
+++ b/dpf/distributed_point_function.cc
@@ -381,7 +381,17 @@ DistributedPointFunction::ComputePartialEvaluations(
   int64_t num_prefixes = static_cast<int64_t>(prefixes.size());
 
   DpfExpansion partial_evaluations;
-  int start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
+  int start_level = 0;
+  if (ctx.partial_evaluations_size() > 0) {
+    if (ctx.partial_evaluations_level() < 0 ||
+        ctx.partial_evaluations_level() >=
+            static_cast<int>(parameters_.size())) {
+      return absl::InvalidArgumentError(
+          "`ctx.partial_evaluations_level` must be non-negative and less than "
+          "parameters_.size()");
+    }
+    start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
+  }
   int stop_level = hierarchy_to_tree_[hierarchy_level];
   if (ctx.partial_evaluations_size() > 0 && start_level <= stop_level) {
     // We have partial evaluations from a tree level before the current one.
-- 
2.43.0


From ffcb31b45a407ebca690187a00461c333842e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 18/24] fix: refuse value types without elements

---
 dpf/internal/proto_validator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 678b3de..fab18f5 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -135,6 +135,10 @@ absl::StatusOr<std::unique_ptr<ProtoValidator>> ProtoValidator::Create(
     DPF_ASSIGN_OR_RETURN(int bits_needed,
                          BitsNeeded(parameters[i].value_type(),
                                     parameters[i].security_parameter()));
+    if (bits_needed < 1) {
+      return absl::InvalidArgumentError(
+          "`value_type` must have at least one element");
+    }
     log_bits_needed = static_cast<int>(std::ceil(std::log2(bits_needed)));
 
     // The tree level depends on the domain size and the element size. A single
-- 
2.43.0


From 24fe53bb68b2a9bcc08b4118b4b672639a863271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 19/24] fix: refuse simple hashing buckets with missing values

---
 pir/simple_hashing_sparse_dpf_pir_client.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index 33f571c..f9f50cd 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -198,6 +198,11 @@ SimpleHashingSparseDpfPirClient::HandleResponse(
         reinterpret_cast<const uint8_t*>(raw_responses[i].data()),
         raw_responses[i].size());
     bucket.ParseFromCodedStream(&coded_stream);
+    if (bucket.keys_size() != bucket.values_size()) {
+      return absl::InvalidArgumentError(
+          "`pir_response` contains a bucket with a different number of keys "
+          "and values");
+    }
     absl::string_view query =
         request_client_state
             .simple_hashing_sparse_dpf_pir_request_client_state()
-- 
2.43.0


From 171ab92b7e9b8e375c65ad9c5549a450870e4a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 20/24] fix: refuse client parameters whose size does not fit
 an index

---
 pir/dense_dpf_pir_client.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pir/dense_dpf_pir_client.cc b/pir/dense_dpf_pir_client.cc
index 0b12852..ed4a6f3 100644
--- a/pir/dense_dpf_pir_client.cc
+++ b/pir/dense_dpf_pir_client.cc
@@ -15,6 +15,7 @@
 #include "pir/dense_dpf_pir_client.h"
 
 #include <cmath>
+#include <limits>
 #include <memory>
 #include <new>
 #include <string>
@@ -57,6 +58,11 @@ absl::StatusOr<std::unique_ptr<DenseDpfPirClient>> DenseDpfPirClient::Create(
   if (config.dense_dpf_pir_config().num_elements() <= 0) {
     return absl::InvalidArgumentError("`num_elements` must be positive");
   }
+  if (config.dense_dpf_pir_config().num_elements() >
+      std::numeric_limits<int>::max()) {
+    // Queries are indices of type `int`.
+    return absl::InvalidArgumentError("`num_elements` must fit in an int");
+  }
   if (encrypter == nullptr) {
     return absl::InvalidArgumentError("`encrypter` must not be null");
   }
-- 
2.43.0


From 235e473a5b6e4ea0f6c885296fd646641f3a0363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 21/24] fix: IntModN over 128-bit integers kept the previous
 quotient in the next sample

For integers as wide as the block, the quotient cannot be shifted out of the
way, so it was ORed into the fresh random bytes and biased every sample but
the first. The fresh bytes alone are used instead, as
ValueTypeHelper::SampleAndUpdateBytes already does.
---
 dpf/int_mod_n.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dpf/int_mod_n.h b/dpf/int_mod_n.h
index 0f61ed0..c6b2013 100644
--- a/dpf/int_mod_n.h
+++ b/dpf/int_mod_n.h
@@ -175,6 +175,8 @@ class IntModNImpl : public IntModNBase {
         r /= kModulus;
         if (sizeof(BaseInteger) < sizeof(absl::uint128)) {
           r <<= (sizeof(BaseInteger) * 8);
+        } else {
+          r = 0;
         }
         r |= randomness[i];
       }
-- 
2.43.0


From 351c636cebe1b5ad7cc60618767e2fd532eb682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:50 +0000
Subject: [PATCH 22/24] fix: range-check all 128 bits when converting integers
 in Uint128To

---
 dpf/internal/value_type_helpers.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dpf/internal/value_type_helpers.h b/dpf/internal/value_type_helpers.h
index 1e28348..230cdb7 100644
--- a/dpf/internal/value_type_helpers.h
+++ b/dpf/internal/value_type_helpers.h
@@ -167,13 +167,11 @@ Value::Integer Uint128ToValueInteger(absl::uint128 input);
 // Otherwise returns INVALID_ARGUMENT.
 template <typename T, typename = absl::enable_if_t<is_unsigned_integer_v<T>>>
 absl::StatusOr<T> Uint128To(absl::uint128 in) {
-  // Check whether value is in range if it's smaller than 128 bits.
-  if (!std::is_same<T, absl::uint128>::value &&
-      absl::Uint128Low64(in) >
-          static_cast<uint64_t>(std::numeric_limits<T>::max())) {
-    return absl::InvalidArgumentError(absl::StrCat(
-        "Value (= ", absl::Uint128Low64(in),
-        ") too large for the given type T (size ", sizeof(T), ")"));
+  // Check whether value is in range, including its upper 64 bits.
+  if (absl::uint128{static_cast<T>(in)} != in) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "Value (= %d) too large for the given type T (size %d)", in,
+        sizeof(T)));
   }
   return static_cast<T>(in);
 }
-- 
2.43.0


From 9bfe378a7ebad4d60a8a1c866636a771be50b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:17 +0000
Subject: [PATCH 23/24] fix: do not equate a tiny security parameter with the
 default one

A security parameter of 0 stands for 40 + log_domain_size. Comparing the raw
values first made a context created with the default parameter acceptable to
a DPF whose security parameter is within the comparison tolerance of 0.
---
 dpf/internal/proto_validator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index fab18f5..381a169 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -56,8 +56,10 @@ absl::StatusOr<bool> ParametersAreEqual(const DpfParameters& lhs,
   }
   if (!(
           // There are three ways that security parameters can be equivalent.
-          // Both equal.
-          AlmostEqual(lhs.security_parameter(), rhs.security_parameter()) ||
+          // Both equal. Zero means the default value, so it is never equal to
+          // a small positive value.
+          ((lhs.security_parameter() == 0) == (rhs.security_parameter() == 0) &&
+           AlmostEqual(lhs.security_parameter(), rhs.security_parameter())) ||
           // lhs is zero and rhs has the default value.
           (lhs.security_parameter() == 0 &&
            AlmostEqual(rhs.security_parameter(),
-- 
2.43.0


From 7305a01346b4f59010498fe1db9ab350fdfafb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:11 +0000
Subject: [PATCH 24/24] fix: refuse a beta that does not match a comparison
 function's type whatever alpha is

Every entry whose bit of alpha is zero was replaced by zero before it was
checked, so with alpha = 0 a beta out of range was accepted. A 128-bit integer
that is not set passed the check of values altogether.
---
 dcf/distributed_comparison_function.cc |  4 ++++
 dpf/internal/proto_validator.cc        | 13 ++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index cb62b5c..12d8348 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -88,6 +88,10 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
 absl::StatusOr<std::pair<DcfKey, DcfKey>>
 DistributedComparisonFunction::GenerateKeys(absl::uint128 alpha,
                                             const Value& beta) {
+  // Check `beta` before parts of it are replaced by zero below.
+  DPF_RETURN_IF_ERROR(dpf_internal::ProtoValidator::ValidateValue(
+      beta, parameters_.parameters().value_type()));
+
   const int log_domain_size = parameters_.parameters().log_domain_size();
   std::vector<Value> dpf_values(log_domain_size, beta);
   for (int i = 0; i < log_domain_size; ++i) {
diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 381a169..455c43a 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -90,13 +90,12 @@ absl::Status ValidateIntegerType(const ValueType::Integer& type) {
 
 absl::Status ValidateIntegerValue(const Value::Integer& value,
                                   const ValueType::Integer& type) {
-  if (type.bitsize() < 128) {
-    DPF_ASSIGN_OR_RETURN(absl::uint128 value_128, ValueIntegerToUint128(value));
-    if (value_128 >= absl::uint128{1} << type.bitsize()) {
-      return absl::InvalidArgumentError(absl::StrFormat(
-          "Value (= %d) too large for ValueType with bitsize = %d", value_128,
-          type.bitsize()));
-    }
+  DPF_ASSIGN_OR_RETURN(absl::uint128 value_128, ValueIntegerToUint128(value));
+  if (type.bitsize() < 128 &&
+      value_128 >= absl::uint128{1} << type.bitsize()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "Value (= %d) too large for ValueType with bitsize = %d", value_128,
+        type.bitsize()));
   }
   return absl::OkStatus();
 }
-- 
2.43.0

