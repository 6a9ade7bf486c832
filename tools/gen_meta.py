#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sim")
import props

P = {}
def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None), _note=note)
    if state: P[id]["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: P[id]["anchors"]["observe_at"] = observe

E2E_WHY = ("The unit tests call one client and two servers synchronously on a few fixed databases and indices; they never run concurrent requests, "
           "retries, duplicated or late messages, restarts or machines with different SIMD levels, and sample a handful of inputs.")
prop("P01", "Dense PIR returns exactly the requested records, under any faults",
     "Whenever a dense PIR client decodes an answer to a batch of valid indices, it gets, per index and in order, exactly the stored record padded with zero bytes to the longest record, whichever way the Leader/Helper or plain servers were deployed and whatever was lost, repeated, delayed or restarted on the way. A request either yields that answer or an error, never a wrong record. Once faults stop, every valid request is answered.",
     ["inputs", "histories", "schedules", "fault_sequences", "configurations", "crash_points"],
     "All databases, query batches, numbers of concurrent clients, message loss/duplication/delay/reordering/partition sequences, server and client crash/restart points, allocation failures and per-machine SIMD levels.",
     E2E_WHY, ["pir/dense_dpf_pir_client.cc", "pir/dense_dpf_pir_server.cc", "pir/dense_dpf_pir_database.cc", "pir/dpf_pir_server.cc", "pir/dpf_pir_client.h", "pir/internal/inner_product_hwy.cc", "dpf/distributed_point_function.cc"],
     [("XOR of both servers' inner products selects one record", "pir/internal/inner_product_hwy.cc"), ("pad seed kept in client state", "pir/dense_dpf_pir_client.cc HandleResponse"), ("Leader combines both shares", "pir/dpf_pir_server.cc HandleLeaderRequest")],
     "Seeded search over deployments, faults and inputs; samples, no proof. Trusts the stand-in for hybrid encryption.",
     [("one-time pad seed", "unmasks the combined answer", "client state message")], ["client HandleResponse result vs stored records"])
prop("P02", "Cuckoo-hashed sparse PIR: present keys get their value, absent keys get none",
     "Whenever a client of the cuckoo-hashed sparse scheme decodes an answer, every queried key that is stored yields its own value (padded with zero bytes), and every key that is not stored yields no value, including keys that are prefixes or extensions of stored ones. This holds under message faults, restarts that rebuild a replica from its records in another order, and concurrent clients. Once faults stop, every valid request is answered.",
     ["inputs", "histories", "schedules", "fault_sequences", "configurations", "crash_points"],
     "All key-value sets with distinct non-empty keys not ending in a zero byte, all query batches mixing present and absent keys, all fault and restart sequences.",
     E2E_WHY, ["pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/cuckoo_hashed_dpf_pir_database.cc", "pir/hashing/cuckoo_hash_table.cc"],
     [("key compared with the returned key bytes", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc HandleResponse"), ("records placed in one of the hashed buckets", "pir/cuckoo_hashed_dpf_pir_database.cc")],
     "As P01.", None, ["client HandleResponse result vs stored records"])
prop("P03", "Simple-hashed sparse PIR: present keys get their value, absent keys get none",
     "Whenever a client of the simple-hashed sparse scheme decodes an answer, every queried key that is stored yields exactly its value and every key that is not stored yields no value, whatever shares a bucket with it. This holds under message faults, restarts and concurrent clients. Once faults stop, every valid request is answered.",
     ["inputs", "histories", "schedules", "fault_sequences", "configurations", "crash_points"],
     "All key-value sets with distinct non-empty keys, all bucket counts, all query batches, all fault and restart sequences.",
     E2E_WHY, ["pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashed_dpf_pir_database.cc", "pir/hashing/simple_hash_table.cc"],
     [("bucket contents serialised and searched by key", "pir/simple_hashing_sparse_dpf_pir_client.cc HandleResponse")],
     "As P01.", None, ["client HandleResponse result vs stored records"])
prop("P04", "A Leader never turns a failed or mismatched share into an answer",
     "A Leader answers a client only when the Helper call succeeded, its own share was computed and succeeded, and both shares have the same number and sizes of entries; the answer is then exactly the XOR of those two shares, and otherwise the client gets an error (the Helper call's or the own share's code where one of them failed). The Helper is sent the client's ciphertext and nothing else, once per request, and only for complete Leader requests. Overlapping requests never mix.",
     ["fault_sequences", "schedules", "histories", "inputs"],
     "All behaviours of the transport to the Helper (errors, missing/extra/resized/reordered/stale entries, computation callback run before, during, after, twice or never) and all interleavings of concurrent requests.",
     "The unit tests exercise five hand-written senders, one request at a time; they do not cover combinations of failures, timing of the callback, or overlapping requests.",
     ["pir/dpf_pir_server.cc", "pir/dpf_pir_server.h"],
     [("has_run flag and status checks before combining", "pir/dpf_pir_server.cc HandleLeaderRequest"), ("count and size comparison", "pir/dpf_pir_server.cc HandleLeaderRequest")],
     "Seeded search; the model predicts exactly which outcomes are allowed per request.", None, ["HandleRequest result", "arguments of the sender callback"])
prop("P05", "A Helper's answer is always its share under the client's one-time pad",
     "A Helper answers only well-formed encrypted requests that decrypt under its key and its construction-time context, and the answer is exactly its plain share XORed with one continuous AES-128-CTR keystream of the client's 16-byte seed across all entries. Everything else (unencrypted or damaged requests, wrong key or context, bad seed, key-service failures) is rejected with an error and reveals no share. Overlapping requests never mix pads.",
     ["fault_sequences", "schedules", "inputs"],
     "All ciphertext damage, contexts, keys, inner contents, decrypter failures and interleavings of concurrent requests.",
     "The unit tests check one or two responses per scheme with a fixed seed and never run overlapping requests or a decrypter that fails or changes between calls.",
     ["pir/dpf_pir_server.cc", "pir/prng/aes_128_ctr_seeded_prng.cc"],
     [("pad generator created per request from the decrypted seed", "pir/dpf_pir_server.cc HandleHelperRequest")],
     "Seeded search against an independent AES-CTR reference.", None, ["HandleRequest result", "arguments of the decrypter callback"])
prop("P06", "Every request uses fresh secrets that the Leader cannot see",
     "All secret seeds a client sends (key seeds and one-time pad seeds) come from fresh system entropy: they never repeat across queries, batches, clients, threads, process restarts or forks with independent entropy, and every bit of them varies. What a Leader receives in clear contains neither the pad seed nor the Helper's key, and its shape and size do not depend on what is queried. No secret or part of the answer is predictable from the query.",
     ["histories", "schedules", "crash_points", "configurations"],
     "All sequences of requests by any number of concurrent clients with restarts and forks, for all three schemes.",
     "Unit tests create one request and decode it; reuse across requests, processes and threads, or bits that never vary, leave every decoded answer correct.",
     ["pir/dense_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/dpf_pir_client.h", "dpf/distributed_point_function.cc", "pir/prng/aes_128_ctr_seeded_prng.cc"],
     [("pad seed drawn per request", "pir/dense_dpf_pir_client.cc CreatePlainRequests"), ("key seeds drawn per key", "dpf/distributed_point_function.cc GenerateKeysIncremental")],
     "Statistical only where stated: bits are required to vary over enough samples that a false alarm has probability below 2^-40 per run.", None, ["request messages", "bytes drawn from the simulated entropy source"])
prop("P07", "Client, Leader and Helper on different hash seeds never combine answers",
     "When any of client, Leader and Helper of a sparse scheme uses parameters from a different hash-seed epoch than the others, the request ends in an error; when all three agree it succeeds with the right answer. This holds while parameters are being rotated, with servers restarting into a new epoch at any time between requests.",
     ["histories", "schedules", "crash_points", "configurations"],
     "All rotation orders of the three parties, restarts, in-flight and retried requests across a rotation.",
     "The unit tests send one request with a wrong fingerprint to one server; they never rotate parties in a running deployment.",
     ["pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_client.cc"],
     [("seed fingerprint in every request", "sparse clients CreatePlainRequests"), ("fingerprint comparison", "sparse servers HandlePlainRequest")],
     "Seeded search over rotation histories; seeds are drawn so that fingerprints differ.", None, ["client-visible status", "decoded answers"])
prop("P08", "Database replicas built from the same records agree and lose nothing",
     "A hashed database that was built successfully contains every inserted record exactly once in a bucket a client will query for it, no matter in which order records were inserted, how builders were cloned, cleared, abandoned or reused, or which builds failed before; when the records do not fit, building fails instead of dropping any. Replicas built from the same records and parameters answer any selection with combinable shares. A builder that was already consumed refuses to build again.",
     ["histories", "crash_points", "inputs", "configurations"],
     "All sequences of insert/clone/clear/build/abandon on several builders over all record sets with distinct keys and all table geometries.",
     "The unit tests build one small database per case and never interleave builders, cloning, crashes and failed builds, nor saturate tables.",
     ["pir/cuckoo_hashed_dpf_pir_database.cc", "pir/simple_hashed_dpf_pir_database.cc", "pir/hashing/cuckoo_hash_table.cc", "pir/hashing/simple_hash_table.cc"],
     [("builder state moved out by Build", "pir/*_hashed_dpf_pir_database.cc Builder::Build"), ("stash must be empty", "pir/cuckoo_hashed_dpf_pir_database.cc")],
     "Seeded search against a map model.", None, ["InnerProductWith on unit selections", "Build status"])
prop("P09", "A built dense database keeps its contents through builder reuse and failures",
     "A dense database answers every selection vector with the XOR of exactly the selected records, padded to the longest record, regardless of later operations on its builder, clones, other databases, SIMD level of the machine, repeated or overlapping calls, or earlier calls that failed for lack of memory. A failed allocation yields an error and no partial answer, and the call succeeds when retried. When no record holds anything there is no answer to give: the call fails with INVALID_ARGUMENT and the machine-readable code MAX_VALUE_SIZE_IS_ZERO, also through the servers.",
     ["histories", "fault_sequences", "inputs", "configurations", "schedules"],
     "All builder and query histories, record sizes, selection vectors, allocation-failure points and SIMD levels.",
     "The unit tests compute a few inner products on fixed data at the machine's best SIMD level and never fail an allocation or reuse a builder after failure.",
     ["pir/dense_dpf_pir_database.cc", "pir/internal/inner_product_hwy.cc", "pir/internal/inner_product_hwy.h"],
     [("records copied into one aligned buffer with offsets", "pir/dense_dpf_pir_database.cc"), ("per-target vector code with scalar tails", "pir/internal/inner_product_hwy.cc")],
     "Seeded search against a byte-wise model; SIMD levels available on the machine that runs the check.", None, ["InnerProductWith result"])
prop("P10", "A cuckoo table never loses, duplicates or misplaces an element",
     "After any history of insertions, successful or failed, a cuckoo hash table holds exactly the successfully inserted elements, each once, in a bucket one of its hash functions names or in a stash within its bound; a failed insertion changes nothing visible. This holds when tables share hash functions, when calls into them are interleaved, and when a table is rebuilt after a crash.",
     ["histories", "inputs", "configurations", "crash_points"],
     "All element sequences, bucket/stash/relocation limits, hash functions (including colliding ones) and interleavings with other tables.",
     "The unit tests insert a few hundred sequential keys into one generous table with one hash family.",
     ["pir/hashing/cuckoo_hash_table.cc", "pir/hashing/cuckoo_hash_table.h"],
     [("eviction chain and stash", "pir/hashing/cuckoo_hash_table.cc Insert")],
     "Seeded search against a set model after every operation.", None, ["GetTable, GetStash, Insert status"])
prop("P11", "Simple and multiple-choice tables hold every element in a permitted bucket",
     "After any history of insertions a simple table holds every inserted element in each bucket its hash functions name and nothing else, in insertion order, and a multiple-choice table holds each element exactly once, in a bucket that was least loaded among its choices when it was inserted; a rejected insertion changes nothing and bucket limits are never exceeded. Tables are independent of each other.",
     ["histories", "inputs", "configurations", "crash_points"],
     "All element sequences, geometries, hash functions and interleavings of several tables.",
     "The unit tests insert a handful of elements into one table.",
     ["pir/hashing/simple_hash_table.cc", "pir/hashing/multiple_choice_hash_table.cc"],
     [("bucket choice", "pir/hashing/*_hash_table.cc Insert")],
     "Seeded search against a vector model after every operation.", None, ["GetTable, Insert status"])
prop("P12", "The seeded generator emits one fixed stream per seed and nonce, however read",
     "Concatenating what a seeded generator returns, for any sequence of read sizes, any interleaving with other generators and any number of generators created from the same seed, always gives the AES-128-CTR keystream of that seed and nonce. A consumer that restarts and re-creates its generator sees the same stream, and different seeds give different streams. Seeds or nonces of the wrong length, and a key the AES library refuses, are reported as errors. Freshly generated seeds are full-length and never repeat.",
     ["histories", "schedules", "crash_points", "inputs"],
     "All seeds, nonces (including counters about to wrap), read-size sequences, interleavings of several generators, restarts.",
     "The unit tests read a few hundred bytes from a couple of generators in one or two chunkings.",
     ["pir/prng/aes_128_ctr_seeded_prng.cc", "pir/prng/aes_128_ctr_seeded_prng.h"],
     [("counter, partial block and offset kept per generator", "pir/prng/aes_128_ctr_seeded_prng.cc GetRandomBytes")],
     "Seeded search against an independent block-wise reference.", None, ["GetRandomBytes output"])
prop("P13", "The fixed-key hash is the same function for every batch, thread and buffer",
     "Evaluating the fixed-key hash on a block gives the value fixed by its key (AES of the orthomorphism of the block, XOR the orthomorphism) regardless of batch size and position, in-place, overlapping or separate buffers, concurrent evaluations of the same object, moves of the object, SIMD level and machine. Distinct keys act independently, and size mismatches are errors that write nothing. If the AES library fails, creating or evaluating the hash reports an error, never a wrong value as success, and the object stays usable.",
     ["schedules", "inputs", "configurations", "histories"],
     "All block values, batch sizes and positions, buffer aliasing, interleavings of concurrent callers, SIMD levels.",
     "The unit tests hash two blocks and one batch from one thread.",
     ["dpf/aes_128_fixed_key_hash.cc", "dpf/aes_128_fixed_key_hash.h", "dpf/internal/aes_128_fixed_key_hash_hwy.h"],
     [("per-call batch buffer", "dpf/aes_128_fixed_key_hash.cc Evaluate"), ("vectorised twin", "dpf/internal/aes_128_fixed_key_hash_hwy.h")],
     "Seeded search over preemptive interleavings of the instrumented code and over inputs.", None, ["Evaluate output"])
prop("P14", "Concurrent requests on one server or client behave as if run alone",
     "Any number of threads may call the same PIR server, database and client object at once: every call returns what it would have returned alone, under every interleaving of their instructions, including first use of the process. No call corrupts another call's request, pad, state or error.",
     ["schedules", "inputs", "configurations"],
     "All interleavings (at instrumented memory accesses and branches) of 2-4 threads sharing servers, databases and clients, for all schemes and roles.",
     "All unit tests are single-threaded.",
     ["pir/dpf_pir_server.cc", "pir/dense_dpf_pir_server.cc", "pir/dense_dpf_pir_database.cc", "pir/dense_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc", "dpf/distributed_point_function.cc"],
     [("request handling is const and uses locals only", "pir/*_server.cc"), ("process-wide singletons initialised once", "dpf/internal/proto_validator.cc, get_hwy_mode.cc")],
     "Preemption at sanitizer-coverage callbacks, sequentially consistent memory only.", None, ["results of each call"])
prop("P15", "Concurrent key generation and evaluation on one object are independent",
     "Once its value types are registered, threads sharing one distributed point function (or comparison function, or gate) object may generate keys and evaluate them at once; every evaluation gives the same result as when run alone, keys of one call never mix with another's, and concurrently generated keys are valid and distinct. Evaluating with one's own context never disturbs another context.",
     ["schedules", "inputs", "configurations"],
     "All interleavings (at instrumented memory accesses and branches) of 2-4 threads over parameters, keys and operations.",
     "All unit tests are single-threaded.",
     ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h", "dcf/distributed_comparison_function.h", "dcf/fss_gates/multiple_interval_containment.cc"],
     [("const evaluation with per-call state", "dpf/distributed_point_function.h"), ("static AES keys and type registry", "dpf/distributed_point_function.cc")],
     "As P14.", None, ["results of each call"])
prop("P16", "Incremental evaluation gives the right prefixes under any checkpoint history",
     "For any hierarchy of levels and any order of legal incremental evaluations, the two parties' results add up to the programmed value exactly at the prefixes of the programmed point and to zero elsewhere, at every level visited, whatever levels are skipped, whichever prefixes are chosen, and regardless of saving, crashing, restoring or replaying a serialised evaluation context at any point. Illegal steps (levels out of order, unevaluated prefixes, duplicate finishing) are refused and leave a saved context usable.",
     ["histories", "crash_points", "inputs", "configurations"],
     "All hierarchies, value types, points, prefix choices, evaluation orders and checkpoint/restore points for both parties.",
     "The unit tests walk a few fixed hierarchies in order, without serialising contexts mid-way or replaying old ones.",
     ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h", "dpf/distributed_point_function.proto"],
     [("partial evaluations kept in the context", "dpf/distributed_point_function.cc EvaluateUntil/UpdateContext"), ("context validation", "dpf/distributed_point_function.cc")],
     "Seeded search against the mathematical definition of a point function.",
     [("evaluation context", "partial evaluations at the last level", "EvaluationContext message")], ["EvaluateUntil/EvaluateNext/EvaluateAt results"])
prop("P17", "All evaluation paths agree and survive allocation and AES failures",
     "For the same key, full-domain expansion, evaluation at points, batched evaluation and evaluate-and-apply give the same share at every point, on every SIMD level and batch size, and the two parties' shares add up to the point function. If memory for an operation cannot be obtained or the AES library fails, the call (construction, key generation or evaluation) returns an error; repeating it later on the same objects succeeds with the right result (an evaluation context, whose contents the interface leaves undefined after an error, is first restored from a copy).",
     ["fault_sequences", "inputs", "configurations", "histories"],
     "All parameters, value types, points, batch sizes, evaluation paths, SIMD levels per party and points at which an allocation or AES call fails.",
     "The unit tests compare paths at fixed sizes on the best SIMD level and never fail an allocation.",
     ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h", "dpf/internal/evaluate_prg_hwy.cc", "dpf/internal/value_type_helpers.cc"],
     [("vectorised seed expansion with scalar fallback", "dpf/internal/evaluate_prg_hwy.cc"), ("value correction per element", "dpf/distributed_point_function.h")],
     "Seeded search; SIMD levels available on the machine that runs the check.", None, ["evaluation results"])
prop("P18", "A comparison function's shares reveal its value exactly below the threshold",
     "For every threshold and every input in the domain, the two parties' evaluations add up to the programmed value when the input is below the threshold and to zero otherwise, for all supported value types, batch sizes and SIMD levels, one input at a time or in batches, on parties that restart and reload their serialised keys. Allocation and AES failures surface as errors and never as wrong shares.",
     ["inputs", "configurations", "fault_sequences", "crash_points"],
     "All domain sizes, thresholds, inputs, value types, batch shapes, per-party SIMD levels, restarts and allocation-failure points.",
     "The unit tests cover a few small domains and the integer types with one party's machine.",
     ["dcf/distributed_comparison_function.cc", "dcf/distributed_comparison_function.h"],
     [("incremental keys with one value per level, accumulated along the path", "dcf/distributed_comparison_function.h BatchEvaluate")],
     "Seeded search against the definition.", None, ["Evaluate/BatchEvaluate results"])
prop("P19", "Interval gates open to the right bits and never use weak randomness",
     "For every set of intervals and every masked input, the two parties' gate outputs minus the output masks add up to 1 for intervals containing the real input and 0 otherwise, for batches and after keys were stored and reloaded. If the entropy source fails during key generation the call returns an error and no key; share randomness is fresh for every key.",
     ["inputs", "fault_sequences", "histories", "configurations", "crash_points"],
     "All group sizes, intervals (including full-range and single-point), masks, inputs, restarts and entropy failure points.",
     "The unit tests use a few 64-bit parameters and a working entropy source.",
     ["dcf/fss_gates/multiple_interval_containment.cc", "dcf/fss_gates/prng/basic_rng.h"],
     [("wrap-around corrections computed at key generation", "dcf/fss_gates/multiple_interval_containment.cc Gen")],
     "Seeded search against the definition.", None, ["Gen status", "Eval results"])
prop("P20", "Damaged keys and contexts are refused or evaluated harmlessly, never crash",
     "Whatever bytes a party reloads as a key or evaluation context (truncated, torn, mixed from different versions, bit-flipped or adversarial), creating objects from it and evaluating it returns an error or some result of the right size, without crashing, hanging, or reading or writing outside its buffers. A stored context whose saved partial evaluations contradict each other is refused; their order and repetition make no difference, and with one missing it is refused or evaluated right. Undamaged objects keep working in the same process afterwards.",
     ["fault_sequences", "inputs", "crash_points"],
     "All storage damage to keys, contexts and parameters of point functions, comparison functions and gates, for all evaluation paths.",
     "The unit tests and one text-format corpus hold a dozen hand-made invalid messages.",
     ["dpf/internal/proto_validator.cc", "dpf/distributed_point_function.cc", "dpf/distributed_point_function.h", "dcf/distributed_comparison_function.h", "dcf/fss_gates/multiple_interval_containment.cc"],
     [("validation before use", "dpf/internal/proto_validator.cc")],
     "Seeded search under AddressSanitizer.", None, ["status", "process survival under AddressSanitizer"])
prop("P21", "Corrupted PIR messages never crash a client or server or disturb other requests",
     "Whatever bytes reach a server as a request or a client as a response or saved state (corrupted, truncated, spliced, for another scheme), the call returns an error or an answer, without crashing, hanging, or reading or writing outside its buffers. Valid requests before, after and between them are answered correctly.",
     ["fault_sequences", "inputs", "schedules"],
     "All corruptions at every hop of a deployment and all interleavings with valid traffic, for all schemes and roles.",
     "The unit tests send a few hand-made invalid messages.",
     ["pir/dpf_pir_server.cc", "pir/dense_dpf_pir_server.cc", "pir/dense_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc"],
     [("message shape checks before use", "client HandleResponse, server HandleRequest")],
     "Seeded search under AddressSanitizer.", None, ["status", "process survival under AddressSanitizer", "answers to valid requests"])
prop("P22", "Random numbers come from fresh system entropy or the call fails",
     "Every random number the generator used for gate keys returns is fully determined by fresh bytes of the system entropy source, uses all of them, and is never returned when the source failed: the call then reports an internal error and a later call works again. Values never repeat across calls, objects, threads or process restarts.",
     ["fault_sequences", "schedules", "histories", "crash_points"],
     "All call sequences of all widths with entropy failures at any call, interleaved callers and restarts.",
     "The unit tests only check that two numbers differ.",
     ["dcf/fss_gates/prng/basic_rng.h", "dcf/fss_gates/prng/prng.h"],
     [("RAND_bytes result checked", "dcf/fss_gates/prng/basic_rng.h")],
     "Seeded search; the entropy source is simulated and records what it handed out.", None, ["returned values vs entropy handed out"])
prop("P23", "All parties derive identical, in-range hash functions from one configuration",
     "Every party that derives hash functions from the same configuration (family, seed, count), at any time, in any process, on any machine and in any order or interleaving, gets functions with identical values, always in range for every bucket count, matching the documented construction; functions with different seeds or indices differ. Unknown families are refused.",
     ["configurations", "schedules", "inputs", "crash_points"],
     "All configurations, inputs (including empty and binary), bucket counts and derivation/evaluation interleavings with restarts.",
     "The unit tests check a few inputs against golden values in one process.",
     ["pir/hashing/hash_family.cc", "pir/hashing/hash_family_config.cc", "pir/hashing/sha256_hash_family.cc", "pir/hashing/farm_hash_family.cc"],
     [("seed and index prefixed to the input", "pir/hashing/hash_family.cc")],
     "Seeded search against an independent reference.", None, ["hash values"])

NA = {}
prop("P27", "One party's key tells it nothing about what was programmed",
     "A point-function, comparison-function or gate key, seen by one party alone, is distributed the same whatever point, threshold, values or masks were programmed: its shape depends only on the public parameters, no bit of it and no simple relation (XOR, sum, difference) between its parts follows the programmed secrets, and it never contains the other party's secret seed. Every bit of the secret seeds varies, and no seed is handed out twice, across keys, dealers and restarts with fresh entropy.",
     ["inputs", "histories", "schedules", "crash_points", "configurations"],
     "All parameters, pairs of programmed secrets, key-generation histories of one or several dealers with restarts, on every SIMD level.",
     "Unit tests generate a key or two and check that both shares open correctly; a key that leaks the point still does.",
     ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h", "dpf/internal/value_type_helpers.h", "dcf/distributed_comparison_function.cc", "dcf/fss_gates/multiple_interval_containment.cc", "dcf/fss_gates/prng/basic_rng.cc"],
     [("correction words mask the programmed path", "dpf/distributed_point_function.cc GenerateNext"), ("value corrections mask the programmed value", "dpf/distributed_point_function.h ComputeValueCorrectionFor"), ("output mask shares", "dcf/fss_gates/multiple_interval_containment.cc Gen")],
     "Frequencies over 64 keys per secret per run on simulated entropy; finds bits and pairwise relations that follow the secret, not computational weaknesses.", [("secret seeds", "root of each party's key", "DpfKey.seed")], ["generated key messages", "entropy source"])

prop("P28", "Stored keys, contexts and messages mean the same on every release",
     "Keys, evaluation contexts, requests, replies and client states are stored and exchanged as bytes between machines that are not upgraded together. Whatever was written by one release of the library is read by another with the same meaning: a stored point-function, comparison or gate key gives the same share at every point, two parties on different releases still open to the programmed value, an incremental evaluation resumed from a stored context by another release continues as if nothing happened, and a client, Leader and Helper on different releases still retrieve exactly the queried records. Bytes written by the pinned release are the yardstick.",
     ["inputs", "histories", "crash_points", "configurations"],
     "All parameters, programmed values, evaluation sequences, databases and queries, and all orders of upgrades and rollbacks of the parties between and during operations.",
     "Unit tests deal, evaluate, ask and answer with one build; a change that reads its own output correctly passes them and breaks every stored key.",
     ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h", "dpf/distributed_point_function.proto", "dpf/aes_128_fixed_key_hash.cc", "dpf/int_mod_n.h", "dpf/internal/value_type_helpers.h", "dcf/distributed_comparison_function.cc", "dcf/fss_gates/multiple_interval_containment.cc", "pir/dense_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/dpf_pir_server.cc", "pir/hashing/sha256_hash_family.cc", "pir/prng/aes_128_ctr_seeded_prng.cc"],
     [("seed expansion constants", "dpf/distributed_point_function.cc kPrgKey*"), ("order of values in a block", "dpf/internal/value_type_helpers.h"), ("partial evaluations", "dpf/distributed_point_function.cc ExpandAndUpdateContext"), ("pad order", "pir/prng/aes_128_ctr_seeded_prng.cc"), ("bucket hash", "pir/hashing/sha256_hash_family.cc")],
     "The other release is an independent implementation of the pinned formats.", [("stored keys and contexts", "durable state of each party", "DpfKey, EvaluationContext"), ("requests under way", "cross release boundaries", "PirRequest, PirRequestClientState")], ["stored bytes", "restart with another release"])

prop("P25", "Integers modulo N are drawn without bias, and never at a level out of reach",
     "Integers modulo N derived from pseudorandom bytes follow the documented procedure for every modulus, base integer and number of samples: each sample is uniform and independent of the others up to the stated statistical security, the checked, unchecked and evaluation-time derivations agree on the same bytes, and a security level that cannot be reached, or fewer bytes than required, is refused.",
     ["inputs", "histories", "configurations"],
     "All moduli and base integers, numbers of samples, security levels, and all random bytes.",
     "Tests sample a fixed string for one 32-bit modulus; whether later samples are uniform shows only over many draws, moduli and widths.",
     ["dpf/int_mod_n.cc", "dpf/int_mod_n.h", "dpf/internal/value_type_helpers.h", "dpf/internal/value_type_helpers.cc"],
     [("sampling with carried quotient", "dpf/int_mod_n.h UnsafeSampleFromBytes"), ("derivation during evaluation", "dpf/internal/value_type_helpers.h SampleAndUpdateBytes"), ("reachable security level", "dpf/int_mod_n.cc GetSecurityLevel")],
     "Exact against the documented procedure; uniformity statistically over simulated entropy. The security bound itself is taken from the documentation.", [], ["sampled values", "entropy source"])

prop("P24", "Aggregated shares give the same sum in any order, grouping and restart",
     "Values of every supported type (integers modulo 2^n, integers modulo N, XOR-wrapped integers and tuples of these) form groups, so a fleet that adds up shares, subtracts withdrawn ones, stores partial sums as messages, crashes, restarts from them and merges them gets the same total whatever the order, grouping, duplication and loss of deliveries: exactly the sum of the contributions. Every operator agrees with the arithmetic of the type, also when an operand is the object itself; a value written to a message is read back unchanged, and a message that does not denote a value of the type is refused with INVALID_ARGUMENT, never read as another value.",
     ["inputs", "histories", "crash_points", "fault_sequences"],
     "All value types and values, all orders and groupings of additions and subtractions, all deliveries, crash points and damaged stored values.",
     "Tests add a few values per type in one order, in one process, and convert a few values to messages and back.",
     ["dpf/tuple.h", "dpf/xor_wrapper.h", "dpf/int_mod_n.h", "dpf/internal/value_type_helpers.h", "dpf/internal/value_type_helpers.cc"],
     [("element-wise operators", "dpf/tuple.h"), ("reduction modulo N", "dpf/int_mod_n.h"), ("exclusive or", "dpf/xor_wrapper.h"), ("conversion to and from messages", "dpf/internal/value_type_helpers.h FromValue, ToValue")],
     "The oracle is arithmetic on unbounded integers, leaf by leaf.", [("partial sums", "durable state of each worker", "Value messages")], ["sums", "stored values", "refusals"])

prop("P26", "Configurations are accepted exactly when valid, and rollouts never split",
     "Parameters of point functions, comparison functions, interval gates, hash families, PIR servers and PIR clients are accepted exactly when they satisfy the documented constraints (domain sizes, ascending levels, value types, reachable security parameters, interval bounds, positive sizes that match the data), and otherwise refused with INVALID_ARGUMENT (UNIMPLEMENTED for different integers modulo N in one tuple) while the machine keeps serving with the configuration it has. All machines of a fleet come to the same verdict on the same bytes, also after restarts; what is accepted works end to end; contexts made under an equal configuration are usable, however the default security parameter is spelled, and contexts made under another one, and keys without the parts the configuration needs (seed, value corrections, number of correction words), are refused, and so are servers and clients made without a database, sender, decrypter or encrypter.",
     ["inputs", "configurations", "histories", "crash_points", "fault_sequences"],
     "All configuration messages including damaged ones, all orders, losses and repetitions of pushes, all restart points and mixes of versions in a fleet.",
     "Tests check a dozen hand-written messages on one object; acceptance at the exact limits of each type and the behaviour of fleets with mixed versions is not sampled.",
     ["dpf/internal/proto_validator.cc", "dpf/internal/value_type_helpers.cc", "dpf/int_mod_n.cc", "dcf/distributed_comparison_function.cc", "dcf/fss_gates/multiple_interval_containment.cc", "pir/dense_dpf_pir_client.cc", "pir/dense_dpf_pir_server.cc", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc", "pir/hashing/hash_family_config.cc"],
     [("parameter and value type checks", "dpf/internal/proto_validator.cc ValidateParameters, ValidateValueType"), ("context checks", "dpf/internal/proto_validator.cc ValidateEvaluationContext"), ("reachable security", "dpf/int_mod_n.cc CheckParameters"), ("factories", "*::Create, GenerateParams")],
     "Where the documentation does not say (modulus 0, empty nested tuples, unknown hash families on a server) either verdict is accepted.", [("configuration in use", "durable state of each machine", "DpfParameters and the like")], ["accepted or refused", "evaluations across machines"])

prop("P29", "A dealer programs exactly what it is asked for, or refuses",
     "Key generation for point functions (single-level and incremental) and comparison functions carries out a request exactly when it is within the contract: as many values as levels, every value a message of that level's type (kind, tuple shape, range, modulus, set at all), the point or threshold inside the domain. The keys then open to that value, whichever form its integers were written in. Everything else is refused with INVALID_ARGUMENT, and a type that was never registered with FAILED_PRECONDITION, whatever point is asked for; refusals, repetitions, restarts and other requests in between change neither the verdict on a later request nor the keys of one.",
     ["inputs", "histories", "fault_sequences", "crash_points", "configurations"],
     "All sequences of requests, right and wrong in any part, to any number of dealers, with repeats, reordering, restarts and failing allocations.",
     "Tests pass a few wrong values at one fixed point to a fresh object; whether a wrong value is noticed depends on the point, the level and what was registered before.",
     ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h", "dpf/internal/proto_validator.cc", "dpf/internal/value_type_helpers.h", "dcf/distributed_comparison_function.cc"],
     [("checks of values and of the point", "dpf/distributed_point_function.cc GenerateKeysIncremental"), ("value against type", "dpf/internal/proto_validator.cc ValidateValue"), ("registered types", "dpf/distributed_point_function.h RegisterValueType")],
     "A comparison function has no way to register a type except a typed call, so for an unknown type both outcomes are accepted there.", [("registered types", "part of each dealer's object, lost on restart", "value_correction_functions_")], ["status of the request", "what the two keys open to"])

prop("P30", "Keys, checkpoints and work stay proportional to what is asked",
     "Evaluation never does more AES work than the textbook algorithm needs for what is asked, within a quarter: dealing costs four blocks per tree level and the value blocks of each hierarchy level, evaluation at points the depth of the tree below what is already evaluated plus the value blocks per point, expansion two blocks per inner node of the subtrees below the distinct requested prefixes plus the value blocks per leaf. Continuing from a context starts at the evaluations saved in it, not at the root, whatever the sequence of calls, restarts from stored contexts and failed attempts. EvaluateAndApply, comparison functions and interval gates walk the tree of each key once per input, evaluate no hierarchy level beyond the one the callback stopped at, and call back once per level. A key has one correction word per tree level and one value block per hierarchy level; a context adds to its key one saved evaluation per requested prefix or point and nothing for levels that are finished. A retrieval request costs and weighs one key per query (one per hash function for cuckoo hashing) of logarithmic size, and answering it one expansion over the rows of the database.",
     ["inputs", "histories", "configurations", "crash_points", "fault_sequences"],
     "All parameters, sequences of evaluations and stored contexts, batch sizes, and places at which a caller stops.",
     "Tests compare results, which stay right when evaluation starts over at the root, keeps what is no longer needed or evaluates prefixes twice; whether it does depends on the sequence of calls.",
     ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h", "dpf/internal/evaluate_prg_hwy.cc", "dpf/internal/proto_validator.cc", "dcf/distributed_comparison_function.h", "dcf/fss_gates/multiple_interval_containment.cc", "pir/dense_dpf_pir_server.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc"],
     [("resuming from saved evaluations", "dpf/distributed_point_function.cc ComputePartialEvaluations, ExpandAndUpdateContext"), ("distinct prefixes", "dpf/distributed_point_function.h EvaluateUntil"), ("one walk for all levels", "dpf/distributed_point_function.h EvaluateAndApply"), ("tree levels per hierarchy level", "dpf/internal/proto_validator.cc Create")],
     "Work is what the simulated machine meters in AES blocks; clocks are not involved.", [("saved evaluations", "in the context", "partial_evaluations, partial_evaluations_level")], ["AES blocks per call", "sizes of keys, contexts and requests", "number of callbacks"])

def na(id, title, statement, text, why, files, reason):
    NA[id] = reason
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=["inputs"], text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name="pure computation", where=files[0])], hook_needed=None), _note="")
def main():
    have = [p for p in sorted(P) if p in props.PROPS or p in NA]
    with open(V + "/properties.jsonl", "w") as f:
        for p in have:
            assert len(P[p]["title"]) <= 80, p
            f.write(json.dumps({k: v for k, v in P[p].items() if k != "_note"}) + "\n")
    checks = []
    for p in have:
        if p in NA: continue
        sched = "sched" in props.PROPS[p]["variants"]
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
            technique="deterministic simulation with fault injection: seeded search over " + ("preemptive thread interleavings and inputs" if sched else "schedules, faults and histories") + ", minimised replayable traces",
            level="exploration", level_note=P[p]["_note"]))
    m = dict(version=1, setup_cmd="python3 check.py --build-only", checks=checks,
             not_applicable=[dict(property=p, reason=NA[p]) for p in have if p in NA],
             notes="No hooks in /repo: entropy, clocks, allocation, threads and locks are taken over by link-time interposition and compiler instrumentation; transport and key services through the library's own callbacks.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
main()
