"""What each property's check runs and how its evidence is described."""
COMMON_ASSUME = [
    "Search samples schedules, faults and inputs; it does not enumerate them.",
    "Compiled with clang -O1 against the system's Abseil 2022-06, protobuf 3.21, BoringSSL (Android) and Highway.",
]
HASH_REAL = ["pir/hashing (tables, hash families)", "BoringSSL SHA-256", "farmhash"]

PIR_REAL = ["pir clients, servers, database builders, inner product, hashing, PRNG", "dpf (key generation, expansion)", "protobuf wire format", "BoringSSL AES/SHA"]
PIR_STUB = ["hybrid encryption (authenticated stand-in bound to key and context)", "network, timers and process crashes (simulated)", "entropy source (per-node seeded stream)"]

def _e2e(what):
    return dict(variants=["asan"], rule="A run deploys a %s PIR Leader and Helper (or two plain servers) and 1-3 clients over a simulated network with loss, delay, duplication, partitions, crash/restart of servers and clients and allocation failures, with SIMD levels drawn per machine; every decoded answer is compared with the stored records and every run must make progress after faults stop. Some runs use tens of thousands of records, large batches or large records; others ask a client of up to 2^31-1 entries and evaluate its keys at points of the servers' point function. Non-trivial: at least one fault, several clients, a large size or heterogeneous SIMD levels." % what,
                real=PIR_REAL, stub=PIR_STUB, assumptions=COMMON_ASSUME)

DPF_REAL = ["DPF key generation and all evaluation paths", "proto validation", "value types", "Highway kernels on all SIMD targets of this CPU", "BoringSSL AES", "protobuf wire format"]
DPF_STUB = ["system entropy (per-node seeded stream)", "aligned allocator failures", "AES provider failures", "stable storage (bytes kept by the simulator)"]

PROPS = {
    "P01": _e2e("dense"), "P02": _e2e("cuckoo-hashed sparse"), "P03": _e2e("simple-hashed sparse"),
    "P10": dict(variants=["asan"], rule="A run builds 1-3 cuckoo tables with drawn geometry and hash functions (SHA-256, Farm, uniform, colliding, constant), inserts up to 70 elements each, interleaving tables inside hash calls, with full stashes and crash/rebuild at drawn points. Non-trivial: at least one failed insertion, restart or interleaving.",
                real=HASH_REAL, stub=["caller-supplied hash functions in part of the runs"], assumptions=COMMON_ASSUME),
    "P11": dict(variants=["asan"], rule="As P10 for the simple and multiple-choice tables, checked after every insertion against a vector-of-vectors model.",
                real=HASH_REAL, stub=["caller-supplied hash functions in part of the runs"], assumptions=COMMON_ASSUME),
    "P23": dict(variants=["asan", "sched"], rule="A run lets 2-4 parties derive hash functions from one configuration at drawn times, with restarts, or lets 2-4 threads share them, and interleaves (or preempts) their evaluations; values must equal the reference and each other.",
                real=HASH_REAL, stub=[], assumptions=COMMON_ASSUME),
    "P04": dict(variants=["asan"], rule="A run sends 1-6 overlapping requests to a Leader (real schemes or a server with scripted shares); the simulated transport to the Helper fails, delays, reorders, corrupts shapes, replays old replies, or forgets to run the Leader's own computation. Non-trivial: at least one fault or two requests in flight.",
                real=["Leader request handling", "in half the runs real PIR servers and clients"], stub=PIR_STUB + ["scripted shares in half the runs"], assumptions=COMMON_ASSUME),
    "P05": dict(variants=["asan"], rule="A run sends 1-6 overlapping requests to a Helper (real schemes or scripted shares); ciphertexts are damaged, encrypted for another key or context, carry malformed contents or pad seeds, or the key service fails. Non-trivial: at least one fault or two requests in flight.",
                real=["Helper request handling", "in half the runs real PIR servers and clients"], stub=PIR_STUB + ["scripted shares in half the runs"], assumptions=COMMON_ASSUME),
    "P08": dict(variants=["asan"], rule="A run drives several cuckoo- or simple-hashed database builders through drawn histories of inserts (in drawn orders), clones, clears, builds, crashes and storage failures, and audits every bucket of every built database against a map model and against other replicas. Non-trivial: at least one fault, saturated table or second actor.",
                real=["hashed and dense databases and builders", "hash tables and families", "inner product"], stub=["in part of the runs a dense builder on failing storage wraps the real one"], assumptions=COMMON_ASSUME),
    "P09": dict(variants=["asan"], rule="A run drives 1-3 actors on machines with drawn SIMD levels through histories of insert/clone/clear/build/query/crash on shared dense builders and databases, with failing aligned allocations and malformed selections; or lets 1-3 machines compute inner products directly over records placed at drawn offsets, with drawn widths, plain and vectorised. Non-trivial: at least one fault or a second actor.",
                real=["dense database and builder", "inner product on all SIMD targets of this CPU"], stub=["aligned allocator failures"], assumptions=COMMON_ASSUME),
    "P06": dict(variants=["asan"], rule="A run lets 1-3 client processes with 1-3 threads each create batches for drawn queries, with process restarts on fresh entropy, and compares all secrets ever sent; in other runs one client sends 128 requests for two elements and every bit the Leader sees is tallied. Non-trivial: several threads or processes, a restart, or a tally.",
                real=["PIR clients, DPF key generation, seed generation"], stub=["system entropy (per-node seeded stream, recorded)", "encryption (captures the plaintext)"], assumptions=COMMON_ASSUME),
    "P07": dict(variants=["asan"], rule="A run deploys a sparse Leader, Helper and 1-3 clients over 2-4 parameter epochs; an operator restarts servers into drawn epochs while requests are in flight and clients refresh or lag. Non-trivial: at least one rotation or epoch mismatch.",
                real=PIR_REAL, stub=PIR_STUB, assumptions=COMMON_ASSUME),
    "P12": dict(variants=["asan", "sched"], rule="A run lets 1-4 threads read drawn lengths from generators with shared or different seeds and nonces (including counters about to carry), with restarts; or lets processes generate seeds; or passes wrong sizes or meets an AES provider that refuses the key. Non-trivial: several threads or processes, a restart, or a refused argument.",
                real=["seeded generator", "BoringSSL AES"], stub=["system entropy", "AES provider failures"], assumptions=COMMON_ASSUME),
    "P13": dict(variants=["asan", "sched"], rule="A run lets 1-4 threads on machines with drawn SIMD levels hash drawn batches with shared hash objects, in separate, identical and partially overlapping buffers, with size mismatches, failing AES calls and moved objects. Non-trivial: several threads, a failed call or a refused argument.",
                real=["fixed-key hash", "BoringSSL AES"], stub=["AES provider failures"], assumptions=COMMON_ASSUME),
    "P22": dict(variants=["asan", "sched"], rule="A run lets 1-3 processes (some restarted) with 1-3 threads each draw numbers from shared generators while the entropy source fails at drawn calls. Non-trivial: a failed draw or several threads or processes.",
                real=["BasicRng"], stub=["system entropy (recorded, failing on demand)"], assumptions=COMMON_ASSUME),
    "P16": dict(variants=["asan"], rule="A run draws a hierarchy, value types and programmed values, and a plan of legal and illegal incremental steps; two parties execute it on machines with drawn SIMD levels, storing contexts, crashing, reloading recent or stale contexts and failing allocations; results are compared with earlier executions and with the definition. Non-trivial: a crash, a failed allocation or an illegal step.",
                real=DPF_REAL, stub=DPF_STUB, assumptions=COMMON_ASSUME),
    "P17": dict(variants=["asan"], rule="A run evaluates 1-3 key pairs through all evaluation paths, levels and batch sizes on 1-4 machines with drawn SIMD levels, with failing allocations, restarts and out-of-range arguments; every share is compared with every other evaluation of that point and with the other party's. Non-trivial: several machines, a failed allocation, restart or bad argument.",
                real=DPF_REAL, stub=DPF_STUB, assumptions=COMMON_ASSUME),
    "P18": dict(variants=["asan"], rule="A run deals 1-3 comparison-function keys over a drawn domain and value type and evaluates them singly and in batches on 1-4 machines with drawn SIMD levels, with failing allocations, restarts and bad arguments; shares are compared across evaluations and with the definition. Non-trivial: several machines, a failed allocation, restart or bad argument.",
                real=DPF_REAL + ["comparison function"], stub=DPF_STUB, assumptions=COMMON_ASSUME),
    "P19": dict(variants=["asan"], rule="A run deals 1-3 gate keys over a drawn group, intervals and masks while the entropy source fails at drawn calls, and evaluates them in batches on 1-4 machines with drawn SIMD levels, failing allocations, restarts and bad arguments. Non-trivial: several machines, a fault or bad argument.",
                real=DPF_REAL + ["comparison function, interval gate, BasicRng"], stub=DPF_STUB + ["entropy failures"], assumptions=COMMON_ASSUME),
}
PROPS["P15"] = dict(variants=["sched"], rule="A run shares one point function, comparison function and/or gate object among 2-4 threads preempted at drawn instrumented instructions; each makes 1-3 drawn calls (key generation and every evaluation path), and every result is compared with the same call made alone, with the other party's and with the definition. Every run is non-trivial.",
    real=DPF_REAL + ["comparison function, interval gate", "in-process locks and static initialisation"], stub=["system entropy (per-node seeded stream, a scheduling point)", "thread scheduler (seeded, preemptive at instrumented edges, loads and stores)"], assumptions=COMMON_ASSUME + ["Sequentially consistent interleavings; no weak-memory effects."])
PROPS["P14"] = dict(variants=["sched"], rule="A run shares a Leader, Helper, plain server, their databases and a client among 2-4 threads preempted at drawn instrumented instructions, sometimes as the first users of the process; each makes 1-3 drawn calls (round trips, fixed and malformed requests to each role, response handling, building another server), and every result is compared with the same call made alone and with the stored records. Every run is non-trivial.",
    real=PIR_REAL + ["in-process locks and static initialisation"], stub=["hybrid encryption (authenticated stand-in)", "system entropy (per-node seeded stream, a scheduling point)", "thread scheduler (seeded, preemptive at instrumented edges, loads and stores)"], assumptions=COMMON_ASSUME + ["Sequentially consistent interleavings; no weak-memory effects."])
PROPS["P20"] = dict(variants=["asan"], rule="A run stores keys, evaluation contexts at several stages, or parameters of point functions, comparison functions or gates, damages the stored copies (truncation, bit flips, torn, zeroed, duplicated and misdirected writes; fields lost, repeated, swapped, taken from another deployment or set to extreme values), reloads and evaluates them through every path, sometimes in a batch with undamaged keys or with failing allocations, and then evaluates the undamaged ones again; a second scenario damages contexts in ways whose outcome is known (saved parts repeated, contradictory or missing). Every run is non-trivial.",
    real=DPF_REAL + ["comparison function, interval gate"], stub=DPF_STUB, assumptions=COMMON_ASSUME + ["Callers ask for at most 2^11-fold expansions of damaged keys."])
PROPS["P21"] = dict(variants=["asan"], rule="A run starts one or two deployments of drawn schemes, collects real messages, and sends damaged copies of them (truncated, bit-flipped, torn, zeroed, duplicated, misdirected or concatenated bytes; fields lost, repeated, swapped, taken from another message or set to extreme values) to a drawn place: requests to each role, the contents of ciphertexts, ciphertexts, the Leader-Helper link, responses, saved client state, buckets, public parameters. Valid requests run before, between, during and after and must be answered correctly. Every run is non-trivial.",
    real=PIR_REAL, stub=["hybrid encryption (authenticated stand-in)", "system entropy (per-node seeded stream)", "network and task scheduling"], assumptions=COMMON_ASSUME)
PROPS["P27"] = dict(variants=["asan"], rule="A run deals 64 keys each for two secrets that differ in a drawn way (one bit of the point, only the value, everything) for a drawn point function, comparison function or gate, from one or two interleaved dealers with drawn SIMD levels and restarts on fresh entropy; each party's keys are compared across the two secrets (shape, every bit, XOR/sum/difference of pairs of words), and secret seeds across all keys. Every run is non-trivial.",
    real=DPF_REAL + ["comparison function, interval gate, BasicRng"], stub=["system entropy (per-node seeded stream, a scheduling point)"], assumptions=COMMON_ASSUME + ["Frequencies over 64 keys per secret; a bit that follows the secret in fewer than about 3 of 4 keys is not seen."])
PROPS["P28"] = dict(variants=["asan"], rule="Fleets mix the real code with an independent implementation of the documented constructions and stored formats standing in for another release: incremental evaluations whose stored contexts change release at drawn steps (with lost checkpoints), stored point-function, comparison and gate keys dealt by one release and evaluated by the other, and retrieval deployments whose client, Leader and Helper are upgraded and rolled back while requests are under way. Non-trivial: a release change happened.",
    real=DPF_REAL + ["comparison function, interval gate", "PIR clients, servers, databases, hashing, one-time pads"], stub=["the other release (reference implementation)", "hybrid encryption", "network (synchronous, in order)", "system entropy (per-node seeded stream)"], assumptions=COMMON_ASSUME + ["The other release is the format the pinned commit writes and reads; a deliberate format break is a violation.", "A cuckoo deployment's two servers change release together: the layout of a cuckoo table is not a stored format."])
PROPS["P25"] = dict(variants=["asan"], rule="Machines draw hundreds of batches of integers modulo N (eleven moduli over 8 to 128 bits) from simulated entropy, through the checked and unchecked samplers and the path evaluation uses, with drawn counts and security levels up to what can be reached; every value is checked against the documented procedure, every sample position for uniform high and low parts and independence of its predecessor. Refusals: security levels just out of reach, short entropy reads, empty batches. Every run is non-trivial.",
    real=["IntModN samplers", "value derivation of evaluation", "point function creation (security levels)"], stub=["system entropy (per-node seeded stream)"], assumptions=COMMON_ASSUME + ["Uniformity is judged over 16 classes of about 600 draws per sample position; smaller biases are only seen as deviations from the documented procedure."])
PROPS["P24"] = dict(variants=["asan"], rule="Fleets of workers add up the two shares of up to 40 contributions of 32 value types (withdrawals are subtracted) over a network that loses, duplicates and reorders, with crashes back to the last stored partial sum and pairwise merging in drawn order; every operation is compared with arithmetic written independently, and the total with the sum of the contributions. Damaged and foreign stored values must be read as what they say or refused. Every run is non-trivial.",
    real=["value types and their operators", "conversion of values to and from messages"], stub=["network", "aggregation servers", "durable storage"], assumptions=COMMON_ASSUME)
PROPS["P29"] = dict(variants=["asan"], rule="One to three dealers of one drawn point function (1-40 levels, all value types) or comparison function get 2-9 serialised requests, half of them with one drawn mistake (point, number of values, kind, range, shape, unset parts, single-level call), over a network that repeats, loses and reorders, with restarts that forget registered types, failing allocations and AES calls; verdicts are compared with a reader written from the type messages, and both keys of everything accepted are opened on another machine at the point and around it. Every run is non-trivial.",
    real=DPF_REAL + ["comparison function"], stub=["network", "system entropy (per-node seeded stream)"], assumptions=COMMON_ASSUME + ["Any order of checks is accepted when a request is wrong and its type unknown."])
PROPS["P26"] = dict(variants=["asan"], rule="Configurations of point functions, comparison functions, interval gates and retrieval deployments are pushed in several versions (valid, with drawn mistakes around every limit, with damaged bytes) to 2-3 machines over a network that loses, repeats and reorders, with restarts from the accepted configuration; verdicts are compared with rules written from the documentation, accepted configurations have to work between machines, contexts travel between versions and are refused when they say something else, servers and clients are refused when made with a missing part. Every run is non-trivial.",
    real=DPF_REAL + ["comparison function, interval gate", "PIR clients, servers, parameter generation, hash families"], stub=["configuration store and network", "system entropy (per-node seeded stream)"], assumptions=COMMON_ASSUME + ["Where the documentation leaves a verdict open, any verdict but a crash is accepted."])
PROPS["P30"] = dict(variants=["asan"], rule="Machines with metered AES work deal keys of drawn point functions, comparison functions and gates, evaluate drawn step sequences from stored contexts with restarts from older checkpoints, failing allocations and AES calls, evaluate batches of points and keys stopped at a drawn level, and serve drawn retrieval requests; work, key, context and request sizes of every call are compared with the textbook evaluation from what was saved. Every run is non-trivial.",
    real=DPF_REAL + ["comparison function, interval gate", "PIR clients, servers, databases"], stub=["AES metering (tree evaluator wrapped at link time, AES provider interposed)", "system entropy (per-node seeded stream)"], assumptions=COMMON_ASSUME + ["Work is counted in AES blocks; a quarter more than needed is tolerated."])
