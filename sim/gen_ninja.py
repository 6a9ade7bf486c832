#!/usr/bin/env python3
"""Writes build.ninja for the simulator: every non-test source of /repo plus the
harness in /verif/sim, in two variants (asan, sched).  Sources are globbed, so
files added to /repo are picked up.  Nothing is written outside the build dir."""
import os, re, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.abspath(sys.argv[1])
SIM = os.path.join(VERIF, "sim")

# Not built: need Tink keysets / are not part of the library.
SKIP = {"pir/testing/encrypt_decrypt.cc", "pir/testing/request_generator.cc",
        "dpf/internal/status_matchers.cc"}

ABSL = """absl_status absl_statusor absl_cord absl_cord_internal absl_cordz_info absl_cordz_handle
absl_cordz_functions absl_cordz_sample_token absl_crc_cord_state absl_strings absl_strings_internal absl_str_format_internal
absl_int128 absl_base absl_raw_logging_internal absl_throw_delegate absl_bad_variant_access
absl_bad_optional_access absl_raw_hash_set absl_hash absl_city absl_low_level_hash
absl_hashtablez_sampler absl_synchronization absl_time absl_time_zone absl_civil_time
absl_random_distributions absl_random_internal_pool_urbg absl_random_internal_randen
absl_random_internal_randen_hwaes absl_random_internal_randen_hwaes_impl
absl_random_internal_randen_slow absl_random_internal_platform absl_random_internal_seed_material
absl_random_seed_gen_exception absl_random_seed_sequences absl_spinlock_wait absl_stacktrace
absl_symbolize absl_debugging_internal absl_demangle_internal absl_malloc_internal
absl_graphcycles_internal absl_exponential_biased absl_log_severity absl_strerror
absl_bad_any_cast_impl""".split()
# Metered by the harness (env.cc); a symbol that does not exist is not an error.
WRAP = "_ZN27distributed_point_functions12dpf_internal13EvaluateSeedsEliiPKN4absl7debian37uint128EPKbS5_iS5_S7_S7_RKNS_18Aes128FixedKeyHashESA_PS3_Pb"
LIBDIR = "/usr/lib/x86_64-linux-gnu"
ABSL = [a for a in ABSL if os.path.exists(f"{LIBDIR}/lib{a}.so")]


def walk(ext):
    r = []
    for top in ("dpf", "dcf", "pir"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in sorted(fs):
                if f.endswith(ext):
                    r.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(r)


def main():
    os.makedirs(OUT, exist_ok=True)
    gen = f"{OUT}/gen"
    os.makedirs(gen + "/farmhash", exist_ok=True)
    link = gen + "/farmhash/farmhash.h"
    if not os.path.islink(link):
        os.symlink("/usr/include/farmhash.h", link)
    # protobuf 3.21 lacks MessageLite::SerializeAsCord; a patched copy of the header adds it.
    src = open("/usr/include/google/protobuf/message_lite.h").read()
    src = src.replace("#include <climits>\n#include <string>",
                      '#include <climits>\n#include <string>\n#include "absl/strings/cord.h"', 1)
    src = src.replace("  std::string SerializeAsString() const;",
                      "  std::string SerializeAsString() const;\n"
                      "  absl::Cord SerializeAsCord() const { return absl::Cord(absl::string_view(SerializeAsString())); }", 1)
    p = gen + "/google/protobuf/message_lite.h"
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)

    protos = walk(".proto")
    libs = [f for f in walk(".cc")
            if not re.search(r"_(test|benchmark)\.cc$", f) and f not in SKIP]
    harness = sorted((f for f in os.listdir(SIM + "/src") if f.endswith(".cc")),
                     key=lambda f: (not f.startswith("inst_"), f))

    common = ("-std=c++17 -g1 -fno-omit-frame-pointer -Wno-everything -fclang-abi-compat=17 -ftrivial-auto-var-init=pattern "
              f"-I{gen} -I{SIM}/shim -I{SIM}/src -I{REPO} -isystem /usr/include/android "
              "-D_GLIBCXX_ASSERTIONS")
    variants = {
        "asan": dict(cf=common + " -O1 -fsanitize=address", hcf="", lf="-fsanitize=address"),
        "sched": dict(cf=common + " -O1 -DSIM_SCHED=1",
                      lcf=" -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", hcf="", lf=""),
        # For tools/coverage.py only.
        "cov": dict(cf=common + " -O1 -fsanitize=address -fprofile-instr-generate -fcoverage-mapping", hcf="",
                    lf="-fsanitize=address -fprofile-instr-generate"),
    }
    w = []
    w.append("ninja_required_version = 1.5\nbuilddir = %s\ncxx = /usr/bin/clang++\n" % OUT)
    w.append("rule protoc\n  command = protoc -I%s --cpp_out=%s $in\n  description = PROTOC $in\n" % (REPO, gen))
    w.append("rule cxx\n  command = $cxx -MMD -MF $out.d $cflags -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out\n")
    w.append("rule link\n  command = $cxx $lflags $in -o $out -Wl,--start-group $libs -Wl,--end-group\n  description = LINK $out\n")
    pbh = []
    for f in protos:
        b = f[:-6]
        pbh.append(f"{gen}/{b}.pb.h")
        w.append(f"build {gen}/{b}.pb.cc | {gen}/{b}.pb.h: protoc {REPO}/{f}\n")
    w.append("build pbh: phony " + " ".join(pbh) + "\n")
    syslibs = (" ".join("-l" + a for a in ABSL) + f" -lprotobuf {LIBDIR}/android/libcrypto.so "
               f"-Wl,-rpath,{LIBDIR}/android -lfarmhash -lhwy -lpthread -ldl")
    for v, o in variants.items():
        objs = []
        for f in protos:
            b = f[:-6]
            obj = f"{OUT}/{v}/pb/{b}.o"
            w.append(f"build {obj}: cxx {gen}/{b}.pb.cc || pbh\n  cflags = {o['cf']}\n")
            objs.append(obj)
        for f in libs:
            obj = f"{OUT}/{v}/repo/{f[:-3]}.o"
            w.append(f"build {obj}: cxx {REPO}/{f} || pbh\n  cflags = {o['cf']}{o.get('lcf', '')}\n")
            objs.append(obj)
        for f in harness:
            only = re.search(r"_(asan|sched)\.cc$", f)
            if only and only.group(1) != ("asan" if v == "cov" else v):
                continue
            lcf = o.get("lcf", "") if f.startswith("inst_") else ""
            obj = f"{OUT}/{v}/sim/{f[:-3]}.o"
            w.append(f"build {obj}: cxx {SIM}/src/{f} || pbh\n  cflags = {o['cf']}{o['hcf']}{lcf}\n")
            objs.append(obj)
        w.append(f"build {OUT}/sim_{v}: link {' '.join(objs)}\n  lflags = {o['lf']} -rdynamic -Wl,--wrap={WRAP}\n  libs = {syslibs}\n")
        w.append(f"build {v}: phony {OUT}/sim_{v}\n")
    w.append("default asan\n")
    s = "\n".join(w)
    p = f"{OUT}/build.ninja"
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)


main()
