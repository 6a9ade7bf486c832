# Sourced by demo.sh, which runs in the repository's root after the official
# build. Compiles the non-test sources of dpf/, dcf/ and pir/ together with the
# given program, in a scratch directory that is removed at exit.
#   build_and_link OUT PROGRAM.cc [extra compile flags]
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d "${TMPDIR:-/tmp}/dpf_demo.XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT

build_and_link() {
  local out=$1 program=$2; shift 2
  local gen=$work/gen obj=$work/obj lib=/usr/lib/x86_64-linux-gnu
  mkdir -p "$gen/farmhash" "$gen/google/protobuf" "$obj"
  ln -s /usr/include/farmhash.h "$gen/farmhash/farmhash.h"
  # The packaged protobuf lacks MessageLite::SerializeAsCord.
  python3 - "$gen/google/protobuf/message_lite.h" <<'PY' || return 2
import sys
s = open("/usr/include/google/protobuf/message_lite.h").read()
s = s.replace("#include <climits>\n#include <string>",
              '#include <climits>\n#include <string>\n#include "absl/strings/cord.h"', 1)
s = s.replace("  std::string SerializeAsString() const;",
              "  std::string SerializeAsString() const;\n  absl::Cord SerializeAsCord() const "
              "{ return absl::Cord(absl::string_view(SerializeAsString())); }", 1)
open(sys.argv[1], "w").write(s)
PY
  (cd "$repo" && protoc -I. --cpp_out="$gen" $(find dpf dcf pir -name '*.proto')) || return 2
  local flags="-std=c++17 -g1 -O1 -Wno-everything -fclang-abi-compat=17 $*
    -I$gen -I$here/shim -I$here -I$repo -isystem /usr/include/android"
  { (cd "$gen" && find . -name '*.pb.cc' | sed "s|^\.|$gen|")
    find "$repo/dpf" "$repo/dcf" "$repo/pir" -name '*.cc' |
      grep -Ev '_(test|benchmark)\.cc$|pir/testing/(encrypt_decrypt|request_generator)\.cc$|dpf/internal/status_matchers\.cc$'
    echo "$program"
  } | awk '{ print $0, NR }' |
    xargs -P "$(nproc)" -L 1 sh -c 'clang++ '"$(echo $flags)"' -c "$1" -o "'"$obj"'/$2.o"' sh || return 2
  local absl=""
  for f in "$lib"/libabsl_*.so; do absl="$absl -l$(basename "$f" .so | sed 's/^lib//')"; done
  clang++ "$@" -o "$out" "$obj"/*.o -Wl,--start-group -Wl,--as-needed $absl -lprotobuf \
    "$lib/android/libcrypto.so" -Wl,-rpath,"$lib/android" -lfarmhash -lhwy -lpthread -ldl -Wl,--end-group || return 2
}
