#!/bin/bash
. "$(dirname "$0")/build.sh"
build_and_link "$work/demo" "$here/demo.cc" || exit 2
timeout 120 "$work/demo"
