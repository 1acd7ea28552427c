#!/bin/bash
# Builds the library sources of the current directory (the repository) together with demo.c and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
work=$d/signed-video-framework
mkdir -p "$work"
ln -s "$repo/tests" "$work/tests"
gcc -w -g -O0 @FLAGS@ -DSV_UNIT_TEST -DSV_VENDOR_AXIS_COMMUNICATIONS -D_FILE_OFFSET_BITS=64 -I"$here" -I"$repo" -I"$repo/lib/src" -I"$repo/lib/vendors" \
  -I"$repo/tests/check" -o "$d/demo" "$here/demo.c" "$repo"/lib/src/*.c "$repo"/lib/src/legacy/*.c @PLUGIN@ \
  "$repo"/lib/vendors/axis-communications/*.c "$repo"/tests/check/test_helpers.c "$repo"/tests/check/test_stream.c \
  "$repo"/tests/check/legacy_test_data.c $(pkg-config --cflags --libs libcrypto) @LIBS@ || exit 2
cd "$work" || exit 2
ASAN_OPTIONS=detect_leaks=@LEAKS@ timeout -k 5 120 "$d/demo"
