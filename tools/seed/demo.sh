#!/bin/bash
# Run in the repository after its build.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
clang++-18 -std=c++17 -O1 -w -I"$here" -isystem /usr/include/android -I"$PWD" "$here/demo.cc" _build/libjwt_verify_lib.a \
  -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android /usr/lib/x86_64-linux-gnu/android/libcrypto.so -lprotobuf -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set \
  -labsl_hashtablez_sampler -labsl_exponential_biased -labsl_synchronization -labsl_time -labsl_time_zone -labsl_civil_time -labsl_strings -labsl_strings_internal \
  -labsl_int128 -labsl_throw_delegate -labsl_base -labsl_raw_logging_internal -labsl_spinlock_wait -labsl_bad_optional_access -labsl_bad_variant_access -lpthread -o "$d/demo" || exit 3
timeout 120 "$d/demo"
rc=$?
rm -f "$d/demo"; rmdir "$d"
exit $rc
