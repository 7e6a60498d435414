#!/bin/bash
# build.sh FEATURE...: the driver, and for
#   rt   under ASan the runtime which the generated programs link: cxx and lab,
#        plus a precompiled header;
#   cmd  the cxxbridge command;
#   bld  a build script with cxx_build;
#   gen  nothing else (cxx-gen is linked into the driver).
. "$(dirname "$0")/../env.sh"
cd "$(dirname "$0")" || exit 3
E="$PWD"; T=x86_64-unknown-linux-gnu
mkdir -p target/inc/rust
cp /repo/include/cxx.h target/inc/rust/cxx.h || exit 1
cp cpp/*.h target/inc/ || exit 1
for f in "$@"; do case "$f" in
rt)
  ( CXX=clang++ CC=clang CXXFLAGS="-fsanitize=address -fno-omit-frame-pointer -O0 -gline-tables-only" \
    RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" \
    cargo build --offline --target $T -p lab ) || exit 1
  cxx="$(ls -t target/$T/debug/deps/libcxx-*.rlib | head -1)"
  [ -n "$cxx" ] || exit 1
  echo "$E/$cxx" > target/cxx.rlib
  clang++ -std=c++20 -fsanitize=address -O0 -Itarget/inc -x c++-header target/inc/lab_pch.h -o target/inc/lab_pch.h.pch.new || exit 1
  mv target/inc/lab_pch.h.pch.new target/inc/lab_pch.h.pch || exit 1;;
cmd)
  cargo build --offline -p cmdw || exit 1;;
bld)
  cargo build --offline -p bldw || exit 1;;
esac; done
cargo build --offline -p e2e || exit 1
echo "$E/target/debug/e2e" > "target/bin.e2e"
