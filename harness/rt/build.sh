#!/bin/bash
# build.sh FEATURE: builds the ASan runtime harness against /repo's current tree.
. "$(dirname "$0")/../env.sh"
cd "$(dirname "$0")" || exit 3
export CXX=clang++ CC=clang
export CXXFLAGS="-fsanitize=address -fno-omit-frame-pointer -O1 -gline-tables-only"
export RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes"
T=x86_64-unknown-linux-gnu
cargo build --offline --target $T --no-default-features --features "$1" || exit 1
# Per-feature copy, so that checks of different groups do not disturb each other.
cp "target/$T/debug/rt" "target/rt.$1.new" && mv "target/rt.$1.new" "target/rt.$1" || exit 1
echo "$PWD/target/rt.$1" > "target/bin.$1"
