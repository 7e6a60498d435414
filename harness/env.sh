# Sourced by the check scripts: toolchain of the repository, offline.
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2025-04-08
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CXX CXXFLAGS CARGO_TARGET_DIR TRYBUILD RUST_BACKTRACE
export LC_ALL=C

