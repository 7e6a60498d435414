#!/bin/bash
# Builds nothing ahead of time: every check rebuilds what it needs from /repo's
# current tree into git-ignored target directories. Only verifies the tools.
. "$(dirname "$0")/harness/env.sh"
cargo --version && rustc --version && clang++ --version | head -1 && g++ --version | head -1
