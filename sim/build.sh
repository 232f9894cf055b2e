#!/bin/bash
# Builds the simulator against /repo's working tree. `build.sh cov`: the build in which every load
# and store of static memory is seen (for S01).
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true
if [ "$1" = cov ]; then
  shift
  export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=1 -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
  exec cargo build --offline --features cov --target x86_64-unknown-linux-gnu --target-dir target/cov "$@"
fi
exec cargo build --offline "$@"
