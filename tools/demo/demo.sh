#!/bin/bash
# Builds demo.rs (beside this file) against /repo in a scratch directory and runs it:
# exit 0 if the property holds there, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-$PWD}
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" || exit 3
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$w/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
facet = { path = "$repo/facet" }
facet-core = { path = "$repo/facet-core" }
facet-reflect = { path = "$repo/facet-reflect" }
facet-json = { path = "$repo/facet-json" }
facet-msgpack = { path = "$repo/facet-msgpack" }
facet-toml = { path = "$repo/facet-toml" }
facet-yaml = { path = "$repo/facet-yaml" }
facet-urlencoded = { path = "$repo/facet-urlencoded" }
facet-args = { path = "$repo/facet-args" }
facet-pretty = { path = "$repo/facet-pretty" }
T
cd "$w" || exit 3
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTC_WRAPPER=
cargo build --offline -q 2> "$w/err" || { cat "$w/err"; exit 3; }
timeout 60 "$w/target/debug/demo"
