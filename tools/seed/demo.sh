#!/bin/bash
# cwd: the repository. Builds the program beside this file against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR=$repo/target CARGO_NET_OFFLINE=true
d=$(mktemp -d /tmp/vpdemo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "vpdemo"
version = "0.1.0"
edition = "2024"
[dependencies]
pywr-core = { path = "$repo/pywr-core", default-features = false, features = ["pyo3", "highs", "microlp", "ipm-simd", "ipm-ocl"] }
ipm-common = { path = "$repo/ipm-common" }
jiff = "0.2"
ndarray = "0.17"
nalgebra = "0.35"
[workspace]
T
touch "$repo/pywr-core/src/lib.rs" 2>/dev/null || true   # rebuild whatever the cache says
cd "$d" && cargo run --offline -q
