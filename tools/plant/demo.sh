#!/bin/bash
# exit 0 where the property holds, nonzero where it is broken; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)" || exit 2
trap 'cd /; find "$t" -delete' EXIT
mkdir "$t/src" "$t/scratch"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/util.rs" "$t/src/util.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
jpeg-encoder = { path = "$repo"@FEATURES@ }
jpeg-decoder = { version = "0.3", default-features = false }
[profile.release]
overflow-checks = false
debug-assertions = false
[workspace]
T
cd "$t" || exit 2
unset RUSTFLAGS CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true SCRATCH="$t/scratch"
cargo run --quiet --release --offline
