#!/bin/bash
# Builds main.rs against /repo's working tree in a scratch crate and runs it: exit 0 = property held.
R=$(pwd)
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -r -- "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$D/demo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
coerce = { path = "$R/coerce", features = ["full"] }
tokio = { version = "1.32.0", features = ["full", "test-util"] }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
async-trait = "0.1"
anyhow = "1.0.71"
uuid = { version = "1.1.2", features = ["serde", "v4"] }
[profile.dev]
debug = 0
X
export CARGO_TARGET_DIR="$T/target"
cd "$T"
cargo build --offline -q --config 'build.rustflags=["-Awarnings"]' || exit 3
timeout 120 "$T/target/debug/demo"
rc=$?
echo "demo exit $rc"
exit $rc
