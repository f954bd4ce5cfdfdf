#!/bin/bash
# cwd: the repository.  Builds demo.rs against it in a scratch directory and runs it.
set -e
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"; cp "$D/rec.rs" "$T/src/rec.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
F= V=; if grep -q "vello::" "$D/demo.rs"; then F='"vello"'; V='vello = { version = "0.9.0", default-features = false }'; fi
cat >"$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
velato = { path = "$R", default-features = false, features = [$F] }
serde_json = "1"
kurbo = "0.13"
peniko = "0.6"
$V
[workspace]
EOF
export CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}"
cd "$T"
cargo build --offline -q
ulimit -v 4000000
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
