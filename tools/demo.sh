#!/bin/bash
# Builds demo.rs against the repository in the current directory and runs it: exit 0 if the
# behaviour it demonstrates is right.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow"
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
knaster_primitives = { path = "$repo/knaster_primitives" }
knaster_core = { path = "$repo/knaster_core" }
knaster_core_dsp = { path = "$repo/knaster_core_dsp", default-features = false, features = ["std", "sound_files"] }
knaster_graph = { path = "$repo/knaster_graph", default-features = false, features = ["std", "sound_files"] }
knaster_airwindows = { path = "$repo/knaster_airwindows" }
knaster = { path = "$repo/knaster", default-features = false, features = ["std"] }
T
export CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet --manifest-path "$d/Cargo.toml" || exit 2
timeout 60 "$d/target/debug/demo"
