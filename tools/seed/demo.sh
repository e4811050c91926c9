#!/bin/bash
# Run with cwd /repo: exits 0 if the demonstrated behaviour is right, nonzero otherwise.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
repo="$PWD"
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
work="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" && cp "$here/u.rs" "$work/src/u.rs" || exit 3
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
unixfs-v1 = { path = "$repo" }
libipld = { version = "0.14.0", default-features = false }
quick-protobuf = "0.8.0"
TOML
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" timeout 280 cargo run --offline --quiet
