#!/bin/bash
# run.sh PROP quick|thorough   decide one property
# run.sh replay FILE           repeat a recorded execution
# run.sh build                 only build
# run.sh list                  all scenarios and their bounds
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= MC_VERIF="$VERIF"
export CARGO_TARGET_DIR="$VERIF/target"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" "$VERIF/evidence"
build() {
    (
        flock 9
        # do not rely on modification times of /repo: always rebuild the crate under test
        find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 \( -name 'unixfs-v1-*' -o -name 'mc-*' \) -exec rm -rf {} + 2>/dev/null
        cargo build --release --offline --manifest-path "$VERIF/mc/Cargo.toml" >"$CARGO_TARGET_DIR/build.log" 2>&1
    ) 9>"$CARGO_TARGET_DIR/.build.lock"
}
if ! build; then
    echo "the check does not build against /repo:" >&2
    tail -n 60 "$CARGO_TARGET_DIR/build.log" >&2
    exit 2
fi
MC="$CARGO_TARGET_DIR/release/mc"
case "${1:-}" in
    build) exit 0 ;;
    list) exec "$MC" list ;;
    replay) exec "$MC" replay "$2" ;;
    *) exec "$MC" check "$1" "${2:-quick}" ;;
esac
