#!/bin/bash
# usage: build.sh [property]   builds the model checker, and the command line tool for C26
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
root=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$root/work" "$root/evidence" "$root/target"
unset CARGO_TARGET_DIR RUSTFLAGS
log=$(mktemp)
trap 'rm -f "$log"' EXIT
# the crate's own .cargo/config.toml turns the hooks on
(cd "$root/mc" && cargo build --release --offline --target-dir "$root/target") >"$log" 2>&1 || { cat "$log" >&2; exit 2; }
if [ -z "$1" ] || [ "$1" = C26 ]; then
    gcc -O1 -shared -fPIC -o "$root/target/fault.so" "$root/mc/shim/fault.c" >"$log" 2>&1 || { cat "$log" >&2; exit 2; }
    (cd "$root" && cargo build --release --offline --manifest-path /repo/Cargo.toml --target-dir "$root/target/cli") >"$log" 2>&1 || { cat "$log" >&2; exit 2; }
fi
