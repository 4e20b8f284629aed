#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Rebuilds the model checker against /repo's working tree and runs the check of one property.
# Exit 0: held; 1: violated (a VIOLATION line says where); 2: no answer (does not build).
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
root=$(cd "$(dirname "$0")" && pwd)
export MC_ROOT=$root
"$root/build.sh" "$1" || exit 2
exec "$root/target/release/mc" check "$1" "${2:-${VERIF_TIER:-quick}}"
