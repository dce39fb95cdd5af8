#!/bin/bash
# check.sh ID [quick|thorough]: build the simulator against /repo's working tree and run the check.
# Exit 0: held; 1: violation (with a VIOLATION line); anything else: error of the check.
cd "$(dirname "$0")" || exit 2
export CMSIM_DIR="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$PWD/target" RUSTC_BOOTSTRAP=cmsim CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$PWD/tools/rustc-cov.sh"
log=$(mktemp)
if ! (cd sim && flock ../.build.lock cargo build --release --offline --quiet) >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
[ "$1" = replay ] && exec "$CARGO_TARGET_DIR/release/cmsim" replay "$2"
exec "$CARGO_TARGET_DIR/release/cmsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
