#!/bin/bash
# Builds the simulator from /repo's current tree and runs one check.
# usage: check.sh C01 [quick|thorough]
cd /verif/sim || exit 2
log=$(mktemp)
if ! RUSTC_WRAPPER=/verif/tools/rustc.sh CARGO_TARGET_DIR=/verif/sim/target/i cargo build --release --offline >"$log" 2>&1; then
  grep -A12 '^error' "$log" | head -60
  rm -f "$log"
  echo "the simulator does not build from this tree"
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec /verif/sim/target/i/release/svdsim check "$1" "$2"
