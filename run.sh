#!/bin/bash
# run.sh check ID | replay FILE | build: builds the monitor against /repo's current working tree and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! cargo build --release --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then tail -40 "$log"; rm -f "$log"; echo "error of the check: the monitor does not build against /repo"; exit 2; fi
if [ "$2" = C18 ] || [ "$1" != check ]; then
  if ! cargo build --release --offline --manifest-path /repo/Cargo.toml --target-dir harness/target/cli --bin fajt >"$log" 2>&1; then tail -40 "$log"; rm -f "$log"; echo "error of the check: the program does not build"; exit 2; fi
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec harness/target/release/fajt_monitor "$@"
