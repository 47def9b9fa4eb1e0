#!/bin/bash
# check.sh ID [quick|thorough]: builds the driver and runs the check of one property
# check.sh setup: builds the driver only;  check.sh replay FILE: one replay
cd "$(dirname "$0")" || exit 2
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${2:-${VERIF_TIER:-quick}}
V=$PWD; export VERIF_DIR=$V
mkdir -p "$V/.build" evidence
(cd harness/driver && flock "$V/.build/.lock" env -u RUSTUP_TOOLCHAIN cargo build --offline --locked -q --target-dir "$V/.build/driver") >"$V/.build/driver.log" 2>&1 || { cat "$V/.build/driver.log" >&2; echo "check.sh: the driver does not build" >&2; exit 2; }
D="$V/.build/driver/debug/driver"
case "$1" in
  setup) exec "$D" deps ;;
  replay) VERIF_TIER=quick exec "$D" replay "$2" ;;
  *) exec "$D" check "$1" ;;
esac
